use crate::*;

macro_rules! five {
    ($a:expr, $b:expr, $op:tt, $opa:tt) => {{
        let (a, b) = ($a, $b);
        let mut c = a;
        c $opa b;
        let mut d = a;
        d $opa &b;
        vec![a $op b, a $op &b, &a $op b, &a $op &b, c, d]
    }};
}

fn same(v: Vec<Fp>) -> Vec<String> {
    // all operator forms agree, otherwise report them all
    let s: Vec<String> = v.iter().map(raw).collect();
    if s.iter().all(|x| *x == s[0]) {
        vec![s[0].clone()]
    } else {
        s
    }
}
fn same2(v: Vec<Fp2>) -> Vec<String> {
    let s: Vec<String> = v.iter().map(raw2).collect();
    if s.iter().all(|x| *x == s[0]) {
        vec![s[0].clone()]
    } else {
        s
    }
}
fn u(x: u32) -> String {
    format!("{:x}", x)
}

pub fn run(op: &str, a: &[&str]) -> Option<Vec<String>> {
    Some(match op {
        "fp.add" => same(five!(fp(a[0]), fp(a[1]), +, +=)),
        "fp.sub" => same(five!(fp(a[0]), fp(a[1]), -, -=)),
        "fp.mul" => same(five!(fp(a[0]), fp(a[1]), *, *=)),
        "fp.div" => same(five!(fp(a[0]), fp(a[1]), /, /=)),
        "fp.neg" => {
            let x = fp(a[0]);
            let mut y = x;
            y.set_neg();
            same(vec![-x, -&x, y])
        }
        "fp.square" => same(vec![fp(a[0]).square()]),
        "fp.half" => same(vec![fp(a[0]).half()]),
        "fp.mul2" => same(vec![fp(a[0]).mul2()]),
        "fp.mul3" => same(vec![fp(a[0]).mul3()]),
        "fp.mul4" => same(vec![fp(a[0]).mul4()]),
        "fp.mul8" => same(vec![fp(a[0]).mul8()]),
        "fp.mul_small" => same(vec![fp(a[0]).mul_small(a[1].parse().unwrap())]),
        "fp.invert" => {
            let x = fp(a[0]);
            let mut y = x;
            y.set_invert();
            same(vec![x.invert(), y])
        }
        "fp.sqrt" => {
            let (r, c) = fp(a[0]).sqrt();
            vec![raw(&r), u(c)]
        }
        "fp.fourth_root" => {
            let (r, c) = fp(a[0]).fourth_root();
            vec![raw(&r), u(c)]
        }
        "fp.legendre" => vec![format!("{}", fp(a[0]).legendre())],
        "fp.iszero" => vec![u(fp(a[0]).iszero())],
        "fp.equals" => vec![u(fp(a[0]).equals(&fp(a[1])))],
        "fp.select" => {
            let (x, y) = (fp(a[0]), fp(a[1]));
            let mut z = fp(a[1]);
            z.set_select(&x, &y, ctl(a[2]));
            same(vec![Fp::select(&x, &y, ctl(a[2])), z])
        }
        "fp.set_cond" => {
            let mut x = fp(a[0]);
            x.set_cond(&fp(a[1]), ctl(a[2]));
            same(vec![x])
        }
        "fp.set_condneg" => {
            let mut x = fp(a[0]);
            x.set_condneg(ctl(a[1]));
            same(vec![x])
        }
        "fp.condswap" => {
            let (mut x, mut y) = (fp(a[0]), fp(a[1]));
            Fp::condswap(&mut x, &mut y, ctl(a[2]));
            vec![raw(&x), raw(&y)]
        }
        "fp.sop" => same(vec![Fp::sum_of_products(&fp(a[0]), &fp(a[1]), &fp(a[2]), &fp(a[3]))]),
        "fp.dop" => same(vec![Fp::difference_of_products(
            &fp(a[0]),
            &fp(a[1]),
            &fp(a[2]),
            &fp(a[3]),
        )]),
        "fp.encode" => vec![hexb(&fp(a[0]).encode())],
        "fp.decode" => {
            let (x, c) = Fp::decode(&bytes(a[0]));
            vec![raw(&x), u(c)]
        }
        "fp.decode_reduce" => vec![raw(&Fp::decode_reduce(&bytes(a[0])))],
        "fp.from_i32" => vec![raw(&Fp::from_i32(a[0].parse().unwrap()))],
        "fp.from_i64" => vec![raw(&Fp::from_i64(a[0].parse().unwrap()))],
        "fp.from_u32" => vec![raw(&Fp::from_u32(a[0].parse().unwrap()))],
        "fp.from_u64" => vec![raw(&Fp::from_u64(a[0].parse().unwrap()))],
        "fp.pow" => vec![raw(&fp(a[0]).pow(&bytes(a[1]), a[2].parse().unwrap()))],
        "fp.pow_ext" => vec![raw(&fp(a[0]).pow_ext(
            &bytes(a[1]),
            a[2].parse().unwrap(),
            a[3].parse().unwrap(),
        ))],
        "fp.pow_big" => vec![raw(&fp(a[0]).pow_big(&big(a[1])))],

        "fp2.add" => same2(five!(fp2(a[0]), fp2(a[1]), +, +=)),
        "fp2.sub" => same2(five!(fp2(a[0]), fp2(a[1]), -, -=)),
        "fp2.mul" => {
            let mut v = five!(fp2(a[0]), fp2(a[1]), *, *=);
            v.push(fp2(a[0]).mul_old(fp2(a[1])));
            v.push(fp2(a[0]).mul_new(fp2(a[1])));
            same2(v)
        }
        "fp2.div" => same2(five!(fp2(a[0]), fp2(a[1]), /, /=)),
        "fp2.neg" => {
            let x = fp2(a[0]);
            let mut y = x;
            y.set_neg();
            same2(vec![-x, -&x, y])
        }
        "fp2.square" => same2(vec![fp2(a[0]).square()]),
        "fp2.conj" => {
            let x = fp2(a[0]);
            let mut y = x;
            y.set_conj();
            same2(vec![x.conj(), y])
        }
        "fp2.half" => same2(vec![fp2(a[0]).half()]),
        "fp2.mul2" => same2(vec![fp2(a[0]).mul2()]),
        "fp2.mul3" => same2(vec![fp2(a[0]).mul3()]),
        "fp2.mul4" => same2(vec![fp2(a[0]).mul4()]),
        "fp2.mul8" => same2(vec![fp2(a[0]).mul8()]),
        "fp2.mul_small" => same2(vec![fp2(a[0]).mul_small(a[1].parse().unwrap())]),
        "fp2.invert" => {
            let x = fp2(a[0]);
            let mut y = x;
            y.set_invert();
            same2(vec![x.invert(), y])
        }
        "fp2.batch_invert" => {
            let mut v: Vec<Fp2> = a.iter().map(|s| fp2(s)).collect();
            Fp2::batch_invert(&mut v);
            v.iter().map(raw2).collect()
        }
        "fp2.batch_invert_n" => {
            // n elements: x, x+1, x+2, ... with a zero every k-th position (k = 0: none)
            let n: usize = a[1].parse().unwrap();
            let k: usize = a[2].parse().unwrap();
            let mut v = vec![Fp2::ZERO; n];
            let mut x = fp2(a[0]);
            for i in 0..n {
                if k == 0 || i % k != 0 {
                    v[i] = x;
                }
                x += Fp2::ONE;
            }
            let o = v.clone();
            Fp2::batch_invert(&mut v);
            let mut bad = vec![];
            for i in 0..n {
                let ok = if o[i].iszero() != 0 {
                    v[i].iszero() != 0
                } else {
                    (o[i] * v[i]).equals(&Fp2::ONE) != 0
                };
                if !ok {
                    bad.push(format!("{}", i));
                }
            }
            vec![if bad.is_empty() { "good".to_string() } else { bad.join(",") }]
        }
        "fp2.sqrt" => {
            let (r, c) = fp2(a[0]).sqrt();
            vec![raw2(&r), u(c)]
        }
        "fp2.fourth_root" => {
            let (r, c) = fp2(a[0]).fourth_root();
            vec![raw2(&r), u(c)]
        }
        "fp2.legendre" => vec![format!("{}", fp2(a[0]).legendre())],
        "fp2.iszero" => vec![u(fp2(a[0]).iszero())],
        "fp2.equals" => vec![u(fp2(a[0]).equals(&fp2(a[1]))), format!("{}", fp2(a[0]) == fp2(a[1]))],
        "fp2.select" => {
            let (x, y) = (fp2(a[0]), fp2(a[1]));
            let mut z = fp2(a[1]);
            z.set_select(&x, &y, ctl(a[2]));
            same2(vec![Fp2::select(&x, &y, ctl(a[2])), z])
        }
        "fp2.set_cond" => {
            let mut x = fp2(a[0]);
            x.set_cond(&fp2(a[1]), ctl(a[2]));
            same2(vec![x])
        }
        "fp2.set_condneg" => {
            let mut x = fp2(a[0]);
            x.set_condneg(ctl(a[1]));
            same2(vec![x])
        }
        "fp2.condswap" => {
            let (mut x, mut y) = (fp2(a[0]), fp2(a[1]));
            Fp2::condswap(&mut x, &mut y, ctl(a[2]));
            vec![raw2(&x), raw2(&y)]
        }
        "fp2.encode" => vec![hexb(&fp2(a[0]).encode())],
        "fp2.decode" => {
            let (x, c) = Fp2::decode(&bytes(a[0]));
            vec![raw2(&x), u(c)]
        }
        "fp2.pow" => vec![raw2(&fp2(a[0]).pow(&bytes(a[1]), a[2].parse().unwrap()))],
        "fp2.pow_ext" => vec![raw2(&fp2(a[0]).pow_ext(
            &bytes(a[1]),
            a[2].parse().unwrap(),
            a[3].parse().unwrap(),
        ))],
        "fp2.pow_big" => vec![raw2(&fp2(a[0]).pow_big(&big(a[1])))],
        "fp2.pow_small" => vec![raw2(&fp2(a[0]).pow_small(a[1].parse().unwrap()))],
        "fp2.pow_u64" => vec![raw2(&fp2(a[0]).pow_u64(a[1].parse().unwrap(), a[2].parse().unwrap()))],
        "fp2.pow_u64_vartime" => vec![raw2(&fp2(a[0]).pow_u64_vartime(a[1].parse().unwrap()))],
        _ => return None,
    })
}
