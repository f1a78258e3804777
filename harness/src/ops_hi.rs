use festa_rs::supersingular as ss;
use crate::*;
use festa_rs::discrete_log as dl;

pub fn hbig(n: &num_bigint::BigUint) -> String {
    n.to_str_radix(16)
}
/// "l^e,l^e,..." or "-"
pub fn fac(s: &str) -> Vec<(u32, u32)> {
    s.split(',')
        .filter(|x| *x != "-")
        .map(|x| {
            let (l, e) = x.split_once('^').unwrap();
            (l.parse().unwrap(), e.parse().unwrap())
        })
        .collect()
}

use festa_rs::ecFESTA::{CouplePoint, Curve, EllipticProduct, Point, PointX};

/// "X;Y;Z" with raw coordinates
pub fn pt(s: &str) -> Point {
    let c: Vec<&str> = s.split(';').collect();
    let any = Curve::new(&Fp2::ZERO);
    any.point_xyz_nocheck(&fp2(c[0]), &fp2(c[1]), &fp2(c[2]))
}
pub fn rpt(p: &Point) -> String {
    let (x, y, z) = p.to_xyz();
    format!("{};{};{}", raw2(&x), raw2(&y), raw2(&z))
}
pub fn cur(s: &str) -> Curve {
    Curve::new(&fp2(s))
}
fn junk() -> Point {
    Curve::new(&Fp2::ZERO).point_xyz_nocheck(&Fp2::TWO, &Fp2::THREE, &Fp2::FOUR)
}
fn u(x: u32) -> String {
    format!("{:x}", x)
}

pub fn run(op: &str, a: &[&str]) -> Option<Vec<String>> {
    Some(match op {
        "ec.add" | "ec.sub" => {
            let (c, p, q) = (cur(a[0]), pt(a[1]), pt(a[2]));
            let mut t = junk();
            let mut v = p;
            if op == "ec.add" {
                c.add_into(&mut t, &p, &q);
                c.addto(&mut v, &q);
                vec![rpt(&c.add(&p, &q)), rpt(&t), rpt(&v)]
            } else {
                c.sub_into(&mut t, &p, &q);
                c.subfrom(&mut v, &q);
                vec![rpt(&c.sub(&p, &q)), rpt(&t), rpt(&v)]
            }
        }
        "ec.double" => {
            let (c, p) = (cur(a[0]), pt(a[1]));
            let mut t = junk();
            c.double_into(&mut t, &p);
            let mut v = p;
            c.double_self(&mut v);
            let (x, y, z) = p.to_xyz();
            let (x, y, z) = c.double_from_coords(&x, &y, &z);
            vec![rpt(&c.double(&p)), rpt(&t), rpt(&v), rpt(&c.point_xyz_nocheck(&x, &y, &z))]
        }
        "ec.xdbl" => {
            let (x, z) = cur(a[0]).x_dbl_coords(&fp2(a[1]), &fp2(a[2]));
            vec![raw2(&x), raw2(&z)]
        }
        "ec.double_iter" => vec![rpt(&cur(a[0]).double_iter(&pt(a[1]), a[2].parse().unwrap()))],
        "ec.neg" => {
            let p = pt(a[0]);
            let mut v = p;
            v.set_neg();
            let mut w = p;
            w.set_condneg(0xFFFFFFFF);
            let mut k = p;
            k.set_condneg(0);
            vec![rpt(&v), rpt(&w), rpt(&(-p)), rpt(&(-&p)), rpt(&k)]
        }
        "ec.select" => {
            let mut v = pt(a[0]);
            v.set_cond(&pt(a[1]), ctl(a[2]));
            vec![rpt(&v)]
        }
        "ec.equals" => {
            let (p, q) = (pt(a[0]), pt(a[1]));
            vec![u(p.equals(&q)), u(p.isinfinity())]
        }
        "ec.on_curve" => vec![format!("{}", cur(a[0]).on_curve(&pt(a[1])))],
        "ec.set_xy" => {
            let c = cur(a[0]);
            let mut v = junk();
            let f = c.set_xy(&mut v, &fp2(a[1]), &fp2(a[2]));
            let o = c.point_xy_vartime(&fp2(a[1]), &fp2(a[2]));
            vec![u(f), rpt(&v), o.map_or("none".to_string(), |p| rpt(&p))]
        }
        "ec.set_xyz" => {
            let c = cur(a[0]);
            let mut v = junk();
            let f = c.set_xyz(&mut v, &fp2(a[1]), &fp2(a[2]), &fp2(a[3]));
            let o = c.point_xyz_vartime(&fp2(a[1]), &fp2(a[2]), &fp2(a[3]));
            vec![u(f), rpt(&v), o.map_or("none".to_string(), |p| rpt(&p))]
        }
        "ec.to_xy" => {
            let p = pt(a[0]);
            let (x, y) = p.to_xy();
            let o = p.to_xy_vartime();
            let (sx, sz) = p.to_xz();
            vec![
                raw2(&x),
                raw2(&y),
                o.map_or("none".to_string(), |(x, y)| format!("{};{}", raw2(&x), raw2(&y))),
                raw2(&sx),
                raw2(&sz),
            ]
        }
        "ec.complete" => {
            let (p, f) = cur(a[0]).complete_pointX(&PointX::new_xz(&fp2(a[1]), &fp2(a[2])));
            vec![rpt(&p), u(f)]
        }
        "ec.curve_new" => vec![raw2(&cur(a[0]).get_constant())],
        "ec.product" => {
            let e = EllipticProduct::new(&cur(a[0]), &cur(a[1]));
            let c = CouplePoint::new(&pt(a[2]), &pt(a[3]));
            let d = CouplePoint::new(&pt(a[4]), &pt(a[5]));
            let f = |c: CouplePoint| {
                let (p, q) = c.points();
                vec![rpt(&p), rpt(&q)]
            };
            let mut v = f(e.add(&c, &d));
            v.extend(f(e.double(&c)));
            v.extend(f(e.double_iter(&c, 3)));
            v
        }
        "dl.xgcd" => vec![hbig(&dl::xgcd_big(&big(a[0]), &big(a[1])))],
        "dl.sqrt" => vec![dl::sqrt_floor(a[0].parse().unwrap()).to_string()],
        "dl.crt" => {
            let r: Vec<num_bigint::BigUint> = a[1].split(',').filter(|x| *x != "-").map(big).collect();
            vec![hbig(&dl::compute_crt(&r, &fac(a[0])))]
        }
        "pp.all" => {
            use festa_rs::fields::FpFESTAExt as X;
            let n = |v: &[u32]| hbig(&num_bigint::BigUint::from_slice(v));
            let f = |v: &[(u32, u32)]| v.iter().map(|(l, e)| format!("{}^{}", l, e)).collect::<Vec<_>>().join(",");
            let mut v = vec![
                n(&X::D1), n(&X::D2), n(&X::DA), n(&X::DA1), n(&X::DA2), n(&X::M1), n(&X::M2),
                n(&X::BASIS_ORDER), n(&X::BIGUINT_MODULUS),
                f(&X::D1_FACTORED), f(&X::D2_FACTORED), f(&X::DA_FACTORED), f(&X::DA1_FACTORED), f(&X::DA2_FACTORED),
                X::L_POWER.to_string(), X::THETA_ISOGENY_LENGTH.to_string(),
                X::THETA_STRATEGY.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            ];
            for x in [Fp2::ZERO, Fp2::ONE, Fp2::TWO, Fp2::THREE, Fp2::FOUR, Fp2::MINUS_ONE, Fp2::ZETA, Fp2::MINUS_ZETA, Fp2::NQR] {
                v.push(raw2(&x));
            }
            v
        }
        "dl.bsgs" => vec![dl::bsgs(&fp2(a[0]), &fp2(a[1]), a[2].parse().unwrap()).to_string()],
        "dl.ph" => {
            let (b, g, f) = (fp2(a[0]), fp2(a[1]), fac(a[2]));
            let mut v = vec![hbig(&dl::ph_dlp(&b, &g, &f))];
            if f.len() == 1 {
                v.push(hbig(&dl::ph_dlp_power(&b, &g, f[0].0, f[0].1)));
            }
            v
        }
        "dl.bidlp" => {
            let (c, r, p, q, f) = (cur(a[0]), pt(a[1]), pt(a[2]), pt(a[3]), fac(a[4]));
            let e = if a[5] == "1" {
                let n = f.iter().fold(num_bigint::BigUint::from(1u32), |r, (l, e)| r * num_bigint::BigUint::from(*l).pow(*e));
                Some(festa_rs::pairing::weil_pairing(&c, &p, &q, &n))
            } else {
                None
            };
            let (x, y) = dl::bidlp(&c, &r, &p, &q, &f, e);
            vec![hbig(&x), hbig(&y)]
        }
        "ss.kernel" => {
            let (c, r, s, f) = (cur(a[0]), pt(a[1]), pt(a[2]), fac(a[5]));
            vec![hbig(&ss::compute_canonical_kernel(&c, &r, &s, &f, Some((pt(a[3]), pt(a[4])))))]
        }
        "fe.diagb" => {
            let k = festa_rs::festa::FESTACrypto::new();
            let (x, y) = k.recover_diagB(&cur(a[0]), &pt(a[1]), &pt(a[2]), &pt(a[3]));
            vec![hbig(&x), hbig(&y)]
        }
        "is.j" => vec![crate::raw2(&cur(a[0]).j_invariant())],
        "is.new" => {
            let m = festa_rs::ecFESTA::CurveIsomorphism::new(&cur(a[0]), &cur(a[1]));
            a[2..].iter().map(|p| rpt(&m.eval(&pt(p)))).collect()
        }
        "pr.weil" => vec![crate::raw2(&festa_rs::pairing::weil_pairing(&cur(a[0]), &pt(a[1]), &pt(a[2]), &crate::big(a[3])))],
        "pr.tate" => vec![crate::raw2(&festa_rs::pairing::tate_pairing(&cur(a[0]), &pt(a[1]), &pt(a[2]), &crate::big(a[3])))],
        "se.out" => {
            // encode / decode of a ciphertext; the bytes and the decoded content
            let x = festa_rs::festa::TrapdoorOutput::new(&cur(a[0]), &pt(a[1]), &pt(a[2]), &cur(a[3]), &pt(a[4]), &pt(a[5]));
            let b = x.encode();
            let (e1, r1, s1, e2, r2, s2) = festa_rs::festa::TrapdoorOutput::decode(&b).extract();
            vec![crate::hexb(&b), crate::raw2(&e1.get_constant()), rpt(&r1), rpt(&s1), crate::raw2(&e2.get_constant()), rpt(&r2), rpt(&s2)]
        }
        "se.key" => {
            let x = festa_rs::festa::SecretKey::new(&cur(a[0]), &(pt(a[1]), pt(a[2])), &(pt(a[3]), pt(a[4])), &(crate::big(a[5]), crate::big(a[6])));
            let b = x.encode();
            let (e, (p, q), (r, s), (m, n)) = festa_rs::festa::SecretKey::decode(&b).extract();
            vec![crate::hexb(&b), crate::raw2(&e.get_constant()), rpt(&p), rpt(&q), rpt(&r), rpt(&s), hbig(&m), hbig(&n)]
        }
        "se.pk" => {
            let (e, r, s) = festa_rs::festa::PublicKey::new(&cur(a[0]), &pt(a[1]), &pt(a[2])).extract();
            vec![crate::raw2(&e.get_constant()), rpt(&r), rpt(&s)]
        }
        "se.inp" => {
            let b: Vec<_> = a.iter().map(|x| crate::big(x)).collect();
            let x = festa_rs::festa::TrapdoorInput::new(&b[0], &b[1], &(b[2].clone(), b[3].clone()));
            let y = festa_rs::festa::TrapdoorInput::new(&b[4], &b[5], &(b[6].clone(), b[7].clone()));
            let (p, q, (r, s)) = x.extract();
            vec![(x == y).to_string(), hbig(&p), hbig(&q), hbig(&r), hbig(&s)]
        }
        "ss.order" => vec![ss::point_has_factored_order(&cur(a[0]), &pt(a[1]), &fac(a[2])).to_string()],
        "ss.forder" => vec![ss::has_factored_order(fp2(a[0]), &fac(a[1])).to_string()],
        "ss.gen" => {
            let (c, f, e) = (cur(a[0]), fac(a[1]), a[2].parse().unwrap());
            let (p, q) = ss::torsion_basis(&c, &f, e);
            vec![
                rpt(&ss::generate_point_order_factored_D(&c, &f, e)),
                rpt(&ss::generate_random_point_order_factored_D(&c, &f, e)),
                rpt(&p),
                rpt(&q),
            ]
        }
        "ig.one" => {
            let m = festa_rs::ecFESTA::KummerLineIsogeny::new(&cur(a[0]), &pt(a[1]), a[2].parse().unwrap());
            let mut v = vec![raw2(&m.get_codomain().get_constant())];
            v.extend(a[3..].iter().map(|p| rpt(&m.evaluate_isogeny(&pt(p)))));
            v
        }
        "th.chain" | "th.small" => {
            use festa_rs::thetaFESTA as th;
            let e = EllipticProduct::new(&cur(a[0]), &cur(a[1]));
            let cp = |i: usize| CouplePoint::new(&pt(a[i]), &pt(a[i + 1]));
            let n: usize = a[6].parse().unwrap();
            let end = a.iter().position(|x| *x == "=").unwrap_or(a.len());
            let pts: Vec<CouplePoint> = (8..end).step_by(2).map(|i| cp(i)).collect();
            let (c, im) = if a[7] == "-" {
                th::product_isogeny_no_strategy(&e, &cp(2), &cp(4), &pts, n)
            } else {
                let st: Vec<usize> = a[7].split(',').map(|x| x.parse().unwrap()).collect();
                th::product_isogeny(&e, &cp(2), &cp(4), &pts, n, &st)
            };
            let (c1, c2) = c.curves();
            let mut v = vec![raw2(&c1.get_constant()), raw2(&c2.get_constant())];
            for p in im {
                let (x, y) = p.points();
                v.push(rpt(&x));
                v.push(rpt(&y));
            }
            v
        }
        "th.point" => {
            use festa_rs::thetaFESTA::{ThetaPoint, ThetaStructure};
            let f: Vec<Fp2> = a[..8].iter().map(|x| fp2(x)).collect();
            let o = ThetaPoint::from_coords(&f[0], &f[1], &f[2], &f[3]);
            let p = ThetaPoint::new(&f[4], &f[5], &f[6], &f[7]);
            let s = ThetaStructure::new_from_point(&o);
            let h = p.hadamard();
            let q = p.squared_theta();
            let mut v = vec![h.0, h.1, h.2, h.3, q.0, q.1, q.2, q.3];
            v.extend(ThetaStructure::precomputation(&o));
            v.extend(s.double_point(&p).list());
            v.extend(s.double_iter(&p, a[8].parse().unwrap()).list());
            v.iter().map(|x| raw2(x)).collect()
        }
        "ig.chain" => {
            let c = cur(a[0]);
            let l = festa_rs::ecFESTA::factored_kummer_isogeny(&c, &pt(a[1]), &fac(a[2]));
            let mut v = vec![raw2(&l.last().unwrap().get_codomain().get_constant()), l.len().to_string()];
            for p in a[3..].iter() {
                let (e, q) = festa_rs::ecFESTA::evaluate_isogeny_chain(&c, &pt(p), &l);
                v.push(raw2(&e.get_constant()));
                v.push(rpt(&q));
            }
            v
        }
        "ig.basis" => {
            let c = cur(a[0]);
            let l = festa_rs::ecFESTA::factored_kummer_isogeny(&c, &pt(a[3]), &fac(a[4]));
            let (e, (p, q)) = festa_rs::ecFESTA::evaluate_isogeny_chain_for_basis(&c, &(pt(a[1]), pt(a[2])), &l, &big(a[5]), &big(a[6]));
            vec![raw2(&e.get_constant()), rpt(&p), rpt(&q)]
        }
        "ig.scalar" => {
            let (c, f) = (cur(a[0]), fac(a[1]));
            let b = if a.len() > 3 { Some((pt(a[3]), pt(a[4]))) } else { None };
            let (l, e) = ss::isogeny_from_scalar_x_only(&c, &f, &big(a[2]), b);
            let (p, q) = b.unwrap_or_else(|| ss::torsion_basis(&c, &f, festa_rs::fields::FpFESTAExt::L_POWER as usize));
            vec![raw2(&e.get_constant()), raw2(&l.last().unwrap().get_codomain().get_constant()), l.len().to_string(), rpt(&p), rpt(&q)]
        }
        "ig.rand" => {
            let (l, e) = ss::random_isogeny_x_only(&cur(a[0]), &fac(a[1]), a[2].parse().unwrap());
            let mut v = vec![raw2(&e.get_constant())];
            v.extend(l.iter().map(|m| raw2(&m.get_codomain().get_constant())));
            v
        }
        "ss.clear" => {
            let (c, p, n) = (cur(a[0]), pt(a[1]), big(a[2]));
            vec![rpt(&ss::clear_cofactor(&c, &p, &n, a[3].parse().unwrap()))]
        }
        "ec.mul" => {
            let (c, p, n, l) = (cur(a[0]), pt(a[1]), bytes(a[2]), a[3].parse().unwrap());
            let mut t = junk();
            c.mul_into(&mut t, &p, &n, l);
            vec![rpt(&c.mul(&p, &n, l)), rpt(&t)]
        }
        "ec.mul_small" => {
            let (c, p, n) = (cur(a[0]), pt(a[1]), a[2].parse().unwrap());
            let mut t = junk();
            c.mul_small_into(&mut t, &p, n);
            vec![rpt(&c.mul_small(&p, n)), rpt(&t)]
        }
        "ec.mul_big" => vec![rpt(&cur(a[0]).mul_big(&pt(a[1]), &big(a[2])))],
        _ => return None,
    })
}
