//! Replay / differential driver: reads one operation per line on stdin, runs it on the
//! real crate, prints the raw results.  Field elements travel as raw Montgomery words
//! (little-endian u64 limbs printed as one big-endian hexadecimal integer) so that the
//! driver does not depend on the code that encodes and decodes.
#![allow(non_snake_case)]
use festa_rs::fields::FpFESTA::Fp;
use festa_rs::fields::FpFESTAExt::Fp2;
use num_bigint::BigUint;
use std::io::{BufRead, Write};

mod ops_fp;
mod ops_hi;

pub const N: usize = 21;

pub fn limbs_from_hex(s: &str) -> [u64; N] {
    let b = BigUint::parse_bytes(s.as_bytes(), 16).expect("hex");
    let d = b.to_u64_digits();
    let mut r = [0u64; N];
    for (i, x) in d.iter().enumerate() {
        r[i] = *x;
    }
    r
}
pub fn hex_from_limbs(l: &[u64; N]) -> String {
    let mut v = Vec::new();
    for x in l {
        v.push(*x as u32);
        v.push((*x >> 32) as u32);
    }
    BigUint::new(v).to_str_radix(16)
}
/// Fp is a newtype over its limbs
pub fn fp(s: &str) -> Fp {
    const _: () = assert!(std::mem::size_of::<Fp>() == 8 * N);
    Fp::new(limbs_from_hex(s))
}
pub fn raw(x: &Fp) -> String {
    let l: [u64; N] = unsafe { std::mem::transmute_copy(x) };
    hex_from_limbs(&l)
}
/// "a,b" -> a + b*i
pub fn fp2(s: &str) -> Fp2 {
    let (a, b) = s.split_once(',').expect("fp2");
    Fp2::new(&fp(a), &fp(b))
}
pub fn raw2(x: &Fp2) -> String {
    let (a, b) = x.get_coeff();
    format!("{},{}", raw(&a), raw(&b))
}
pub fn big(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).expect("big")
}
pub fn bytes(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
pub fn hexb(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".to_string();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn ctl(s: &str) -> u32 {
    if s == "1" {
        0xFFFFFFFF
    } else {
        0
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let child = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                let t: Vec<String> = line.split_whitespace().map(|x| x.to_string()).collect();
                if t.is_empty() {
                    continue;
                }
                let r = std::panic::catch_unwind(move || {
                    let a: Vec<&str> = t[1..].iter().map(|x| x.as_str()).collect();
                    match ops_fp::run(&t[0], &a) {
                        Some(r) => Some(r),
                        None => ops_hi::run(&t[0], &a),
                    }
                });
                let mut o = out.lock();
                match r {
                    Ok(Some(v)) => writeln!(o, "ok {}", v.join(" ")).unwrap(),
                    Ok(None) => writeln!(o, "noop").unwrap(),
                    Err(e) => {
                        let m = if let Some(s) = e.downcast_ref::<String>() {
                            s.clone()
                        } else if let Some(s) = e.downcast_ref::<&str>() {
                            s.to_string()
                        } else {
                            "?".to_string()
                        };
                        writeln!(o, "panic {}", m.replace('\n', " ")).unwrap()
                    }
                }
                o.flush().unwrap();
            }
        })
        .unwrap();
    child.join().unwrap();
}
