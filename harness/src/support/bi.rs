//! Building and observing `BigInt` values through the public API.
#![allow(dead_code)]
use monitors::{Big, Mon, Rng};
use numeric_ints::BigInt;
use numeric_traits::cast::FromStrRadix;

/// Exact value of a `BigInt`, read from its binary rendering (the most direct public view of the
/// stored digits). `None` if the rendering is not of the form `[-]0b[01]+`.
pub fn observe(v: &BigInt) -> Option<Big> {
    use std::fmt::Write;
    if cfg!(miri) {
        // Interpreted executions: formatting is too slow, and they are after memory accesses
        if let Ok(x) = i128::try_from(v) {
            return Some(Big::from_i128(x));
        }
    }
    let mut s = String::with_capacity(80);
    write!(s, "{v:b}").ok()?;
    parse_bin(&s)
}

pub fn parse_bin(s: &str) -> Option<Big> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s),
    };
    let s = s.strip_prefix("0b")?.as_bytes();
    if s.is_empty() {
        return None;
    }
    let mut mag = vec![0u32; s.len() / 32 + 1];
    for (i, &c) in s.iter().rev().enumerate() {
        match c {
            b'1' => mag[i / 32] |= 1 << (i % 32),
            b'0' => (),
            _ => return None,
        }
    }
    Some(Big::new(neg, mag))
}

/// Build a value in one of several ways
pub fn make(b: &Big, how: usize) -> BigInt {
    match how % 4 {
        0 => {
            let out = BigInt::from_str_radix(&b.abs().hex(), 16).expect("digits are valid");
            if b.neg {
                -out
            } else {
                out
            }
        }
        1 => {
            let mut out = BigInt::new();
            for l in b.limbs().into_iter().rev() {
                out = (out << 64u32) + l;
            }
            if b.neg {
                -out
            } else {
                out
            }
        }
        2 => {
            let base = BigInt::from(1u128 << 64);
            let mut out = BigInt::from(0);
            for l in b.limbs().into_iter().rev() {
                out *= &base;
                if b.neg {
                    out -= l;
                } else {
                    out += l;
                }
            }
            out
        }
        _ => {
            if let Some(v) = b.to_i128() {
                BigInt::from(v)
            } else {
                make(b, 1)
            }
        }
    }
}

/// A `BigInt` meant to be `b`, together with the value it is observed to have. All verdicts are
/// about observed values, so a broken constructor is not blamed on the operation under test.
pub fn operand(m: &mut Mon, r: &mut Rng, b: &Big) -> Option<(BigInt, Big)> {
    let how = r.below(4);
    let v = m
        .attempt("construct", || {
            let v = make(b, how);
            let o = observe(&v);
            (v, o)
        })
        .ok()?;
    m.count("operands built", 1);
    Some((v.0, v.1?))
}

pub fn show(b: &Big) -> String {
    format!("{}0x{}", if b.neg { "-" } else { "" }, b.abs().hex())
}

pub fn show2(op: &str, a: &Big, b: &Big) -> String {
    format!("{op}({}, {})", show(a), show(b))
}

pub fn show_res(v: &Option<Big>) -> String {
    match v {
        Some(b) => show(b),
        None => "<malformed binary rendering>".into(),
    }
}
