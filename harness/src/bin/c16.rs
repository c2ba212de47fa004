//! C16: division of digit slices.
#[path = "../support/digits.rs"]
#[macro_use]
mod dg;
use dg::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_bits::algos::{BitwiseDiv, ElementDiv};

fn what<D: Digit>(op: &str, a: &[D], b: &[D]) -> String {
    format!("{op}({}, {})", show(a), show(b))
}

fn quotrem<D: Digit>(m: &mut Mon, rule: &'static str, a: &[D], b: &[D], want: &(Big, Big), f: impl FnOnce() -> (Vec<D>, Vec<D>)) {
    let Some((q, r)) = m.run(rule, || what(rule, a, b), f) else { return };
    let ok = value(&q) == want.0 && value(&r) == want.1;
    m.check(rule, ok, || {
        format!("{}: expected 0x{} rem 0x{}, got {} rem {}", what(rule, a, b), want.0.hex(), want.1.hex(), show(&q), show(&r))
    });
}

/// Result in the left slice; `None` if it was refused
fn placed<D: Digit>(m: &mut Mon, rule: &'static str, a: &[D], b: &[D], want: &Big, f: impl FnOnce(&mut [D], &mut [D]) -> Option<(Vec<D>, bool)>) {
    let mut left = a.to_vec();
    let mut scratch = vec![D::of(0); a.len()];
    let Some(got) = m.run(rule, || what(rule, a, b), || f(&mut left, &mut scratch)) else { return };
    let w = digits::<D>(want, a.len());
    let ok = got.as_ref().is_some_and(|(s, over)| *s == w && !over) && left == w;
    m.check(rule, ok, || format!("{}: expected {}, got {:?} (slice now {})", what(rule, a, b), show(&w), got, show(&left)));
}

fn zero<D: Digit>(m: &mut Mon, a: &[D], len: usize) {
    let b = vec![D::of(0); len];
    m.seen(&(D::NAME, "zero", a, len));
    for form in 0..6 {
        let mut left = a.to_vec();
        let mut s = vec![D::of(0); a.len()];
        let l = &mut left[..];
        let panicked = m
            .attempt("division by zero panics", || match form {
                0 => drop(BitwiseDiv::div_long(a, &b)),
                1 => drop(ElementDiv::div_long(a, &b)),
                2 => drop(BitwiseDiv::div_long_overflowing(l, &b, &mut s)),
                3 => drop(BitwiseDiv::div_long_wrapping(l, &b, &mut s)),
                4 => drop(BitwiseDiv::rem_long_overflowing(l, &b, &mut s)),
                _ => drop(BitwiseDiv::rem_long_wrapping(l, &b, &mut s)),
            })
            .is_err();
        m.check("division by zero panics", panicked, || format!("{} (form {form}) returned", what("division", a, &b)));
    }
    for rem in [false, true] {
        let mut left = a.to_vec();
        let mut s = vec![D::of(0); a.len()];
        let got = m.run("checked division by zero", || what("checked division", a, &b), || {
            if rem {
                BitwiseDiv::rem_long_checked(&mut left[..], &b, &mut s).is_none()
            } else {
                BitwiseDiv::div_long_checked(&mut left[..], &b, &mut s).is_none()
            }
        });
        m.check("checked division by zero", got == Some(true), || format!("{} (rem {rem}) was not refused", what("checked division", a, &b)));
    }
}

fn pair<D: Digit>(m: &mut Mon, a: &[D], b: &[D], element: bool) {
    let (va, vb) = (value(a), value(b));
    if vb.is_zero() {
        zero(m, a, b.len());
        return;
    }
    m.seen(&(D::NAME, a, b));
    m.max("longest dividend", a.len() as u64);
    let qr = va.divrem(&vb);
    if !qr.0.is_zero() && !qr.1.is_zero() {
        m.count("divisions with quotient and remainder", 1);
    }
    m.event(97, || {
        let (q, r) = BitwiseDiv::div_long(a, b);
        if a.len() % 2 == 0 {
            format!("div {} {} {}", va.hex(), vb.hex(), value(&q).hex())
        } else {
            format!("rem {} {} {}", va.hex(), vb.hex(), value(&r).hex())
        }
    });
    quotrem(m, "bitwise div_long", a, b, &qr, || BitwiseDiv::div_long(a, b));
    if element {
        quotrem(m, "element div_long", a, b, &qr, || ElementDiv::div_long(a, b));
    }
    let (q, r) = &qr;
    placed(m, "div_long_overflowing", a, b, q, |l, s| {
        let (o, f) = BitwiseDiv::div_long_overflowing(l, b, s);
        Some((o.to_vec(), f))
    });
    placed(m, "div_long_wrapping", a, b, q, |l, s| Some((BitwiseDiv::div_long_wrapping(l, b, s).to_vec(), false)));
    placed(m, "div_long_checked", a, b, q, |l, s| BitwiseDiv::div_long_checked(l, b, s).map(|o| (o.to_vec(), false)));
    placed(m, "rem_long_overflowing", a, b, r, |l, s| {
        let (o, f) = BitwiseDiv::rem_long_overflowing(l, b, s);
        Some((o.to_vec(), f))
    });
    placed(m, "rem_long_wrapping", a, b, r, |l, s| Some((BitwiseDiv::rem_long_wrapping(l, b, s).to_vec(), false)));
    placed(m, "rem_long_checked", a, b, r, |l, s| BitwiseDiv::rem_long_checked(l, b, s).map(|o| (o.to_vec(), false)));
}

/// Dividends near multiples of the divisor
fn random<D: Digit>(m: &mut Mon, r: &mut Rng) {
    let max = monitors::gen::reach(r, 6, 24, 70);
    let (a, b) = match r.below(3) {
        0 => {
            let a = slice::<D>(m, r, max);
            let b = partner(m, r, &a, max);
            (a, b)
        }
        _ => {
            let b = slice::<D>(m, r, max);
            let q = slice::<D>(m, r, max);
            let off = match r.below(4) {
                0 => Big::zero(),
                1 => value(&b).sub(&Big::one()),
                2 => Big::from_u128(gen::word(r, &m.dict, D::W as u32)),
                _ => Big::one(),
            };
            let v = value(&b).mul(&value(&q)).add(&off);
            let v = match r.below(3) {
                0 if !v.is_zero() => v.sub(&Big::one()),
                _ => v,
            };
            let n = v.bits().div_ceil(D::W).max(1) + r.below(2);
            (digits::<D>(&v.abs(), n), b)
        }
    };
    let element = D::W == 8 && a.len().max(b.len()) < 12;
    pair(m, &a, &b, element);
    m.sample(|| what("div", &a, &b));
}

/// Dividends and divisors of hundreds of digits, next to an exact multiple
fn vast<D: Digit>(m: &mut Mon, r: &mut Rng) {
    let n = if r.bool() { r.range(257, 280) } else { gen::vast(r, &m.dict, if D::W < 64 { 400 } else { 280 }) };
    let mut b: Vec<D> = gen::words(r, &m.dict, D::W as u32, n).into_iter().map(D::of).collect();
    b[n - 1] = D::of(gen::word(r, &m.dict, D::W as u32) | 1);
    let q = if r.bool() { Big::from_u128(r.range(1, 300) as u128) } else { value(&slice::<D>(m, r, 6)) };
    let v = value(&b).mul(&q);
    let v = match r.below(3) {
        0 if !v.is_zero() => v.sub(&Big::one()),
        1 => v.add(&value(&b)).sub(&Big::one()),
        _ => v,
    };
    let len = v.bits().div_ceil(D::W).max(1) + r.below(2);
    pair(m, &digits::<D>(&v, len), &b, false);
    m.count("vast divisions", 1);
}

/// Wide digits whose quotient digits are small, so that the digit-by-digit family can handle them in time
fn small_digits<D: Digit>(m: &mut Mon, r: &mut Rng) {
    let b = slice::<D>(m, r, 4);
    let vb = value(&b);
    if vb.is_zero() {
        return;
    }
    let q: Vec<D> = (0..r.range(1, 4)).map(|_| D::of(r.below(30) as u128)).collect();
    let off = match r.below(3) {
        0 => Big::zero(),
        1 => vb.sub(&Big::one()),
        _ => value(&slice::<D>(m, r, 4)).divrem(&vb).1,
    };
    let v = vb.mul(&value(&q)).add(&off);
    let n = v.bits().div_ceil(D::W).max(1) + r.below(2);
    pair(m, &digits::<D>(&v, n), &b, true);
}

fn main() {
    run("C16", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        for a in 0..256usize {
            if m.mine(a) && m.go_until(50) {
                for b in 0..256u16 {
                    pair::<u8>(m, &[a as u8], &[b as u8], true);
                    pair::<u8>(m, &[b as u8, a as u8], &[b as u8 ^ 0x35, (a % 7) as u8], true);
                    pair::<u8>(m, &[a as u8], &[b as u8, 0], true);
                }
                m.count("one-byte rows done completely", 1);
            }
        }
        let mut rare = 0;
        while m.go() {
            rare += 1;
            if rare % 60 == 20 && !m.kind_slow() {
                for_digit!(r.below(DIGITS), vast, m, r);
            }
            for d in 0..DIGITS {
                for_digit!(d, random, m, r);
                for_digit!(d, small_digits, m, r);
            }
            // The digit-by-digit family, on digits it can handle in time
            let a: Vec<u16> = slice(m, r, 3);
            let b: Vec<u16> = vec![r.range(1, 65535) as u16 | 0x1000];
            pair(m, &a, &b, true);
            let z = slice::<u32>(m, r, 4);
            let n = r.range(1, 4);
            zero(m, &z, n);
        }
    });
}
