//! C11: U<N> arithmetic.
#[path = "../support/fixed_width.rs"]
#[macro_use]
mod fw;
use fw::*;
use monitors::{run, Big, Mon, Rng};
use numeric_ints::U;
use numeric_traits::ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub};
use numeric_traits::ops::saturating::{SaturatingAdd, SaturatingMul, SaturatingSub};
use numeric_traits::ops::wrapping::{WrappingAdd, WrappingSub};

fn val<const N: usize>(u: U<N>) -> Big {
    Big::from_le_bytes(false, &u.to_le_bytes())
}

const STRICT: bool = cfg!(debug_assertions);

fn what<const N: usize>(op: &str, a: &Big, b: &Big) -> String {
    format!("U<{N}> {op}(0x{}, 0x{})", a.hex(), b.hex())
}

/// An operator: exact when it fits; otherwise panics when checked, wraps in release
fn operator<const N: usize>(m: &mut Mon, rule: &'static str, a: &Big, b: &Big, exact: &Big, f: impl FnOnce() -> U<N>) {
    let wrapped = exact.modp2(8 * N);
    let fits = *exact == wrapped;
    let got = m.attempt(rule, f).map(val);
    let ok = match &got {
        Ok(g) => *g == wrapped && (fits || !STRICT),
        Err(_) => !fits && STRICT,
    };
    if let Ok(g) = &got {
        if fits {
            m.event(211, || format!("{rule} {} {} {}", a.hex(), b.hex(), g.hex()));
        } else {
            m.event(211, || format!("w{rule} {} u {} {} {}", 8 * N, a.hex(), b.hex(), g.hex()));
        }
    }
    m.check(rule, ok, || {
        format!("{}: exact result {}, got {}", what::<N>(rule, a, b), exact.hex(), match &got { Ok(g) => g.hex(), Err(e) => e.clone() })
    });
}

fn option<const N: usize>(m: &mut Mon, rule: &'static str, a: &Big, b: &Big, exact: &Big, f: impl FnOnce() -> Option<U<N>>) {
    let want = if *exact == exact.modp2(8 * N) { Some(exact.clone()) } else { None };
    let Some(got) = m.run(rule, || what::<N>(rule, a, b), f) else { return };
    let got = got.map(val);
    m.check(rule, got == want, || format!("{}: expected {:?}, got {:?}", what::<N>(rule, a, b), want.as_ref().map(Big::hex), got.as_ref().map(Big::hex)));
}

fn plain<const N: usize>(m: &mut Mon, rule: &'static str, a: &Big, b: &Big, want: &Big, f: impl FnOnce() -> U<N>) {
    let Some(got) = m.run(rule, || what::<N>(rule, a, b), f) else { return };
    let got = val(got);
    m.check(rule, got == *want, || format!("{}: expected {}, got {}", what::<N>(rule, a, b), want.hex(), got.hex()));
}

fn pair<const N: usize>(m: &mut Mon, a: &Big, b: &Big) {
    let (x, y) = (U::<N>::from_le_bytes(bytes_of(a)), U::<N>::from_le_bytes(bytes_of(b)));
    m.seen(&(N, a, b));
    let max = Big::pow2(8 * N).sub(&Big::one());
    let clamp = |v: &Big| if v.neg { Big::zero() } else { v.clone().min(max.clone()) };
    let (s, d, p) = (a.add(b), a.sub(b), a.mul(b));
    if s > max {
        m.count("sums that overflow", 1);
    }
    if p > max {
        m.count("products that overflow", 1);
    }
    operator::<N>(m, "add", a, b, &s, || x + y);
    operator::<N>(m, "sub", a, b, &d, || x - y);
    operator::<N>(m, "mul", a, b, &p, || x * y);
    option::<N>(m, "checked add", a, b, &s, || x.checked_add(y));
    option::<N>(m, "checked sub", a, b, &d, || x.checked_sub(y));
    option::<N>(m, "checked mul", a, b, &p, || x.checked_mul(y));
    plain::<N>(m, "wrapping add", a, b, &s.modp2(8 * N), || x.wrapping_add(y));
    plain::<N>(m, "wrapping sub", a, b, &d.modp2(8 * N), || x.wrapping_sub(y));
    plain::<N>(m, "saturating add", a, b, &clamp(&s), || x.saturating_add(y));
    plain::<N>(m, "saturating sub", a, b, &clamp(&d), || x.saturating_sub(y));
    plain::<N>(m, "saturating mul", a, b, &clamp(&p), || x.saturating_mul(y));
    if b.is_zero() {
        let got = m.attempt("div by zero", || x / y).is_err();
        m.check("div by zero", got, || what::<N>("div returned a value:", a, b));
        let got = m.attempt("rem by zero", || x % y).is_err();
        m.check("rem by zero", got, || what::<N>("rem returned a value:", a, b));
        let got = m.run("checked div by zero", || what::<N>("checked_div", a, b), || x.checked_div(y));
        m.check("checked div by zero", got == Some(None), || format!("{}: {got:?}", what::<N>("checked_div", a, b)));
    } else {
        let (q, w) = a.divrem(b);
        operator::<N>(m, "div", a, b, &q, || x / y);
        operator::<N>(m, "rem", a, b, &w, || x % y);
        option::<N>(m, "checked div", a, b, &q, || x.checked_div(y));
    }
}

fn random<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let a = value::<N>(m, r);
    let b = partner::<N>(m, r, &a);
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    pair::<N>(m, &a, &b);
    if N > 1 {
        // Division with a chosen quotient
        let k = r.range(1, 8 * N - 1);
        let b = b.modp2(k);
        let q = value::<N>(m, r).modp2(8 * N - k);
        let a = b.mul(&q).add(&Big::from_i128(r.irange(-1, 1) as i128)).modp2(8 * N);
        pair::<N>(m, &a, &b);
    }
    m.sample(|| what::<N>("all", &a, &b));
}

fn main() {
    run("C11", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        // Every pair of one byte values
        for a in 0..256usize {
            if m.mine(a) && m.go_until(70) {
                for b in 0..256u128 {
                    pair::<1>(m, &Big::from_u128(a as u128), &Big::from_u128(b));
                }
                m.count("one-byte rows done completely", 1);
            }
        }
        while m.go() {
            for w in 1..WIDTHS {
                for_width!(w, random, m, r);
            }
            if r.chance(1, 4) && !m.kind_slow() {
                let w = rare_width(r);
                for_rare_width!(w, random, m, r);
            }
        }
    });
}
