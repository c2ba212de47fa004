//! C14: I<N> is two's complement arithmetic.
#[path = "../support/fixed_width.rs"]
#[macro_use]
mod fw;
use fw::*;
use monitors::{run, Big, Mon, Rng};
use numeric_ints::I;
use numeric_traits::class::{Bounded, BoundedSigned, Signed};
use numeric_traits::identity::{One, Zero};
use rand::{Fill, RngCore};

/// A generator that hands out chosen bytes: the only public way to give an I<N> its bytes directly
struct Script<'a>(&'a [u8], usize);

impl RngCore for Script<'_> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for d in dst {
            *d = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
}

fn by_bytes<const N: usize>(b: &Big) -> I<N> {
    let bytes: [u8; N] = bytes_of(b);
    let mut out = I::<N>::zero();
    Fill::fill(&mut out, &mut Script(&bytes, 0));
    out
}

/// By doubling and adding one
fn by_sums<const N: usize>(b: &Big) -> I<N> {
    let mut out = I::<N>::zero();
    let u = b.modp2(8 * N);
    for i in (0..8 * N).rev() {
        out = out + out;
        if u.bit(i) {
            out = out + I::one();
        }
    }
    out
}

fn mk<const N: usize>(fill_ok: bool, b: &Big) -> I<N> {
    if fill_ok {
        by_bytes(b)
    } else {
        by_sums(b)
    }
}

/// Whether filling from bytes gives what sums give (sampling is not judged here)
fn calibrate<const N: usize>(m: &mut Mon, r: &mut Rng) -> bool {
    (0..20).all(|_| {
        let a = value::<N>(m, r);
        m.attempt("calibrate", || by_bytes::<N>(&a) == by_sums::<N>(&a)).unwrap_or(false)
    })
}

fn what<const N: usize>(op: &str, a: &Big, b: &Big) -> String {
    format!("I<{N}> {op}({}, {})", a.hex(), b.hex())
}

fn judge<const N: usize>(m: &mut Mon, f: bool, rule: &'static str, a: &Big, b: &Big, want: &Big, op: impl FnOnce() -> I<N>) {
    let Some(got) = m.run(rule, || what::<N>(rule, a, b), op) else { return };
    let want = want.wrap_signed(8 * N);
    let w = mk::<N>(f, &want);
    m.check(rule, got == w, || format!("{}: expected {} = {w:?}, got {got:?}", what::<N>(rule, a, b), want.hex()));
}

fn pair<const N: usize>(m: &mut Mon, f: bool, a: &Big, b: &Big) {
    let (x, y) = (mk::<N>(f, a), mk::<N>(f, b));
    m.seen(&(N, a, b));
    judge::<N>(m, f, "add", a, b, &a.add(b), || x + y);
    judge::<N>(m, f, "sub", a, b, &a.sub(b), || x - y);
    judge::<N>(m, f, "mul", a, b, &a.mul(b), || x * y);
    if b.is_zero() {
        let got = m.attempt("div by zero", || x / y).is_err();
        m.check("div by zero", got, || what::<N>("div returned a value:", a, b));
        let got = m.attempt("rem by zero", || x % y).is_err();
        m.check("rem by zero", got, || what::<N>("rem returned a value:", a, b));
    } else {
        let (q, w) = a.divrem(b);
        judge::<N>(m, f, "div", a, b, &q, || x / y);
        judge::<N>(m, f, "rem", a, b, &w, || x % y);
    }
    let (ua, ub) = (a.modp2(8 * N), b.modp2(8 * N));
    judge::<N>(m, f, "and", a, b, &ua.bitop(&ub, |p, q| p & q), || x & y);
    judge::<N>(m, f, "or", a, b, &ua.bitop(&ub, |p, q| p | q), || x | y);
    judge::<N>(m, f, "xor", a, b, &ua.bitop(&ub, |p, q| p ^ q), || x ^ y);
    let want = a.cmp(b);
    let got = m.run("compare", || what::<N>("cmp", a, b), || (x.cmp(&y), x.partial_cmp(&y), x == y, x != y, x < y, x <= y, x > y, x >= y));
    let want = (want, Some(want), want.is_eq(), want.is_ne(), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge());
    m.check("compare", got == Some(want), || format!("{}: got {got:?}, expected {want:?}", what::<N>("cmp", a, b)));
}

fn single<const N: usize>(m: &mut Mon, f: bool, a: &Big) {
    let x = mk::<N>(f, a);
    judge::<N>(m, f, "neg", a, a, &a.neg(), || -x);
    judge::<N>(m, f, "not", a, a, &a.neg().sub(&Big::one()), || !x);
    judge::<N>(m, f, "abs", a, a, &a.abs(), || x.abs());
    let got = m.run("predicates", || what::<N>("predicates", a, a), || (x.is_negative(), x.is_positive(), x.is_zero(), x.is_one()));
    let want = (a.neg, !a.neg, a.is_zero(), *a == Big::one());
    m.check("predicates", got == Some(want), || format!("{}: (negative, positive, zero, one) {got:?}, expected {want:?}", what::<N>("predicates", a, a)));
}

fn limits<const N: usize>(m: &mut Mon, f: bool) {
    let lo = Big::pow2(8 * N - 1).neg();
    let hi = Big::pow2(8 * N - 1).sub(&Big::one());
    let minus = Big::from_i128(-1);
    judge::<N>(m, f, "limits", &lo, &lo, &lo, I::<N>::min_value);
    judge::<N>(m, f, "limits", &hi, &hi, &hi, I::<N>::max_value);
    judge::<N>(m, f, "limits", &Big::one(), &Big::one(), &Big::one(), I::<N>::min_positive);
    judge::<N>(m, f, "limits", &minus, &minus, &minus, I::<N>::max_negative);
    judge::<N>(m, f, "limits", &Big::zero(), &Big::zero(), &Big::zero(), I::<N>::zero);
    judge::<N>(m, f, "limits", &Big::one(), &Big::one(), &Big::one(), I::<N>::one);
    for a in [&lo, &hi, &minus, &Big::one(), &Big::zero()] {
        single::<N>(m, f, a);
        for b in [&lo, &hi, &minus, &Big::one(), &Big::zero()] {
            pair::<N>(m, f, a, b);
        }
    }
}

fn random<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let f = calibrate::<N>(m, r);
    if !f {
        m.count("widths where filling from bytes is not usable", 1);
    }
    limits::<N>(m, f);
    for _ in 0..(if f { 60 } else { 4 }) {
        let a = value::<N>(m, r);
        let b = match r.below(3) {
            0 => a.neg().modp2(8 * N),
            _ => partner::<N>(m, r, &a),
        };
        let (a, b) = (a.wrap_signed(8 * N), b.wrap_signed(8 * N));
        pair::<N>(m, f, &a, &b);
        pair::<N>(m, f, &b, &a);
        single::<N>(m, f, &a);
        if N > 1 {
            let k = r.range(1, 8 * N - 1);
            let d = b.wrap_signed(k);
            let q = value::<N>(m, r).wrap_signed(8 * N - k);
            let n = d.mul(&q).add(&Big::from_i128(r.irange(-1, 1) as i128)).wrap_signed(8 * N);
            pair::<N>(m, f, &n, &d);
        }
        m.sample(|| what::<N>("all", &a, &b));
    }
}

fn main() {
    run("C14", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let f = calibrate::<1>(m, r);
        for a in 0..256usize {
            if m.mine(a) && m.go_until(60) {
                let ab = Big::from_u128(a as u128).wrap_signed(8);
                single::<1>(m, f, &ab);
                for b in 0..256u128 {
                    pair::<1>(m, f, &ab, &Big::from_u128(b).wrap_signed(8));
                }
                m.count("one-byte rows done completely", 1);
            }
        }
        while m.go() {
            for w in 1..WIDTHS {
                for_width!(w, random, m, r);
            }
            if r.chance(1, 4) && !m.kind_slow() {
                let w = rare_width(r);
                for_rare_width!(w, random, m, r);
            }
        }
    });
}
