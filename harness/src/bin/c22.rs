//! C22: rationals are the exact fraction in lowest terms with a positive denominator.
#[path = "../support/prim.rs"]
mod prim;
use monitors::{run, Big, Mon, Rng};
use numeric_reals::Rat;
use numeric_traits::class::{Bounded, Integral, Real, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::Gcd;
use prim::*;
use std::ops::Neg;

trait Base: Prim + Integral + Ord + Bounded + Gcd<Output = Self> {}
impl<T: Prim + Integral + Ord + Bounded + Gcd<Output = T>> Base for T {}

/// A fraction in lowest terms, denominator positive
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Q(Big, Big);

impl Q {
    fn new(n: &Big, d: &Big) -> Q {
        let g = n.gcd(d);
        let (n, d) = (n.divrem(&g).0, d.divrem(&g).0);
        if d.neg {
            Q(n.neg(), d.neg())
        } else {
            Q(n, d)
        }
    }
    fn text(&self) -> String {
        format!("{}/{}", self.0.to_radix(10), self.1.to_radix(10))
    }
}

/// Whether the value and its negative can be held (sign normalisation negates)
fn ok<T: Prim>(v: &Big) -> bool {
    fits::<T>(v) && (!T::SIGNED || fits::<T>(&v.neg()))
}

fn make<T: Base>(m: &mut Mon, n: &Big, d: &Big) -> Option<Rat<T>> {
    m.run("new", || format!("Rat::<{}>::new({}, {})", T::NAME, n.to_radix(10), d.to_radix(10)), || Rat::new(T::of(n), T::of(d)))?
}

fn judge<T: Base>(m: &mut Mon, rule: &'static str, input: &dyn Fn() -> String, want: &Q, f: impl FnOnce() -> Rat<T>) -> Option<Rat<T>> {
    let got = m.run(rule, || format!("Rat<{}> {rule} {}", T::NAME, input()), f)?;
    let (n, d) = (got.numerator().big(), got.denominator().big());
    let pair = got.into_pair();
    let good = n == want.0 && d == want.1 && pair.0.big() == n && pair.1.big() == d;
    m.check(rule, good, || format!("Rat<{}> {rule} {}: expected {}, got {}/{}", T::NAME, input(), want.text(), n.to_radix(10), d.to_radix(10)));
    if good {
        // The same value by a direct route is equal
        let same = m.run("equality", input, || Rat::new(T::of(&want.0), T::of(&want.1)) == Some(got));
        m.check("equality", same == Some(true), || format!("Rat<{}> {rule} {} is not equal to {}", T::NAME, input(), want.text()));
        return Some(got);
    }
    None
}

fn construct<T: Base>(m: &mut Mon, n: &Big, d: &Big) -> Option<(Q, Rat<T>)> {
    if d.is_zero() {
        let got = m.run("zero denominator refused", || format!("Rat::<{}>::new({}, 0)", T::NAME, n.to_radix(10)), || Rat::new(T::of(n), T::of(d)).is_none());
        m.check("zero denominator refused", got == Some(true), || format!("Rat::<{}>::new({}, 0) gave a value", T::NAME, n.to_radix(10)));
        return None;
    }
    let q = Q::new(n, d);
    m.seen(&(T::NAME, n, d));
    let r = make::<T>(m, n, d);
    if r.is_none() {
        m.check("new", false, || format!("Rat::<{}>::new({}, {}) refused", T::NAME, n.to_radix(10), d.to_radix(10)));
        return None;
    }
    let input = || format!("({}, {})", n.to_radix(10), d.to_radix(10));
    let r = judge::<T>(m, "new", &input, &q, || r.unwrap())?;
    Some((q, r))
}

fn single<T: Base>(m: &mut Mon, q: &Q, x: Rat<T>) {
    let input = || q.text();
    let (n, d) = (&q.0, &q.1);
    let one = Big::one();
    let (w, rem) = n.divrem(d);
    let whole = |v: Big| Q(v, Big::one());
    judge(m, "floor", &input, &whole(w.clone()), || x.floor());
    let step = if n.neg { one.neg() } else { one.clone() };
    let up = if rem.is_zero() { w.clone() } else { w.add(&step) };
    if ok::<T>(&up) {
        judge(m, "ceil", &input, &whole(up.clone()), || x.ceil());
    }
    // Nearest whole number; exactly halfway, the one nearer to zero
    let near = if rem.abs().shl(1) > *d { up } else { w };
    if ok::<T>(&near) {
        judge(m, "round", &input, &whole(near), || x.round());
    }
    let got = m.run("identities", input, || {
        (x.is_zero(), x.is_one(), x == Rat::zero(), x == Rat::one(), x == Rat::default(), Rat::<T>::zero().is_zero(), Rat::<T>::one().is_one())
    });
    let is1 = *n == one && *d == one;
    let want = (n.is_zero(), is1, n.is_zero(), is1, n.is_zero(), true, true);
    m.check("identities", got == Some(want), || format!("Rat<{}> {}: zero/one tests {got:?}, expected {want:?}", T::NAME, q.text()));
    let text = m.run("debug text", input, || format!("{x:?}"));
    let want = format!("{} / {}", n.to_radix(10), d.to_radix(10));
    m.check("debug text", text.as_ref() == Some(&want), || format!("Rat<{}> {}: printed {text:?}", T::NAME, q.text()));
    let got = m.run("copies", input, || x.clone() == x && !(x != x));
    m.check("copies", got == Some(true), || format!("Rat<{}> {} differs from its copy", T::NAME, q.text()));
}

fn signed<T: Base + Signed + Neg<Output = T>>(m: &mut Mon, q: &Q, x: Rat<T>) {
    let input = || q.text();
    judge(m, "neg", &input, &Q(q.0.neg(), q.1.clone()), || -x);
    judge(m, "abs", &input, &Q(q.0.abs(), q.1.clone()), || x.abs());
    let got = m.run("signs", input, || (x.is_negative(), x.is_positive()));
    m.check("signs", got == Some((q.0.neg, !q.0.neg)), || format!("Rat<{}> {}: negative, positive {got:?}", T::NAME, q.text()));
}

fn pair<T: Base>(m: &mut Mon, p: &Q, x: Rat<T>, q: &Q, y: Rat<T>) -> Vec<(Q, Rat<T>)> {
    let mut out = vec![];
    let eq = m.run("equality", || format!("{} {}", p.text(), q.text()), || (x == y, x != y));
    let same = p == q;
    m.check("equality", eq == Some((same, !same)), || format!("Rat<{}> {} == {}: {eq:?}", T::NAME, p.text(), q.text()));
    let (a, b) = (p.0.mul(&q.1), q.0.mul(&p.1));
    let dd = p.1.mul(&q.1);
    let input = || format!("{} and {}", p.text(), q.text());
    let mut go = |m: &mut Mon, rule: &'static str, n: &Big, d: &Big, f: &dyn Fn() -> Rat<T>| {
        if ok::<T>(n) && ok::<T>(d) {
            let want = Q::new(n, d);
            m.count("results in range", 1);
            if let Some(v) = judge(m, rule, &input, &want, f) {
                out.push((want, v));
            }
        }
    };
    if ok::<T>(&a) && ok::<T>(&b) {
        go(m, "add", &a.add(&b), &dd, &|| x + y);
        go(m, "sub", &a.sub(&b), &dd, &|| x - y);
    }
    go(m, "mul", &p.0.mul(&q.0), &dd, &|| x * y);
    if q.0.is_zero() {
        let r = m.attempt("division by zero panics", || x / y).is_err();
        m.check("division by zero panics", r, || format!("Rat<{}> {} / 0 returned", T::NAME, p.text()));
    } else if ok::<T>(&a) {
        m.event(97, || format!("mul {} {} {}", p.0.hex(), q.1.hex(), a.hex()));
        go(m, "div", &a, &p.1.mul(&q.0), &|| x / y);
    }
    out
}

/// Numbers with common factors, so that reduction has something to do
fn part<T: Prim>(m: &Mon, r: &mut Rng) -> Big {
    const F: [u128; 14] = [1, 2, 2, 2, 3, 3, 4, 5, 7, 11, 13, 16, 60, 97];
    let v = match r.below(6) {
        0 => number::<T>(m, r),
        1 => short::<T>(m, r, T::BITS / 2 - 1),
        2 => short::<T>(m, r, 4),
        3 => Big::pow2(r.below(T::BITS - 1)),
        _ => {
            let mut v = Big::one();
            for _ in 0..r.below(12) {
                let w = v.mul(&Big::from_u128(*r.pick(&F)));
                if w.bits() > T::BITS / 2 + 2 {
                    break;
                }
                v = w;
            }
            if T::SIGNED && r.bool() {
                v.neg()
            } else {
                v
            }
        }
    };
    if ok::<T>(&v) {
        v
    } else {
        short::<T>(m, r, T::BITS / 4)
    }
}

fn random<T: Base>(m: &mut Mon, r: &mut Rng, sg: &dyn Fn(&mut Mon, &Q, Rat<T>)) {
    let (n, d) = (part::<T>(m, r), part::<T>(m, r));
    m.sample(|| format!("Rat<{}> new({}, {})", T::NAME, n.to_radix(10), d.to_radix(10)));
    let Some((mut p, mut x)) = construct::<T>(m, &n, &d) else { return };
    // The same value scaled up is the same value
    let k = part::<T>(m, r);
    if !k.is_zero() && ok::<T>(&n.mul(&k)) && ok::<T>(&d.mul(&k)) {
        construct::<T>(m, &n.mul(&k), &d.mul(&k));
    }
    // A history of operations
    for _ in 0..6 {
        single(m, &p, x);
        sg(m, &p, x);
        let (n, d) = match r.below(5) {
            0 => (p.0.clone(), p.1.clone()),
            1 => (p.1.clone(), p.0.clone()),
            2 => (part::<T>(m, r), p.1.clone()),
            3 => (short::<T>(m, r, 3), short::<T>(m, r, 3)),
            _ => (part::<T>(m, r), part::<T>(m, r)),
        };
        let Some((q, y)) = construct::<T>(m, &n, &d) else { continue };
        pair(m, &q, y, &p, x);
        let mut next = pair(m, &p, x, &q, y);
        if next.is_empty() {
            continue;
        }
        let i = r.below(next.len());
        (p, x) = next.swap_remove(i);
    }
}

fn limit<T: Base>(m: &mut Mon) {
    let (lo, hi) = limits::<T>();
    judge::<T>(m, "limits", &String::new, &Q(hi, Big::one()), Rat::max_value);
    let v = m.run("limits", String::new, || Rat::<T>::min_value().into_pair());
    m.check("limits", v == Some((T::of(&lo), T::of(&Big::one()))), || format!("Rat<{}> min_value {v:?}", T::NAME));
}

fn grid<T: Base>(m: &mut Mon, sg: &dyn Fn(&mut Mon, &Q, Rat<T>)) {
    limit::<T>(m);
    let (lo, hi) = limits::<T>();
    let (lo, hi) = (lo.to_i128().unwrap() + i128::from(T::SIGNED), hi.to_i128().unwrap());
    for n in lo..=hi {
        for d in lo..=hi {
            if let Some((q, x)) = construct::<T>(m, &Big::from_i128(n), &Big::from_i128(d)) {
                if d > 0 {
                    single(m, &q, x);
                    sg(m, &q, x);
                }
            }
        }
    }
    m.count("8-bit fractions done completely", 1);
}

/// All pairs of small fractions
fn small<T: Base>(m: &mut Mon) {
    let lo = if T::SIGNED { -5 } else { 0 };
    let mut all = vec![];
    for n in lo..=5 {
        for d in 1..=6 {
            all.extend(construct::<T>(m, &Big::from_i128(n), &Big::from_i128(d)));
        }
    }
    for (p, x) in &all {
        for (q, y) in &all {
            pair(m, p, *x, q, *y);
        }
    }
}

fn main() {
    run("C22", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        if m.mine(0) {
            grid::<i8>(m, &signed::<i8>);
            small::<i8>(m);
        }
        if m.mine(1) {
            grid::<u8>(m, &|_, _, _| ());
            small::<u8>(m);
        }
        while m.go() {
            macro_rules! go { ($($s:ident)*; $($u:ident)*) => {
                $( random::<$s>(m, r, &signed::<$s>); limit::<$s>(m); )*
                $( random::<$u>(m, r, &|_, _, _| ()); limit::<$u>(m); )*
            } }
            go!(i8 i16 i32 i64 i128 isize; u8 u16 u32 u64 u128 usize);
        }
    });
}
