//! C23: complex arithmetic. Exact rational components are compared exactly; integers where nothing overflows;
//! floats exactly on small whole numbers and to a tolerance otherwise.
#[path = "../support/bi.rs"]
mod bi;
#[path = "../support/prim.rs"]
mod prim;
#[path = "../support/q.rs"]
mod q;
use monitors::{run, Big, Mon, Rng};
use numeric_compounds::complex::Complex;
use numeric_ints::BigInt;
use numeric_traits::class::Real;
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::core::NumOps;
use prim::*;
use q::Q;
use std::fmt::Debug;

/// The model: a pair of exact rationals
type C = (Q, Q);

fn madd(a: &C, b: &C) -> C {
    (&a.0 + &b.0, &a.1 + &b.1)
}
fn msub(a: &C, b: &C) -> C {
    (&a.0 - &b.0, &a.1 - &b.1)
}
fn mmul(a: &C, b: &C) -> C {
    (&(&a.0 * &b.0) - &(&a.1 * &b.1), &(&a.0 * &b.1) + &(&a.1 * &b.0))
}
fn norm(a: &C) -> Q {
    &(&a.0 * &a.0) + &(&a.1 * &a.1)
}
fn mdiv(a: &C, b: &C) -> C {
    let p = mmul(a, &(b.0.clone(), -b.1.clone()));
    let n = norm(b);
    (p.0 / &n, p.1 / &n)
}

trait Comp: NumOps + Zero + One + PartialEq + Clone + Default + 'static {
    const NAME: &'static str;
    fn put(q: &Q) -> Self;
    fn get(&self) -> Q;
    /// Whether `put` holds the value exactly with room for the operations
    fn holds(q: &Q) -> bool;
}

impl Comp for Q {
    const NAME: &'static str = "rational";
    fn put(q: &Q) -> Q {
        q.clone()
    }
    fn get(&self) -> Q {
        self.clone()
    }
    fn holds(_: &Q) -> bool {
        true
    }
}

macro_rules! ints { ($($t:ident)*) => { $(
    impl Comp for $t {
        const NAME: &'static str = stringify!($t);
        fn put(q: &Q) -> $t { <$t as Prim>::of(&q.n) }
        fn get(&self) -> Q { Q { n: Prim::big(*self), d: Big::one() } }
        fn holds(q: &Q) -> bool { q.whole() && fits::<$t>(&q.n) }
    }
)* } }
ints!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

macro_rules! floats { ($($t:ident $bits:literal)*) => { $(
    impl Comp for $t {
        const NAME: &'static str = stringify!($t);
        fn put(q: &Q) -> $t { q.n.to_f64() as $t }
        fn get(&self) -> Q {
            // Anything but a whole number in range is reported as an impossible value
            if self.fract() == 0.0 && self.abs() < 1e30 { Q { n: Big::from_i128(*self as i128), d: Big::one() } } else { Q::frac(1, 1_000_003) }
        }
        fn holds(q: &Q) -> bool { q.whole() && q.n.bits() <= $bits }
    }
)* } }
floats!(f32 24 f64 53);

impl Comp for BigInt {
    const NAME: &'static str = "BigInt";
    fn put(q: &Q) -> BigInt {
        bi::make(&q.n, 0)
    }
    fn get(&self) -> Q {
        Q { n: bi::observe(self).unwrap_or_else(|| Big::from_u128(0xbad_bad_bad)), d: Big::one() }
    }
    fn holds(q: &Q) -> bool {
        q.whole()
    }
}

fn put<T: Comp>(c: &C) -> Complex<T> {
    Complex::new(T::put(&c.0), T::put(&c.1))
}

fn holds<T: Comp>(c: &C) -> bool {
    T::holds(&c.0) && T::holds(&c.1)
}

fn judge<T: Comp>(m: &mut Mon, rule: &'static str, a: &C, b: &dyn Debug, want: &C, f: impl FnOnce() -> Complex<T>) {
    let input = || format!("Complex<{}> {rule} {a:?} {b:?}", T::NAME);
    let Some(got) = m.run(rule, input, f) else { return };
    let g = (got.real().get(), got.imag().get());
    m.check(rule, g == *want, || format!("{}: expected {want:?}, got {g:?}", input()));
    let same = m.run("equality", input, || (got == put::<T>(want), got != put::<T>(want)));
    m.check("equality", g != *want || same == Some((true, false)), || format!("{}: == {same:?} with its own value", input()));
}

/// All values a formula may go through are held
fn room<T: Comp>(vs: &[&C]) -> bool {
    vs.iter().all(|c| holds::<T>(c))
}

fn pair<T: Comp>(m: &mut Mon, a: &C, b: &C) {
    if !room::<T>(&[a, b]) {
        return;
    }
    m.seen(&(T::NAME, a, b));
    let x = || put::<T>(a);
    let y = || put::<T>(b);
    let s = madd(a, b);
    if room::<T>(&[&s]) {
        judge::<T>(m, "add", a, b, &s, || x() + y());
    }
    let s = msub(a, b);
    if room::<T>(&[&s]) {
        judge::<T>(m, "sub", a, b, &s, || x() - y());
    }
    let p = mmul(a, b);
    let parts = [(&a.0 * &b.0, &a.1 * &b.1), (&a.0 * &b.1, &a.1 * &b.0)];
    if room::<T>(&[&p, &parts[0], &parts[1]]) {
        m.count("products", 1);
        judge::<T>(m, "mul", a, b, &p, || x() * y());
    }
    if !norm(b).is_zero() {
        let q = mdiv(a, b);
        // Over integers only exact quotients are judged
        let squares = (&b.0 * &b.0, &b.1 * &b.1);
        let c = mmul(a, &(b.0.clone(), -b.1.clone()));
        if room::<T>(&[&q, &c, &parts[0], &parts[1], &squares, &(norm(b), norm(b))]) {
            m.count("quotients", 1);
            judge::<T>(m, "div", a, b, &q, || x() / y());
        }
    }
    // By a real number
    let k = (b.0.clone(), Q::int(0));
    let t = || T::put(&b.0);
    let s = madd(a, &k);
    if room::<T>(&[&s]) {
        judge::<T>(m, "add real", a, &b.0, &s, || x() + t());
    }
    let s = msub(a, &k);
    if room::<T>(&[&s]) {
        judge::<T>(m, "sub real", a, &b.0, &s, || x() - t());
    }
    let s = mmul(a, &k);
    if room::<T>(&[&s]) {
        judge::<T>(m, "mul real", a, &b.0, &s, || x() * t());
    }
    if !b.0.is_zero() {
        let s = mdiv(a, &k);
        if room::<T>(&[&s]) {
            judge::<T>(m, "div real", a, &b.0, &s, || x() / t());
        }
    }
    let eq = m.run("equality", || format!("{a:?} {b:?}"), || (x() == y(), x() != y()));
    m.check("equality", eq == Some((a == b, a != b)), || format!("Complex<{}> {a:?} == {b:?}: {eq:?}", T::NAME));
}

fn single<T: Comp>(m: &mut Mon, a: &C) {
    if !holds::<T>(a) {
        return;
    }
    let (z, o) = (Q::int(0), Q::int(1));
    judge::<T>(m, "new", a, &(), a, || put(a));
    judge::<T>(m, "clone", a, &(), a, || put::<T>(a).clone());
    judge::<T>(m, "from_real", a, &(), &(a.0.clone(), z.clone()), || Complex::from_real(T::put(&a.0)));
    judge::<T>(m, "from_imag", a, &(), &(z.clone(), a.1.clone()), || Complex::from_imag(T::put(&a.1)));
    judge::<T>(m, "zero", a, &(), &(z.clone(), z.clone()), Complex::zero);
    judge::<T>(m, "zero", a, &(), &(z.clone(), z.clone()), Complex::default);
    judge::<T>(m, "one", a, &(), &(o.clone(), z.clone()), Complex::one);
    let x = put::<T>(a);
    let got = m.run("is_zero, is_one", String::new, || (x.is_zero(), x.is_one()));
    let want = (a.0.is_zero() && a.1.is_zero(), a.0.is_one() && a.1.is_zero());
    m.check("is_zero, is_one", got == Some(want), || format!("Complex<{}> {a:?}: {got:?}", T::NAME));
}

fn size<T: Comp + Real>(m: &mut Mon, a: &C) {
    let n = norm(a);
    if !holds::<T>(a) || !T::holds(&n) {
        return;
    }
    let input = || format!("Complex<{}> abs {a:?}", T::NAME);
    let x = put::<T>(a);
    let got = m.run("abs_squared", input, || x.abs_squared().get());
    m.check("abs_squared", got.as_ref() == Some(&n), || format!("{}: squared {got:?}, expected {n:?}", input()));
    if let (Some(p), Some(q)) = (q::root(&n.n), q::root(&n.d)) {
        let want = Q { n: p, d: q };
        m.count("exact absolute values", 1);
        let got = m.run("abs", input, || x.abs().get());
        m.check("abs", got.as_ref() == Some(&want), || format!("{}: got {got:?}, expected {want:?}", input()));
    }
}

fn approx(m: &mut Mon, r: &mut Rng) {
    let mut f = || (r.irange(-1_000_000, 1_000_000) as f64) / (1u64 << r.below(30)) as f64;
    let (a, b, c, d) = (f(), f(), f(), f());
    let (x, y) = (Complex::new(a, b), Complex::new(c, d));
    let scale = (a.abs() + b.abs()) * (c.abs() + d.abs()) + 1e-30;
    let mut near = |m: &mut Mon, rule: &'static str, got: &Complex<f64>, want: (f64, f64), scale: f64| {
        let tol = 1e-12 * scale;
        let ok = (got.real() - want.0).abs() <= tol && (got.imag() - want.1).abs() <= tol;
        m.check(rule, ok, || format!("Complex<f64> {rule} ({a}, {b}) ({c}, {d}): expected {want:?}, got ({}, {})", got.real(), got.imag()));
    };
    near(m, "float mul", &(x.clone() * y.clone()), (a * c - b * d, a * d + b * c), scale);
    near(m, "float add", &(x.clone() + y.clone()), (a + c, b + d), a.abs() + b.abs() + c.abs() + d.abs());
    near(m, "float sub", &(x.clone() - y.clone()), (a - c, b - d), a.abs() + b.abs() + c.abs() + d.abs());
    let n = c * c + d * d;
    if n > 1e-6 {
        near(m, "float div", &(x.clone() / y.clone()), ((a * c + b * d) / n, (b * c - a * d) / n), scale / n);
    }
    if c.abs() > 1e-3 {
        near(m, "float div", &(x.clone() / c), (a / c, b / c), scale / c.abs());
    }
    let s = a.hypot(b);
    let got = x.abs();
    m.check("float abs", (got - s).abs() <= 1e-12 * s, || format!("Complex<f64> abs ({a}, {b}): expected {s}, got {got}"));
}

/// The operations that act on each component alone, over floats of any size, infinities and NaN: exactly
/// what the float operation gives (up to rounding for a scalar factor or divisor)
fn edges<F: Copy + Debug + PartialEq + Into<f64>>(m: &mut Mon, r: &mut Rng, pool: &[F])
where
    F: NumOps,
{
    let (a, b, c, d) = (*r.pick(pool), *r.pick(pool), *r.pick(pool), *r.pick(pool));
    let (x, y) = (Complex::new(a, b), Complex::new(c, d));
    let ty = std::any::type_name::<F>();
    let same = |g: F, w: F, loose: bool| {
        let (g, w): (f64, f64) = (g.into(), w.into());
        g == w || (g.is_nan() && w.is_nan()) || (loose && w.is_finite() && (g - w).abs() <= 1e-6 * w.abs() + 1e-40)
    };
    let judge = |m: &mut Mon, rule: &'static str, loose: bool, want: (F, F), f: &dyn Fn() -> Complex<F>| {
        let Some(got) = m.run(rule, || format!("Complex<{ty}> ({a:?}, {b:?}) ({c:?}, {d:?})"), f) else { return };
        let ok = same(*got.real(), want.0, loose) && same(*got.imag(), want.1, loose);
        m.check(rule, ok, || format!("Complex<{ty}> {rule} ({a:?}, {b:?}) ({c:?}, {d:?}): expected {want:?}, got ({:?}, {:?})", got.real(), got.imag()));
    };
    judge(m, "float edge add", false, (a + c, b + d), &|| x.clone() + y.clone());
    judge(m, "float edge sub", false, (a - c, b - d), &|| x.clone() - y.clone());
    judge(m, "float edge add scalar", false, (a + c, b), &|| x.clone() + c);
    judge(m, "float edge sub scalar", false, (a - c, b), &|| x.clone() - c);
    judge(m, "float edge mul scalar", true, (a * c, b * c), &|| x.clone() * c);
    judge(m, "float edge div scalar", true, (a / c, b / c), &|| x.clone() / c);
    let eq = m.run("float edge equality", || format!("{a:?} {b:?} {c:?} {d:?}"), || x == y);
    m.check("float edge equality", eq == Some(a == c && b == d), || format!("Complex<{ty}> ({a:?}, {b:?}) == ({c:?}, {d:?}): {eq:?}"));
}

fn value(m: &Mon, r: &mut Rng, kind: usize) -> C {
    let mut one = |r: &mut Rng| match kind {
        0 => q::wide(m, r),
        1 => Q::int(r.irange(-12, 12)),
        2 => Q::int(r.irange(0, 12)),
        3 => Q { n: short::<i128>(m, r, 16), d: Big::one() },
        4 => Q { n: short::<i128>(m, r, 50), d: Big::one() },
        _ => Q { n: short::<i128>(m, r, 5), d: Big::one() },
    };
    let (a, b) = (one(r), one(r));
    match r.below(8) {
        0 => (a, Q::int(0)),
        1 => (Q::int(0), b),
        2 => (a.clone(), a),
        _ => (a, b),
    }
}

fn all(m: &mut Mon, a: &C, b: &C) {
    macro_rules! go { ($($t:ident)*) => { $( pair::<$t>(m, a, b); single::<$t>(m, a); )* } }
    go!(Q i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64 BigInt);
    size::<Q>(m, a);
    size::<f64>(m, a);
    size::<f32>(m, a);
}

fn main() {
    run("C23", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        // All pairs of small Gaussian integers
        let mut i = 0;
        for a in -3..=3i64 {
            for b in -3..=3i64 {
                i += 1;
                if !m.mine(i) {
                    continue;
                }
                for c in -3..=3i64 {
                    for d in -3..=3i64 {
                        all(m, &(Q::int(a), Q::int(b)), &(Q::int(c), Q::int(d)));
                    }
                }
            }
        }
        while m.go() {
            let kind = r.below(6);
            let a = value(m, r, kind);
            let b = match r.below(6) {
                0 => a.clone(),
                1 => (a.0.clone(), -a.1.clone()),
                2 => (-a.1.clone(), a.0.clone()),
                _ => value(m, r, kind),
            };
            all(m, &a, &b);
            // Multiples, so that integer quotients are exact
            let p = mmul(&a, &b);
            all(m, &p, &b);
            if r.chance(1, 4) {
                // Pythagorean triples
                let (u, v) = (r.irange(0, 60), r.irange(0, 60));
                let k = q::q(r);
                let t = (Q::int(u * u - v * v) * &k, Q::int(2 * u * v) * &k);
                size::<Q>(m, &t);
                size::<f64>(m, &t);
                size::<f32>(m, &t);
            }
            for _ in 0..4 {
                approx(m, r);
                edges::<f64>(m, r, &[0.0, -0.0, 1.0, -1.0, 0.1, -3.5, 1e308, -1e308, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 9007199254740993.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
                edges::<f32>(m, r, &[0.0, -0.0, 1.0, -1.0, 0.1, -3.5, 1e38, -1e38, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 16777217.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN]);
            }
            m.sample(|| format!("{a:?} and {b:?} over every component type that holds them"));
        }
    });
}
