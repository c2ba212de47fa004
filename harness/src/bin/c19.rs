//! C19: numeric traits on primitives.
use monitors::{gen, run, Big, Mon, Rng};
use numeric_traits::class::{Bounded, BoundedBit, BoundedSigned, Numeric, Real, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedShl, CheckedShr, CheckedSub};
use numeric_traits::ops::overflowing::{OverflowingAdd, OverflowingMul, OverflowingSub};
use numeric_traits::ops::widening::WideningMul;
use numeric_traits::ops::wrapping::{WrappingAdd, WrappingMul, WrappingShl, WrappingShr, WrappingSub};
use numeric_traits::ops::{Factorial, Gcd, Pow, TrigOps};

const STRICT: bool = cfg!(debug_assertions);

trait Prim: Copy + std::fmt::Debug + std::hash::Hash + PartialEq + 'static {
    const BITS: usize;
    const SIGNED: bool;
    const NAME: &'static str;
    fn of(v: &Big) -> Self;
    fn big(self) -> Big;
}

/// The value the type holds after wrapping
fn wrap<T: Prim>(v: &Big) -> Big {
    if T::SIGNED {
        v.wrap_signed(T::BITS)
    } else {
        v.modp2(T::BITS)
    }
}

fn val<T: Prim>(m: &mut Mon, rule: &'static str, a: T, b: &dyn std::fmt::Debug, want: &Big, f: impl FnOnce() -> T) {
    let Some(got) = m.run(rule, || format!("{} {rule}({a:?}, {b:?})", T::NAME), f) else { return };
    m.check(rule, got.big() == *want, || format!("{} {rule}({a:?}, {b:?}): expected {}, got {got:?}", T::NAME, want.to_radix(10)));
}

fn opt<T: Prim>(m: &mut Mon, rule: &'static str, a: T, b: &dyn std::fmt::Debug, want: Option<&Big>, f: impl FnOnce() -> Option<T>) {
    let Some(got) = m.run(rule, || format!("{} {rule}({a:?}, {b:?})", T::NAME), f) else { return };
    let ok = got.map(|g| g.big()).as_ref() == want;
    m.check(rule, ok, || format!("{} {rule}({a:?}, {b:?}): expected {:?}, got {got:?}", T::NAME, want.map(|w| w.to_radix(10))));
}

fn fits<T: Prim>(v: &Big) -> Option<&Big> {
    (wrap::<T>(v) == *v).then_some(v)
}

trait IntOps:
    Prim + WrappingAdd<Output = Self> + WrappingSub<Output = Self> + WrappingMul<Output = Self> + WrappingShl<Output = Self> + WrappingShr<Output = Self>
    + CheckedAdd<Output = Self> + CheckedSub<Output = Self> + CheckedMul<Output = Self> + CheckedDiv<Output = Self>
    + CheckedShl<Output = Self> + CheckedShr<Output = Self> + CheckedShl<usize, Output = Self> + CheckedShr<usize, Output = Self>
    + OverflowingAdd<Output = Self> + OverflowingSub<Output = Self> + OverflowingMul<Output = Self>
    + Pow<Output = Self> + Gcd<Output = Self> + Bounded + BoundedBit + Zero + One
{
}

fn pair<T: IntOps>(m: &mut Mon, a: T, b: T) {
    let (x, y) = (a.big(), b.big());
    m.seen(&(T::NAME, a, b));
    let (sum, dif, pro) = (x.add(&y), x.sub(&y), x.mul(&y));
    if m.kind_slow() {
        m.count("pairs", 1);
    }
    m.event(499, || format!("wadd {} {} {} {} {}", T::BITS, if T::SIGNED { 's' } else { 'u' }, x.hex(), y.hex(), WrappingAdd::wrapping_add(a, b).big().hex()));
    val(m, "wrapping_add", a, &b, &wrap::<T>(&sum), || WrappingAdd::wrapping_add(a, b));
    val(m, "wrapping_sub", a, &b, &wrap::<T>(&dif), || WrappingSub::wrapping_sub(a, b));
    val(m, "wrapping_mul", a, &b, &wrap::<T>(&pro), || WrappingMul::wrapping_mul(a, b));
    opt(m, "checked_add", a, &b, fits::<T>(&sum), || CheckedAdd::checked_add(a, b));
    opt(m, "checked_sub", a, &b, fits::<T>(&dif), || CheckedSub::checked_sub(a, b));
    opt(m, "checked_mul", a, &b, fits::<T>(&pro), || CheckedMul::checked_mul(a, b));
    let quo = (!y.is_zero()).then(|| x.divrem(&y).0);
    opt(m, "checked_div", a, &b, quo.as_ref().and_then(|q| fits::<T>(q)), || CheckedDiv::checked_div(a, b));
    for (rule, e) in [("overflowing_add", &sum), ("overflowing_sub", &dif), ("overflowing_mul", &pro)] {
        let got = m.run(rule, || format!("{} {rule}({a:?}, {b:?})", T::NAME), || match rule {
            "overflowing_add" => OverflowingAdd::overflowing_add(a, b),
            "overflowing_sub" => OverflowingSub::overflowing_sub(a, b),
            _ => OverflowingMul::overflowing_mul(a, b),
        });
        if let Some((v, f)) = got {
            let w = wrap::<T>(e);
            m.check(rule, v.big() == w && f == (w != *e), || format!("{} {rule}({a:?}, {b:?}): got {v:?} {f}", T::NAME));
        }
    }
    let g = x.gcd(&y);
    if fits::<T>(&g).is_some() {
        val(m, "gcd", a, &b, &g, || Gcd::gcd(a, b));
    }
    // Shifts by an amount of the same type
    let k = y.modp2(T::BITS).low_bytes(1)[0] as usize % T::BITS;
    val(m, "wrapping_shl", a, &b, &wrap::<T>(&x.shl(k)), || WrappingShl::wrapping_shl(a, b));
    val(m, "wrapping_shr", a, &b, &x.div_floor(&Big::pow2(k)), || WrappingShr::wrapping_shr(a, b));
    let amount = if y < Big::from_u128(T::BITS as u128) && !y.neg { Some(k) } else { None };
    let (l, r) = (amount.map(|k| wrap::<T>(&x.shl(k))), amount.map(|k| x.div_floor(&Big::pow2(k))));
    opt(m, "checked_shl", a, &b, l.as_ref(), || CheckedShl::<T>::checked_shl(a, b));
    opt(m, "checked_shr", a, &b, r.as_ref(), || CheckedShr::<T>::checked_shr(a, b));
}

fn single<T: IntOps>(m: &mut Mon, a: T, k: usize) {
    let x = a.big();
    let amount = (k < T::BITS).then_some(k);
    let (l, r) = (amount.map(|k| wrap::<T>(&x.shl(k))), amount.map(|k| x.div_floor(&Big::pow2(k))));
    m.seen(&(T::NAME, a, k, 1));
    opt(m, "checked_shl by usize", a, &k, l.as_ref(), || CheckedShl::<usize>::checked_shl(a, k));
    opt(m, "checked_shr by usize", a, &k, r.as_ref(), || CheckedShr::<usize>::checked_shr(a, k));
    let raw = x.modp2(T::BITS);
    let trailing = (0..T::BITS).take_while(|i| !raw.bit(*i)).count();
    val(m, "leading_zeros", a, &(), &Big::from_u128((T::BITS - raw.bits()) as u128), || BoundedBit::leading_zeros(a));
    val(m, "trailing_zeros", a, &(), &Big::from_u128(trailing as u128), || BoundedBit::trailing_zeros(a));
    let got = m.run("identities", || format!("{} {a:?}", T::NAME), || (a.is_zero(), a.is_one(), T::zero().big(), T::one().big()));
    let want = (x.is_zero(), x == Big::one(), Big::zero(), Big::one());
    m.check("identities", got.as_ref() == Some(&want), || format!("{} {a:?}: {got:?}", T::NAME));
}

fn limits<T: IntOps>(m: &mut Mon) {
    let (lo, hi) = if T::SIGNED {
        (Big::pow2(T::BITS - 1).neg(), Big::pow2(T::BITS - 1).sub(&Big::one()))
    } else {
        (Big::zero(), Big::pow2(T::BITS).sub(&Big::one()))
    };
    let got = m.run("limits", || T::NAME.into(), || (<T as Bounded>::min_value().big(), <T as Bounded>::max_value().big()));
    m.check("limits", got == Some((lo, hi)), || format!("{}: {got:?}", T::NAME));
}

fn power<T: IntOps>(m: &mut Mon, a: T, e: T) {
    let (x, n) = (a.big(), e.big());
    if n.neg {
        return;
    }
    m.seen(&(T::NAME, "pow", a, e));
    // Exact if small enough, otherwise only the low bits by repeated squaring
    let fit = x.abs() <= Big::one() || n <= Big::from_u128(T::BITS as u128 + 1);
    let mut low = Big::one();
    for i in (0..n.bits()).rev() {
        low = low.mul(&low);
        if n.bit(i) {
            low = low.mul(&x);
        }
        low = wrap::<T>(&low);
    }
    let exact = if x.abs() <= Big::one() {
        Some(low.clone())
    } else if fit {
        Some(x.pow(n.to_u128().unwrap() as u64)).filter(|v| wrap::<T>(v) == *v)
    } else {
        None
    };
    if exact.is_some() {
        m.count("powers that fit", 1);
    }
    let got = m.attempt("pow", || Pow::pow(a, e)).map(|v| v.big());
    let ok = match (&got, &exact) {
        (Ok(g), Some(w)) => g == w,
        (Ok(g), None) => !STRICT && *g == low,
        (Err(_), None) => STRICT,
        (Err(_), Some(_)) => false,
    };
    m.check("pow", ok, || format!("{} {a:?} to the power {e:?}: expected {:?}, got {got:?}", T::NAME, exact.as_ref().map(|v| v.to_radix(10))));
}

/// The absolute value of the smallest value: refused, or wrapped in a build that wraps
fn no_abs<T: Copy + PartialEq + std::fmt::Debug>(m: &mut Mon, name: &str, a: T, f: impl FnOnce() -> T) {
    let got = m.attempt("abs", f);
    let ok = match &got {
        Ok(g) => !STRICT && *g == a,
        Err(_) => STRICT,
    };
    m.check("abs of the smallest value", ok, || format!("{name} {a:?}: {got:?}"));
}

fn signed<T: IntOps + Signed>(m: &mut Mon, a: T) {
    let x = a.big();
    let got = m.run("signs", || format!("{} {a:?}", T::NAME), || (a.is_positive(), a.is_negative()));
    m.check("signs", got == Some((!x.neg, x.neg)), || format!("{} {a:?} is_positive, is_negative: {got:?}", T::NAME));
    if fits::<T>(&x.abs()).is_some() {
        val(m, "abs", a, &(), &x.abs(), || Signed::abs(a));
    } else {
        no_abs(m, T::NAME, a, || Signed::abs(a));
    }
}

fn unsigned<T: IntOps + WideningMul + Factorial<Output = T>>(m: &mut Mon, a: T, b: T, c: T) {
    let e = a.big().mul(&b.big()).add(&c.big());
    m.seen(&(T::NAME, a, b, c));
    let got = m.run("widening_mul", || format!("{} {a:?} {b:?} {c:?}", T::NAME), || a.widening_mul(b, c));
    let want = (e.modp2(T::BITS), e.shr(T::BITS));
    m.check("widening_mul", got.map(|(l, h)| (l.big(), h.big())).as_ref() == Some(&want), || format!("{} {a:?} * {b:?} + {c:?}: {got:?}", T::NAME));
    let n = c.big().modp2(6).to_u128().unwrap();
    let e = (1..=n).fold(Big::one(), |p, i| p.mul(&Big::from_u128(i)));
    let arg = T::of(&Big::from_u128(n));
    let got = m.attempt("factorial", || arg.factorial()).map(|v| v.big());
    let fit = fits::<T>(&e).is_some();
    let ok = match &got {
        Ok(g) => *g == wrap::<T>(&e) && (fit || !STRICT),
        Err(_) => !fit && STRICT,
    };
    m.check("factorial", ok, || format!("{} {n}!: got {got:?}", T::NAME));
}

macro_rules! ints {
    ($($t:ident $s:literal)*) => {
        $(
            impl Prim for $t {
                const BITS: usize = $t::BITS as usize;
                const SIGNED: bool = $s;
                const NAME: &'static str = stringify!($t);
                fn of(v: &Big) -> Self {
                    let mut a = [0u8; 16];
                    a.copy_from_slice(&v.low_bytes(16));
                    u128::from_le_bytes(a) as $t
                }
                fn big(self) -> Big { if $s { Big::from_i128(self as i128) } else { Big::from_u128(self as u128) } }
            }
            impl IntOps for $t {}
        )*
    };
}
ints!(u8 false u16 false u32 false u64 false u128 false usize false i8 true i16 true i32 true i64 true i128 true isize true);

fn prim<T: Prim>(m: &Mon, r: &mut Rng) -> T {
    T::of(&Big::from_u128(gen::word(r, &m.dict, T::BITS as u32)))
}

fn related<T: Prim>(m: &Mon, r: &mut Rng, a: T) -> T {
    let x = a.big();
    let one = Big::one();
    let v = match r.below(12) {
        0 => x.clone(),
        1 => x.neg(),
        2 => x.add(&one),
        3 => x.sub(&one),
        4 => Big::pow2(T::BITS).sub(&x),
        5 => Big::pow2(T::BITS - 1).sub(&x),
        6 => Big::from_u128(r.below(2 * T::BITS) as u128),
        7 if !x.is_zero() => Big::pow2(T::BITS - usize::from(T::SIGNED)).divrem(&x).0.add(&Big::from_i128(r.irange(-1, 1) as i128)),
        8 => x.mul(&Big::from_u128(r.below(9) as u128)),
        _ => return prim(m, r),
    };
    T::of(&v.modp2(T::BITS))
}

fn random<T: IntOps>(m: &mut Mon, r: &mut Rng) {
    let a = prim::<T>(m, r);
    let b = related(m, r, a);
    pair(m, a, b);
    pair(m, b, a);
    let k = match r.below(6) {
        0 => r.u64() as usize,
        1 => (1usize << (usize::BITS / 2)) + r.below(T::BITS),
        2 => T::BITS + r.below(300),
        _ => r.below(T::BITS),
    };
    single(m, a, k);
    // Gcd with a large common factor
    let g = prim::<T>(m, r).big().shr(r.below(T::BITS));
    let (p, q) = (Big::from_u128(r.below(50) as u128), Big::from_u128(r.below(50) as u128));
    let (p, q) = (T::of(&g.mul(&p).modp2(T::BITS)), T::of(&g.mul(&q).modp2(T::BITS)));
    pair(m, p, q);
    // Powers
    let e = match r.below(4) {
        0 => prim::<T>(m, r),
        _ => T::of(&Big::from_u128(r.below(T::BITS + 2) as u128)),
    };
    let base = match r.below(4) {
        0 => a,
        1 => T::of(&Big::from_i128(r.irange(-1, 1) as i128).modp2(T::BITS)),
        _ => T::of(&Big::from_i128(r.irange(-20, 20) as i128).modp2(T::BITS)),
    };
    power(m, base, e);
    m.sample(|| format!("{} pair {a:?} {b:?}, shift {k}, {base:?}^{e:?}", T::NAME));
}

fn random_u<T: IntOps + WideningMul + Factorial<Output = T>>(m: &mut Mon, r: &mut Rng) {
    random::<T>(m, r);
    let a = prim::<T>(m, r);
    let b = if r.bool() { prim::<T>(m, r) } else { related(m, r, a) };
    let c = prim::<T>(m, r);
    unsigned(m, a, b, c);
}

fn random_s<T: IntOps + Signed>(m: &mut Mon, r: &mut Rng) {
    random::<T>(m, r);
    let a = prim::<T>(m, r);
    signed(m, a);
}

macro_rules! nonzero {
    ($m:expr, $r:expr, $($t:ident $nz:ident)*) => {$({
        let v = prim::<$t>($m, $r);
        if let Some(n) = std::num::$nz::new(v) {
            type N = std::num::$nz;
            let got = $m.run("non-zero", || format!("{} {v}", stringify!($nz)), || (n.is_one(), <N as One>::one().get(), <N as Bounded>::max_value().get(), <N as Bounded>::min_value().get()));
            let lo = if <$t>::MIN == 0 { 1 } else { <$t>::MIN };
            $m.check("non-zero", got == Some((v == 1, 1, <$t>::MAX, lo)), || format!("{} {v}: {got:?}", stringify!($nz)));
        }
    })*};
    (signed $m:expr, $r:expr, $($t:ident $nz:ident)*) => {$({
        let v = prim::<$t>($m, $r);
        if let (Some(n), true) = (std::num::$nz::new(v), v != <$t>::MIN) {
            type N = std::num::$nz;
            let got = $m.run("non-zero signed", || format!("{} {v}", stringify!($nz)), || {
                (Signed::is_positive(&n), Signed::is_negative(&n), Signed::abs(n).get(), <N as BoundedSigned>::min_positive().get(), <N as BoundedSigned>::max_negative().get())
            });
            $m.check("non-zero signed", got == Some((v > 0, v < 0, v.abs(), 1, -1)), || format!("{} {v}: {got:?}", stringify!($nz)));
        }
        no_abs($m, stringify!($nz), std::num::$nz::MIN, || Signed::abs(std::num::$nz::MIN));
    })*};
}

macro_rules! floats {
    ($name:ident, $f:ident, $u:ident, $tol:expr) => {
        fn $name(m: &mut Mon, r: &mut Rng) {
            let gen = |r: &mut Rng| -> $f {
                match r.below(8) {
                    0 => $f::from_bits(r.u64() as $u),
                    1 => r.irange(-40, 40) as $f / 4.0,
                    2 => r.irange(-5, 5) as $f,
                    3 => *r.pick(&[0.0, -0.0, $f::INFINITY, $f::NEG_INFINITY, $f::NAN, $f::MAX, $f::MIN, $f::MIN_POSITIVE, -$f::MIN_POSITIVE, 0.5, -0.5, 1.5, 2.5, -2.5, $f::EPSILON]),
                    4 => ($f::from_bits(r.u64() as $u) % 1e6),
                    _ => r.irange(-1_000_000, 1_000_000) as $f / (1 + r.below(1000)) as $f,
                }
            };
            let (a, b) = (gen(r), gen(r));
            m.seen(&(stringify!($f), a.to_bits(), b.to_bits()));
            let same = |x: $f, y: $f| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan());
            let near = |x: $f, y: $f| same(x, y) || (x - y).abs() <= $tol * y.abs().max($f::MIN_POSITIVE) || x == y;
            // The exact ones
            let got = m.run("float rounding", || format!("{a:?}"), || [Real::floor(a), Real::ceil(a), Real::round(a), Real::trunc(a), Real::fract(a), Signed::abs(a)]);
            let want = [<$f>::floor(a), <$f>::ceil(a), <$f>::round(a), <$f>::trunc(a), a - <$f>::trunc(a), <$f>::abs(a)];
            let ok = got.is_some_and(|g| g.iter().zip(&want).all(|(x, y)| same(*x, *y) || x == y));
            m.check("float rounding", ok, || format!("{} {a:?} floor, ceil, round, trunc, fract, abs: {got:?}", stringify!($f)));
            let got = m.run("float predicates", || format!("{a:?}"), || (Signed::is_positive(&a), Signed::is_negative(&a), a.is_zero(), a.is_one()));
            m.check("float predicates", got == Some((a >= 0.0, a < 0.0, a == 0.0, a == 1.0)), || format!("{} {a:?}: {got:?}", stringify!($f)));
            let got = m.run("float limits", || String::new(), || [<$f as Zero>::zero(), <$f as One>::one(), <$f as Bounded>::max_value(), <$f as Bounded>::min_value(), <$f as BoundedSigned>::min_positive(), <$f as BoundedSigned>::max_negative()]);
            m.check("float limits", got == Some([0.0, 1.0, $f::MAX, $f::MIN, $f::MIN_POSITIVE, -$f::MIN_POSITIVE]), || format!("{}: {got:?}", stringify!($f)));
            // The ones with rounding
            let got = m.run("float functions", || format!("{a:?} {b:?}"), || {
                [Pow::pow(a, b), Real::log(a, b), Real::sqrt(a), TrigOps::sin(a), TrigOps::cos(a), TrigOps::tan(a), TrigOps::csc(a), TrigOps::sec(a), TrigOps::cot(a)]
            });
            let want = [<$f>::powf(a, b), <$f>::log(a, b), <$f>::sqrt(a), <$f>::sin(a), <$f>::cos(a), <$f>::tan(a), 1.0 / <$f>::sin(a), 1.0 / <$f>::cos(a), 1.0 / <$f>::tan(a)];
            let ok = got.is_some_and(|g| g.iter().zip(&want).all(|(x, y)| near(*x, *y)));
            m.check("float functions", ok, || format!("{} {a:?} {b:?} pow, log, sqrt, sin, cos, tan, csc, sec, cot: expected {want:?}, got {got:?}", stringify!($f)));
            if a > 1e-6 && a < 1e6 {
                let n = r.range(1, 6) as $f;
                let got = m.run("float roots", || format!("{a:?} {n:?}"), || (Real::root(a, n), Real::cbrt(a)));
                let ok = got.is_some_and(|(x, c)| (x.powf(n) - a).abs() < a * 100.0 * $tol && (c * c * c - a).abs() < a * 100.0 * $tol);
                m.check("float roots", ok, || format!("{} {a:?} root {n:?} and cube root: {got:?}", stringify!($f)));
            }
        }
    };
}
floats!(float32, f32, u32, 1e-5);
floats!(float64, f64, u64, 1e-12);

/// A user's real number, with what every implementor of `Real` has to give and nothing else
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
struct Own(f64);

macro_rules! own_real {
    ($($f:ident)*) => {
        impl Real for Own {
            $( fn $f(self) -> Own { Own(f64::$f(self.0)) } )*
            fn log(self, base: Own) -> Own { Own(f64::log(self.0, base.0)) }
        }
    };
}

macro_rules! own {
    ($($op:ident $f:ident $o:tt)*) => { $(
        impl std::ops::$op for Own {
            type Output = Own;
            fn $f(self, rhs: Own) -> Own { Own(self.0 $o rhs.0) }
        }
    )* };
}
own!(Add add + Sub sub - Mul mul * Div div / Rem rem %);
own_real!(floor ceil round trunc fract);

impl Zero for Own {
    fn zero() -> Own { Own(0.0) }
    fn is_zero(&self) -> bool { self.0 == 0.0 }
}
impl One for Own {
    fn one() -> Own { Own(1.0) }
    fn is_one(&self) -> bool { self.0 == 1.0 }
}
impl Pow for Own {
    type Output = Own;
    fn pow(self, rhs: Own) -> Own { Own(f64::powf(self.0, rhs.0)) }
}
impl Numeric for Own {}

/// The roots `Real` provides by itself
fn own_roots(m: &mut Mon, r: &mut Rng) {
    let a = (1 + r.below(1_000_000)) as f64 / (1 + r.below(1000)) as f64;
    let n = r.range(1, 6) as f64;
    m.seen(&("own", a.to_bits(), n.to_bits()));
    let got = m.run("provided roots", || format!("{a:?} {n:?}"), || (Real::root(Own(a), Own(n)).0, Real::sqrt(Own(a)).0, Real::cbrt(Own(a)).0));
    let ok = got.is_some_and(|(x, s, c)| (x.powf(n) - a).abs() < a * 1e-9 && (s * s - a).abs() < a * 1e-9 && (c * c * c - a).abs() < a * 1e-9);
    m.check("provided roots", ok, || format!("{a:?} root {n:?}, square root and cube root of a user's type: {got:?}"));
}

fn main() {
    run("C19", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        for a in 0..256usize {
            if m.mine(a) && m.go_until(50) {
                for b in 0..256usize {
                    pair::<u8>(m, a as u8, b as u8);
                    pair::<i8>(m, a as u8 as i8, b as u8 as i8);
                    power::<u8>(m, a as u8, b as u8);
                    power::<i8>(m, a as u8 as i8, b as u8 as i8);
                    unsigned::<u8>(m, a as u8, b as u8, (a ^ b) as u8);
                    if b < 20 {
                        single::<u8>(m, a as u8, b);
                        single::<i8>(m, a as u8 as i8, b);
                    }
                }
                signed::<i8>(m, a as u8 as i8);
                m.count("8-bit rows done completely", 1);
            }
        }
        macro_rules! lim { ($($t:ident)*) => { $( limits::<$t>(m); )* } }
        lim!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        while m.go() {
            random_u::<u16>(m, r);
            random_u::<u32>(m, r);
            random_u::<u64>(m, r);
            random_u::<u128>(m, r);
            random_u::<usize>(m, r);
            random_s::<i16>(m, r);
            random_s::<i32>(m, r);
            random_s::<i64>(m, r);
            random_s::<i128>(m, r);
            random_s::<isize>(m, r);
            nonzero!(m, r, u8 NonZeroU8 u16 NonZeroU16 u32 NonZeroU32 u64 NonZeroU64 u128 NonZeroU128 usize NonZeroUsize i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 i128 NonZeroI128 isize NonZeroIsize);
            nonzero!(signed m, r, i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 i128 NonZeroI128 isize NonZeroIsize);
            float32(m, r);
            float64(m, r);
            own_roots(m, r);
        }
    });
}
