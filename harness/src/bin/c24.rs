//! C24: vectors act component by component.
#[path = "../support/bi.rs"]
mod bi;
#[path = "../support/prim.rs"]
mod prim;
#[path = "../support/q.rs"]
mod q;
use monitors::mon::hash_of;
use monitors::{run, Big, Mon, Rng};
use numeric_compounds::vector::{Vec2, Vec3, Vec4, Vector};
use numeric_ints::BigInt;
use numeric_traits::class::{Bounded, Numeric, Real, RealSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::{CheckedAdd, CheckedSub};
use numeric_traits::ops::Pow;
use prim::*;
use q::Q;
use std::cell::RefCell;
use std::fmt::Debug;
use std::ops::*;

trait Comp: Numeric + Debug + Default + 'static {
    const NAME: &'static str;
    fn put(q: &Q) -> Self;
    fn get(&self) -> Q;
    fn holds(q: &Q) -> bool;
}

impl Comp for Q {
    const NAME: &'static str = "rational";
    fn put(q: &Q) -> Q {
        q.clone()
    }
    fn get(&self) -> Q {
        self.clone()
    }
    fn holds(_: &Q) -> bool {
        true
    }
}

macro_rules! ints { ($($t:ident)*) => { $(
    impl Comp for $t {
        const NAME: &'static str = stringify!($t);
        fn put(q: &Q) -> $t { <$t as Prim>::of(&q.n) }
        fn get(&self) -> Q { Q { n: Prim::big(*self), d: Big::one() } }
        fn holds(q: &Q) -> bool { q.whole() && fits::<$t>(&q.n) }
    }
)* } }
ints!(i8 i32 i64 i128 u8 u16 u64);

macro_rules! floats { ($($t:ident $bits:literal)*) => { $(
    impl Comp for $t {
        const NAME: &'static str = stringify!($t);
        fn put(q: &Q) -> $t { q.n.to_f64() as $t }
        fn get(&self) -> Q {
            if self.fract() == 0.0 && self.abs() < 1e30 { Q { n: Big::from_i128(*self as i128), d: Big::one() } } else { Q::frac(1, 1_000_003) }
        }
        fn holds(q: &Q) -> bool { q.whole() && q.n.bits() <= $bits }
    }
)* } }
floats!(f32 24 f64 53);

impl Comp for BigInt {
    const NAME: &'static str = "BigInt";
    fn put(q: &Q) -> BigInt {
        bi::make(&q.n, 0)
    }
    fn get(&self) -> Q {
        Q { n: bi::observe(self).unwrap_or_else(|| Big::from_u128(0xbad_bad_bad)), d: Big::one() }
    }
    fn holds(q: &Q) -> bool {
        q.whole()
    }
}

#[inline(never)]
fn put<T: Comp, const N: usize>(v: &[Q]) -> Vector<T, N> {
    Vector::new(std::array::from_fn(|i| T::put(&v[i])))
}

#[inline(never)]
fn read<T: Comp, const N: usize>(v: Vector<T, N>) -> Vec<Q> {
    let by_index: Vec<Q> = (0..N).map(|i| v[i].get()).collect();
    let arr: [T; N] = v.into();
    let by_array: Vec<Q> = arr.iter().map(T::get).collect();
    if by_index == by_array {
        by_array
    } else {
        vec![]
    }
}

#[inline(never)]
fn judge<T: Comp, const N: usize>(m: &mut Mon, rule: &'static str, a: &[Q], b: &dyn Debug, want: &[Q], f: impl FnOnce() -> Vector<T, N>) {
    let mut f = Some(f);
    verdict(m, rule, T::NAME, N, &a, b, want, &mut || read((f.take().unwrap())()));
}

// Not generic, so that it is compiled once
#[allow(clippy::too_many_arguments)]
#[inline(never)]
fn verdict(m: &mut Mon, rule: &'static str, name: &str, n: usize, a: &dyn Debug, b: &dyn Debug, want: &[Q], f: &mut dyn FnMut() -> Vec<Q>) {
    let input = || format!("Vector<{name}, {n}> {rule} {a:?} {b:?}");
    let Some(got) = m.run(rule, input, f) else { return };
    m.check(rule, got == want, || format!("{}: expected {want:?}, got {got:?}", input()));
}

#[inline(never)]
fn scalar<T: Comp>(m: &mut Mon, rule: &'static str, n: usize, a: &[Q], b: &[Q], want: &Q, f: impl FnOnce() -> T) {
    let mut f = Some(f);
    verdict(m, rule, T::NAME, n, &a, &b, std::slice::from_ref(want), &mut || vec![(f.take().unwrap())().get()]);
}

fn zip(a: &[Q], b: &[Q], f: impl Fn(&Q, &Q) -> Q) -> Vec<Q> {
    a.iter().zip(b).map(|(x, y)| f(x, y)).collect()
}

#[inline(never)]
fn hold<T: Comp>(v: &[Q]) -> bool {
    v.iter().all(T::holds)
}

/// Components as operators take them, by value and by reference, and in place
trait Full: Comp + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self> + for<'a> Rem<&'a Self, Output = Self>
    + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self> + for<'a> RemAssign<&'a Self> {}
impl<T> Full for T where T: Comp + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self> + for<'a> Rem<&'a Self, Output = Self>
    + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self> + for<'a> RemAssign<&'a Self> {}

#[inline(never)]
fn ops<T: Full, const N: usize>(m: &mut Mon, a: &[Q], b: &[Q]) {
    if !hold::<T>(a) || !hold::<T>(b) {
        return;
    }
    m.seen(&(T::NAME, N, a, b));
    let x = || put::<T, N>(a);
    let y = || put::<T, N>(b);
    let k = b.first().cloned().unwrap_or_default();
    let kk = vec![k.clone(); N];
    let t = || T::put(&k);
    macro_rules! op { ($($name:literal $op:tt $opa:tt $cond:expr;)*) => { $(
        let ok = |b: &[Q]| a.iter().zip(b).all(|(p, q)| $cond(p, q));
        if ok(b) {
            let want = zip(a, b, |p, q| p $op q);
            if hold::<T>(&want) {
                judge::<T, N>(m, concat!("v ", $name, " v"), a, &b, &want, || x() $op y());
                judge::<T, N>(m, concat!("v ", $name, " &v"), a, &b, &want, || x() $op &y());
                judge::<T, N>(m, concat!("v ", $name, "= v"), a, &b, &want, || { let mut z = x(); z $opa y(); z });
                judge::<T, N>(m, concat!("v ", $name, "= &v"), a, &b, &want, || { let mut z = x(); z $opa &y(); z });
            }
        }
        if ok(&kk) {
            let want = zip(a, &kk, |p, q| p $op q);
            if hold::<T>(&want) {
                judge::<T, N>(m, concat!("v ", $name, " s"), a, &k, &want, || x() $op t());
                judge::<T, N>(m, concat!("v ", $name, " &s"), a, &k, &want, || x() $op &t());
                judge::<T, N>(m, concat!("v ", $name, "= s"), a, &k, &want, || { let mut z = x(); z $opa t(); z });
                judge::<T, N>(m, concat!("v ", $name, "= &s"), a, &k, &want, || { let mut z = x(); z $opa &t(); z });
            }
        }
    )* } }
    // Over types without fractions only exact quotients; remainders are those of truncated division
    op!("+" + += |_: &Q, _: &Q| true; "-" - -= |_: &Q, _: &Q| true; "*" * *= |_: &Q, _: &Q| true; "/" / /= |_: &Q, q: &Q| !q.is_zero(); "%" % %= |p: &Q, q: &Q| !q.is_zero() && T::holds(&Real::trunc(p / q)););
    let eq = m.run("equality", || format!("{a:?} {b:?}"), || (x() == y(), x() != y(), x() == x().clone()));
    m.check("equality", eq == Some((a == b, a != b, true)), || format!("Vector<{}, {N}> {a:?} == {b:?}: {eq:?}", T::NAME));
}

#[inline(never)]
fn shape<T: Comp, const N: usize>(m: &mut Mon, r: &mut Rng, a: &[Q]) {
    if !hold::<T>(a) {
        return;
    }
    let x = || put::<T, N>(a);
    let zero = vec![Q::int(0); N];
    judge::<T, N>(m, "new", a, &(), a, x);
    judge::<T, N>(m, "from array", a, &(), a, || <[T; N]>::from(x()).into());
    judge::<T, N>(m, "clone", a, &(), a, || x().clone());
    judge::<T, N>(m, "zero", a, &(), &zero, Vector::zero);
    judge::<T, N>(m, "zero", a, &(), &zero, Vector::zeroed);
    judge::<T, N>(m, "zero", a, &(), &zero, Vector::default);
    let k = a.last().cloned().unwrap_or_default();
    judge::<T, N>(m, "from_scalar", a, &(), &vec![k.clone(); N], || Vector::from_scalar(T::put(&k)));
    let z = m.run("is_zero", || format!("{a:?}"), || x().is_zero());
    m.check("is_zero", z == Some(a.iter().all(Q::is_zero)), || format!("Vector<{}, {N}> {a:?} is_zero {z:?}", T::NAME));
    let row = m.run("into_row", || format!("{a:?}"), || {
        let w = x().into_row();
        (0..N).map(|i| w[(0, i)].get()).collect::<Vec<_>>()
    });
    m.check("into_row", row.as_deref() == Some(a), || format!("Vector<{}, {N}> {a:?} as a row: {row:?}", T::NAME));
    let col = m.run("into_column", || format!("{a:?}"), || {
        let w = x().into_column();
        (0..N).map(|i| w[(i, 0)].get()).collect::<Vec<_>>()
    });
    m.check("into_column", col.as_deref() == Some(a), || format!("Vector<{}, {N}> {a:?} as a column: {col:?}", T::NAME));
    // Writing one component changes that one only
    if N > 0 {
        let i = r.below(N);
        let mut want = a.to_vec();
        want[i] = k.clone();
        judge::<T, N>(m, "index write", a, &i, &want, || {
            let mut z = x();
            z[i] = T::put(&k);
            z
        });
    }
    let i = N + r.below(3);
    let p = m.attempt("index out of range", || x()[i].get()).is_err();
    m.check("index out of range", p, || format!("Vector<{}, {N}> index {i} returned a value", T::NAME));
}

#[inline(never)]
fn reals<T: Comp + Real, const N: usize>(m: &mut Mon, a: &[Q], b: &[Q]) {
    if !hold::<T>(a) || !hold::<T>(b) {
        return;
    }
    let x = || put::<T, N>(a);
    let y = || put::<T, N>(b);
    let total = |v: &[Q]| v.iter().fold(Q::int(0), |s, x| s + x);
    // All partial results, in any order of evaluation, are bounded by these
    let bound = |v: &[Q]| T::holds(&v.iter().fold(Q::int(0), |s, x| s + Signed::abs(x.clone())));
    if bound(a) {
        scalar::<T>(m, "sum", N, a, b, &total(a), || x().sum());
    }
    let max = a.iter().fold(Q::int(1), |s, x| if x.is_zero() { s } else { s * Signed::abs(x.clone()) });
    if T::holds(&max) {
        scalar::<T>(m, "product", N, a, b, &a.iter().fold(Q::int(1), |s, x| s * x), || x().product());
    }
    let p = zip(a, b, |x, y| x * y);
    if bound(&p) {
        scalar::<T>(m, "dot_product", N, a, b, &total(&p), || Vector::dot_product(x(), y()));
    }
    let d = zip(a, b, |x, y| &(x - y) * &(x - y));
    if bound(&d) {
        let want = total(&d);
        scalar::<T>(m, "distance_squared", N, a, b, &want, || Vector::distance_squared(x(), y()));
        if let (Some(n), Some(d)) = (q::root(&want.n), q::root(&want.d)) {
            m.count("exact distances", 1);
            scalar::<T>(m, "distance", N, a, b, &Q { n, d }, || Vector::distance(x(), y()));
        }
    }
}

#[inline(never)]
fn floats<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let a: [f64; N] = std::array::from_fn(|_| r.irange(-1_000_000, 1_000_000) as f64 / 4096.0);
    let b: [f64; N] = std::array::from_fn(|_| r.irange(-1_000_000, 1_000_000) as f64 / 4096.0);
    let want = (0..N).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum::<f64>().sqrt();
    let got = m.run("float distance", || format!("{a:?} {b:?}"), || Vector::distance(Vector::new(a), Vector::new(b)));
    m.check("float distance", got.is_some_and(|g| (g - want).abs() <= 1e-9 * want), || format!("Vector<f64, {N}> distance {a:?} {b:?}: expected {want}, got {got:?}"));
}

#[inline(never)]
fn cross<T: Comp>(m: &mut Mon, a: &[Q], b: &[Q]) {
    let p = |i: usize, j: usize| &a[i] * &b[j];
    let want = [&p(1, 2) - &p(2, 1), &p(2, 0) - &p(0, 2), &p(0, 1) - &p(1, 0)];
    let parts: Vec<Q> = (0..9).map(|i| p(i / 3, i % 3)).collect();
    if hold::<T>(a) && hold::<T>(b) && hold::<T>(&parts) && hold::<T>(&want) {
        judge::<T, 3>(m, "cross", a, &b, &want, || put::<T, 3>(a).cross(put(b)));
    }
}

#[inline(never)]
fn named<T: Comp>(m: &mut Mon, a: &[Q], b: &[Q]) {
    if !hold::<T>(a) || !hold::<T>(b) {
        return;
    }
    let v = |i: usize| T::put(&a[i]);
    let w = |i: usize| T::put(&b[i]);
    let with = |i: usize, n: usize| {
        let mut o = a[..n].to_vec();
        o[i] = b[i].clone();
        o
    };
    judge::<T, 2>(m, "from_xy", a, &(), &a[..2], || Vec2::from_xy(v(0), v(1)));
    judge::<T, 3>(m, "from_xyz", a, &(), &a[..3], || Vec3::from_xyz(v(0), v(1), v(2)));
    judge::<T, 4>(m, "from_xyzw", a, &(), &a[..4], || Vec4::from_xyzw(v(0), v(1), v(2), v(3)));
    macro_rules! acc { ($n:literal $($i:literal $get:ident $get_mut:ident $set:ident)*) => { $(
        let got = m.run("named component", String::new, || put::<T, $n>(a).$get().get());
        m.check("named component", got.as_ref() == Some(&a[$i]), || format!("Vector<{}, {}> {a:?}.{}() = {got:?}", T::NAME, $n, stringify!($get)));
        judge::<T, $n>(m, concat!("set ", stringify!($get)), a, &b[$i], &with($i, $n), || { let mut z = put::<T, $n>(a); z.$set(w($i)); z });
        judge::<T, $n>(m, concat!("set ", stringify!($get)), a, &b[$i], &with($i, $n), || { let mut z = put::<T, $n>(a); *z.$get_mut() = w($i); z });
    )* } }
    acc!(2 0 x x_mut set_x 1 y y_mut set_y);
    acc!(3 0 x x_mut set_x 1 y y_mut set_y 2 z z_mut set_z);
    acc!(4 0 x x_mut set_x 1 y y_mut set_y 2 z z_mut set_z 3 w w_mut set_w);
}

#[inline(never)]
fn checked<T: Comp + Prim + Bounded + CheckedAdd<Output = T> + CheckedSub<Output = T>, const N: usize>(m: &mut Mon, r: &mut Rng) {
    // Mostly in range, so that often exactly one component fails
    let (lo, hi) = limits::<T>();
    let mut a = vec![];
    let mut b = vec![];
    let bad = if r.bool() { r.below(N.max(1)) } else { N };
    let down = r.bool();
    for i in 0..N {
        if i == bad {
            let v = Big::from_i128(r.irange(0, 3).into());
            let w = Big::from_i128(r.irange(0, 4).into());
            a.push(Q { n: if down { lo.add(&v) } else { hi.sub(&v) }, d: Big::one() });
            b.push(Q { n: if T::SIGNED && r.bool() { w.neg() } else { w }, d: Big::one() });
        } else if r.chance(1, 40) {
            a.push(Q { n: number::<T>(m, r), d: Big::one() });
            b.push(Q { n: number::<T>(m, r), d: Big::one() });
        } else {
            let (v, w) = (short::<T>(m, r, T::BITS - 2), short::<T>(m, r, T::BITS - 3));
            a.push(Q { n: v.clone(), d: Big::one() });
            b.push(Q { n: if T::SIGNED || w <= v { w } else { Big::zero() }, d: Big::one() });
        }
    }
    let mut one = |rule: &'static str, want: Vec<Q>, f: &dyn Fn() -> Option<Vector<T, N>>| {
        let want = hold::<T>(&want).then_some(want);
        let input = || format!("Vector<{}, {N}> {rule} {a:?} {b:?}", <T as Comp>::NAME);
        let Some(got) = m.run(rule, input, || f().map(read)) else { return };
        m.count(if want.is_some() { "checked results" } else { "checked refusals" }, 1);
        m.check(rule, got == want, || format!("{}: expected {want:?}, got {got:?}", input()));
    };
    one("checked_add", zip(&a, &b, |x, y| x + y), &|| put::<T, N>(&a).checked_add(put(&b)));
    one("checked_sub", zip(&a, &b, |x, y| x - y), &|| put::<T, N>(&a).checked_sub(put(&b)));
    let h = m.run("hash", String::new, || (hash_of(&put::<T, N>(&a)), hash_of(&put::<T, N>(&a))));
    m.check("hash", h.is_some_and(|h| h.0 == h.1), || format!("equal vectors {a:?} hash differently"));
}

thread_local!(static LOG: RefCell<Vec<Q>> = const { RefCell::new(vec![]) });

/// A component that reports its value when dropped: the only way to see into a bivector
#[derive(Clone, PartialEq, PartialOrd)]
struct L(Q);

impl Drop for L {
    fn drop(&mut self) {
        LOG.with(|l| l.borrow_mut().push(self.0.clone()));
    }
}
macro_rules! lops { ($($t:ident $f:ident)*) => { $( impl $t for L { type Output = L; fn $f(self, o: L) -> L { L($t::$f(&self.0, &o.0)) } } )* } }
lops!(Add add Sub sub Mul mul Div div Rem rem);
impl Neg for L {
    type Output = L;
    fn neg(self) -> L {
        L(-self.0.clone())
    }
}
impl Zero for L {
    fn zero() -> L {
        L(Q::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl One for L {
    fn one() -> L {
        L(Q::one())
    }
    fn is_one(&self) -> bool {
        self.0.is_one()
    }
}
impl Pow for L {
    type Output = L;
    fn pow(self, o: L) -> L {
        L(self.0.clone().pow(o.0.clone()))
    }
}
impl Numeric for L {}
macro_rules! lreal { ($($f:ident)*) => { impl Real for L { $( fn $f(self) -> L { L(Real::$f(self.0.clone())) } )* fn log(self, _: L) -> L { panic!("component logarithm") } } } }
lreal!(floor ceil round trunc fract sqrt);
impl Signed for L {
    fn abs(self) -> L {
        L(Signed::abs(self.0.clone()))
    }
    fn is_positive(&self) -> bool {
        self.0.is_positive()
    }
    fn is_negative(&self) -> bool {
        self.0.is_negative()
    }
}
impl RealSigned for L {}

#[inline(never)]
fn wedge<const N: usize>(m: &mut Mon, a: &[Q], b: &[Q]) {
    let v = |a: &[Q]| Vector::<L, N>::new(std::array::from_fn(|i| L(a[i].clone())));
    let got = m.run("wedge", || format!("{a:?} {b:?}"), || {
        let w = Vector::wedge(v(a), v(b));
        LOG.with(|l| l.borrow_mut().clear());
        drop(w);
        LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
    });
    let Some(mut got) = got else { return };
    let mut want = vec![];
    for i in 0..N {
        for j in i + 1..N {
            want.push(&(&a[i] * &b[j]) - &(&a[j] * &b[i]));
        }
    }
    got.sort();
    want.sort();
    m.check("wedge", got == want, || format!("wedge of {a:?} and {b:?}: components {got:?}, expected {want:?}"));
}

fn gen(m: &Mon, r: &mut Rng, n: usize, kind: usize) -> Vec<Q> {
    let mut v: Vec<Q> = (0..n)
        .map(|_| match kind {
            0 => q::wide(m, r),
            1 => Q::int(r.irange(0, 12)),
            2 => Q::int(r.irange(-11, 11)),
            3 => Q::int(r.irange(-100_000, 100_000)),
            _ => Q { n: short::<i128>(m, r, 40), d: Big::one() },
        })
        .collect();
    if n > 0 && r.chance(1, 4) {
        let i = r.below(n);
        v[i] = Q::int(r.irange(0, 1));
    }
    if r.chance(1, 20) {
        v.iter_mut().for_each(|x| *x = Q::int(0));
        if n > 0 && r.bool() {
            let i = r.below(n);
            v[i] = Q::int(1);
        }
    }
    v
}

fn round<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let kind = r.below(5);
    let a = gen(m, r, N, kind);
    let mut b = match r.below(5) {
        0 => a.clone(),
        1 if N > 0 => {
            let mut b = a.clone();
            let i = r.below(N);
            b[i] = &b[i] + &Q::int(1);
            b
        }
        _ => gen(m, r, N, kind),
    };
    if kind != 0 && r.chance(1, 3) {
        // Divisors
        b = a.iter().map(|x| if r.bool() && !x.is_zero() { x.clone() } else { Q::int(1) }).collect();
    }
    macro_rules! go { ($($t:ident)*) => { $( ops::<$t, N>(m, &a, &b); shape::<$t, N>(m, r, &a); )* } }
    go!(Q i64 f64);
    macro_rules! re { ($($t:ident)*) => { $( reals::<$t, N>(m, &a, &b); )* } }
    re!(Q f32 f64);
    macro_rules! ch { ($($t:ident)*) => { $( checked::<$t, N>(m, r); )* } }
    ch!(i64 u8);
    floats::<N>(m, r);
    wedge::<N>(m, &a, &b);
    m.max("longest vector", N as u64);
    m.sample(|| format!("Vector<_, {N}> {a:?} with {b:?}"));
}

/// Components of any size, infinities and NaN: every form gives exactly what the float operation gives
fn edges<const N: usize>(m: &mut Mon, r: &mut Rng) {
    const POOL: [f64; 16] = [0.0, -0.0, 1.0, -1.0, 0.1, -3.5, 1e308, -1e308, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 9007199254740993.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
    let a: [f64; N] = std::array::from_fn(|_| *r.pick(&POOL));
    let b: [f64; N] = std::array::from_fn(|_| *r.pick(&POOL));
    let s = *r.pick(&POOL);
    let (x, y) = (Vector::new(a), Vector::new(b));
    fn same(g: f64, w: f64, sc: bool) -> bool {
        // A scalar factor or divisor may be applied through its inverse
        g == w || (g.is_nan() && w.is_nan()) || (sc && w.is_finite() && (g - w).abs() <= 1e-12 * w.abs() + 1e-307)
    }
    let judge = |m: &mut Mon, rule: &'static str, form: &str, loose: bool, f: &dyn Fn() -> Vector<f64, N>, w: &dyn Fn(usize) -> f64| {
        let input = || format!("Vector<f64, {N}> {form}: {a:?} with {b:?} or {s:?}");
        let Some(got) = m.run(rule, input, f) else { return };
        let bad = (0..N).find(|&i| !same(got[i], w(i), loose));
        m.check(rule, bad.is_none(), || format!("{}: component {bad:?} expected {:?}, got {:?}", input(), bad.map(w), bad.map(|i| got[i])));
    };
    macro_rules! forms { ($($rule:literal $op:tt $asg:tt $loose:literal)*) => { $(
        judge(m, $rule, "vector", false, &|| x.clone() $op y.clone(), &|i| a[i] $op b[i]);
        judge(m, $rule, "&vector", false, &|| x.clone() $op &y, &|i| a[i] $op b[i]);
        judge(m, $rule, "scalar", $loose, &|| x.clone() $op s, &|i| a[i] $op s);
        judge(m, $rule, "&scalar", $loose, &|| x.clone() $op &s, &|i| a[i] $op s);
        judge(m, $rule, "vector in place", false, &|| { let mut v = x.clone(); v $asg y.clone(); v }, &|i| a[i] $op b[i]);
        judge(m, $rule, "&vector in place", false, &|| { let mut v = x.clone(); v $asg &y; v }, &|i| a[i] $op b[i]);
        judge(m, $rule, "scalar in place", $loose, &|| { let mut v = x.clone(); v $asg s; v }, &|i| a[i] $op s);
        judge(m, $rule, "&scalar in place", $loose, &|| { let mut v = x.clone(); v $asg &s; v }, &|i| a[i] $op s);
    )* } }
    forms!("float edge add" + += false "float edge sub" - -= false "float edge mul" * *= true "float edge div" / /= true "float edge rem" % %= false);
    let eq = m.run("float edge equality", || format!("{a:?} {b:?}"), || x == y);
    m.check("float edge equality", eq == Some(a == b), || format!("Vector<f64, {N}> {a:?} == {b:?}: {eq:?}"));
    let z = m.run("float edge is_zero", || format!("{a:?}"), || x.is_zero());
    m.check("float edge is_zero", z == Some(a.iter().all(|v| *v == 0.0)), || format!("Vector<f64, {N}> {a:?} is zero: {z:?}"));
}

/// The other component types, on fewer lengths
fn types<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let kind = r.below(5);
    let (a, b) = (gen(m, r, N, kind), gen(m, r, N, kind));
    macro_rules! go { ($($t:ident)*) => { $( ops::<$t, N>(m, &a, &b); shape::<$t, N>(m, r, &a); )* } }
    go!(i8 i32 i128 u8 u16 u64 f32 BigInt);
    macro_rules! ch { ($($t:ident)*) => { $( checked::<$t, N>(m, r); )* } }
    ch!(i8 i32 i128 u16 u64);
}

/// Vectors long enough for any chunk, unrolled loop or narrow counter
fn long<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let kind = 1 + r.below(4);
    let a = gen(m, r, N, kind);
    let b = match r.below(4) {
        0 => a.clone(),
        1 => {
            let mut b = a.clone();
            let i = r.below(N);
            b[i] = &b[i] + &Q::int(1);
            b
        }
        2 => a.iter().map(|x| if r.bool() && !x.is_zero() { x.clone() } else { Q::int(1) }).collect(),
        _ => gen(m, r, N, kind),
    };
    ops::<i64, N>(m, &a, &b);
    shape::<i64, N>(m, r, &a);
    reals::<f64, N>(m, &a, &b);
    checked::<i64, N>(m, r);
    floats::<N>(m, r);
    m.count("long vectors", 1);
    m.max("longest vector", N as u64);
}

fn main() {
    run("C24", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        while m.go() {
            macro_rules! all { ($($n:literal)*) => { $( round::<$n>(m, r); )* } }
            all!(0 1 2 3 4 5 6 7 8 9 11 16 17);
            macro_rules! far { ($($k:literal: $n:literal,)*) => { match r.below(24) { $( $k => long::<$n>(m, r), )* _ => {} } } }
            far!(0: 10, 1: 12, 2: 13, 3: 14, 4: 15, 5: 20, 6: 24, 7: 31, 8: 32, 9: 33, 10: 34, 11: 48, 12: 63, 13: 64, 14: 65, 15: 67, 16: 100, 17: 127, 18: 128, 19: 255, 20: 256, 21: 257, 22: 300, 23: 512,);
            macro_rules! edge { ($($n:literal)*) => { $( edges::<$n>(m, r); )* } }
            edge!(0 1 2 3 4 5 8 9);
            types::<2>(m, r);
            types::<3>(m, r);
            types::<6>(m, r);
            let kind = r.below(5);
            let (a, b) = (gen(m, r, 4, kind), gen(m, r, 4, kind));
            macro_rules! go { ($($t:ident)*) => { $( cross::<$t>(m, &a[..3], &b[..3]); named::<$t>(m, &a, &b); )* } }
            go!(Q i8 i32 i64 i128 u8 u16 u64 f32 f64 BigInt);
            // Whole distances
            let (u, v) = (r.irange(0, 30), r.irange(0, 30));
            let t = [Q::int(u * u - v * v), Q::int(2 * u * v)];
            let o = [Q::int(0), Q::int(0)];
            reals::<Q, 2>(m, &t, &o);
            reals::<f64, 2>(m, &o, &t);
            reals::<f32, 2>(m, &t, &o);
        }
    });
}
