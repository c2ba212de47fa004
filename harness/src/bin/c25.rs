//! C25: matrix arithmetic entry by entry, in every shape.
#[path = "../support/mat.rs"]
mod mat;
#[path = "../support/q.rs"]
mod q;
use mat::Tab;
use monitors::{run, Big, Mon, Rng};
use numeric_compounds::matrix::{DynMatrix, Matrix};
use numeric_compounds::vector::Vector;
use numeric_traits::class::Signed;
use numeric_traits::identity::{One, Zero};
use q::Q;
use std::fmt::Debug;
use std::ops::{Add, Mul, Sub};

trait Comp: Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Zero + One + Clone + PartialEq + Debug + Default + 'static {
    const NAME: &'static str;
    fn put(q: &Q) -> Self;
    fn get(&self) -> Q;
    fn holds(q: &Q) -> bool;
}

impl Comp for Q {
    const NAME: &'static str = "rational";
    fn put(q: &Q) -> Q {
        q.clone()
    }
    fn get(&self) -> Q {
        self.clone()
    }
    fn holds(_: &Q) -> bool {
        true
    }
}

macro_rules! ints { ($($t:ident $lo:expr;)*) => { $(
    impl Comp for $t {
        const NAME: &'static str = stringify!($t);
        fn put(q: &Q) -> $t { q.n.to_i128().unwrap() as $t }
        fn get(&self) -> Q { Q { n: Big::from_i128(*self as i128), d: Big::one() } }
        fn holds(q: &Q) -> bool { q.whole() && q.n.to_i128().is_some_and(|v| v >= $lo && v <= $t::MAX as i128) }
    }
)* } }
ints!(i16 -32768; i64 i64::MIN as i128; u8 0; u32 0;);

impl Comp for f64 {
    const NAME: &'static str = "f64";
    fn put(q: &Q) -> f64 {
        q.n.to_f64()
    }
    fn get(&self) -> Q {
        if self.fract() == 0.0 && self.abs() < 1e30 {
            Q { n: Big::from_i128(*self as i128), d: Big::one() }
        } else {
            Q::frac(1, 1_000_003)
        }
    }
    fn holds(q: &Q) -> bool {
        q.whole() && q.n.bits() <= 50
    }
}

#[inline(never)]
fn put<T: Comp, const R: usize, const C: usize>(t: &Tab) -> Matrix<T, R, C> {
    Matrix::new(std::array::from_fn(|i| std::array::from_fn(|j| T::put(&t[i][j]))))
}

#[inline(never)]
fn read<T: Comp, const R: usize, const C: usize>(x: &Matrix<T, R, C>) -> Tab {
    mat::table(R, C, |i, j| x[(i, j)].get())
}

#[inline(never)]
fn hold<T: Comp>(t: &Tab) -> bool {
    t.iter().flatten().all(T::holds)
}

#[inline(never)]
fn judge<T: Comp, const R: usize, const C: usize>(m: &mut Mon, rule: &'static str, a: &dyn Debug, b: &dyn Debug, want: &Tab, f: impl FnOnce() -> Matrix<T, R, C>) {
    let mut f = Some(f);
    let mut got = None;
    let same = hold::<T>(want);
    let ok = verdict(m, rule, &|| format!("Matrix<{}, {R}, {C}> {rule} {a:?} {b:?}", T::NAME), want, &mut || {
        let x = (f.take().unwrap())();
        let t = read(&x);
        got = Some(x);
        t
    });
    if let (true, Some(got)) = (same, got) {
        compare(m, &|| format!("Matrix<{}, {R}, {C}> {rule} {a:?} {b:?}", T::NAME), ok, want, &mut || got == put::<T, R, C>(want));
    }
}

// Not generic, so that they are compiled once
#[inline(never)]
fn verdict(m: &mut Mon, rule: &'static str, input: &dyn Fn() -> String, want: &Tab, f: &mut dyn FnMut() -> Tab) -> bool {
    let Some(g) = m.run(rule, input, f) else { return false };
    m.check(rule, g == *want, || format!("{}: expected {want:?}, got {g:?}", input()))
}

#[inline(never)]
fn compare(m: &mut Mon, input: &dyn Fn() -> String, ok: bool, want: &Tab, f: &mut dyn FnMut() -> bool) {
    let eq = m.run("equality", input, f);
    m.check("equality", eq == Some(ok), || format!("{}: comparison with {want:?} gives {eq:?}", input()));
}

#[inline(never)]
fn shape<T: Comp, const R: usize, const C: usize>(m: &mut Mon, r: &mut Rng, a: &Tab, b: &Tab) {
    if !hold::<T>(a) || !hold::<T>(b) {
        return;
    }
    m.seen(&(T::NAME, R, C, a, b));
    let x = || put::<T, R, C>(a);
    let y = || put::<T, R, C>(b);
    judge::<T, R, C>(m, "new", a, &(), a, x);
    judge::<T, R, C>(m, "clone", a, &(), a, || x().clone());
    let s = mat::add(a, b);
    if hold::<T>(&s) {
        judge::<T, R, C>(m, "add", a, b, &s, || x() + y());
    }
    let s = mat::sub(a, b);
    if hold::<T>(&s) {
        judge::<T, R, C>(m, "sub", a, b, &s, || x() - y());
    }
    judge::<T, C, R>(m, "transpose", a, &(), &mat::transpose(a), || x().transpose());
    judge::<T, R, C>(m, "transpose twice", a, &(), a, || x().transpose().transpose());
    judge::<T, R, C>(m, "from_rows", a, &(), a, || Matrix::from_rows(std::array::from_fn(|i| Vector::new(std::array::from_fn(|j| T::put(&a[i][j]))))));
    judge::<T, R, C>(m, "from_columns", a, &(), a, || Matrix::from_columns(std::array::from_fn(|j| Vector::new(std::array::from_fn(|i| T::put(&a[i][j]))))));
    let zero = mat::table(R, C, |_, _| Q::zero());
    judge::<T, R, C>(m, "zero", &(), &(), &zero, Matrix::zero);
    judge::<T, R, C>(m, "zero", &(), &(), &zero, Matrix::default);
    let one = mat::table(R, C, |i, j| Q::int(i64::from(i == j)));
    judge::<T, R, C>(m, "one", &(), &(), &one, Matrix::one);
    let eq = m.run("equality", || format!("{a:?} {b:?}"), || (x() == y(), x() != y()));
    m.check("equality", eq == Some((a == b, a != b)), || format!("Matrix<{}, {R}, {C}> {a:?} == {b:?}: {eq:?}", T::NAME));
    // Also for matrices that are almost zero or one
    let mut near = |m: &mut Mon, t: &Tab| {
        let got = m.run("is_zero, is_one", || format!("{t:?}"), || {
            let x = put::<T, R, C>(t);
            (x.is_zero(), x.is_one())
        });
        let want = (*t == zero, *t == one);
        m.check("is_zero, is_one", got == Some(want), || format!("Matrix<{}, {R}, {C}> {t:?}: {got:?}, expected {want:?}", T::NAME));
    };
    near(m, a);
    near(m, &zero);
    near(m, &one);
    if R > 0 && C > 0 {
        let (i, j) = (r.below(R), r.below(C));
        for base in [&zero, &one] {
            let mut t = base.clone();
            t[i][j] = Q::int(if t[i][j].is_zero() { 1 } else { 2 * r.below(2) as i64 });
            near(m, &t);
        }
        // Writes and row swaps touch nothing else
        let k = r.below(R);
        let mut want = a.clone();
        want[i][j] = b[k][j].clone();
        judge::<T, R, C>(m, "index write", a, &(i, j), &want, || {
            let mut z = x();
            z[(i, j)] = T::put(&b[k][j]);
            z
        });
        let mut want = a.clone();
        want.swap(i, k);
        judge::<T, R, C>(m, "swap_rows", a, &(i, k), &want, || {
            let mut z = x();
            z.swap_rows(i, k);
            z
        });
        dynamic::<T, R, C>(m, a, &want, i, j, k);
    }
}

/// The same table as a dynamic matrix
#[inline(never)]
fn dynamic<T: Comp, const R: usize, const C: usize>(m: &mut Mon, a: &Tab, swapped: &Tab, i: usize, j: usize, k: usize) {
    let flat = || a.iter().flatten().map(T::put).collect::<Vec<T>>();
    let arr = || -> [[T; C]; R] { std::array::from_fn(|i| std::array::from_fn(|j| T::put(&a[i][j]))) };
    let rd = |d: &DynMatrix<T>| mat::table(d.rows(), d.cols(), |i, j| d[(i, j)].get());
    let input = || format!("DynMatrix<{}> {R}x{C} {a:?}", T::NAME);
    let got = m.run("dynamic", input, || {
        let d = DynMatrix::new(flat(), R, C);
        let e = DynMatrix::from(arr());
        let mut s = d.clone();
        s.swap_rows(i, k);
        let mut w = e.clone();
        w[(i, j)] = T::put(&Q::int(7));
        let eq = d == e && (s == d) == (swapped == a) && (d == w) == (a[i][j] == Q::int(7));
        // The same entries in another shape are another matrix
        let mut shapes = true;
        for (rows, cols) in [(C, R), (1, R * C), (R * C, 1)] {
            let o = DynMatrix::new(flat(), rows, cols);
            let of = |x: usize, y: usize| &a[(x * cols + y) / C][(x * cols + y) % C];
            shapes &= (o == d) == ((rows, cols) == (R, C))
                && (o.rows(), o.cols()) == (rows, cols)
                && (0..rows).all(|x| (0..cols).all(|y| o[(x, y)].get() == *of(x, y)));
        }
        (rd(&d), rd(&e), rd(&s), rd(&w), eq && shapes)
    });
    let mut written = a.clone();
    written[i][j] = Q::int(7);
    let want = (a.clone(), a.clone(), swapped.clone(), written, true);
    m.check("dynamic", got.as_ref() == Some(&want), || format!("{} (new, from, swap_rows({i}, {k}), write ({i}, {j}), ==): expected {want:?}, got {got:?}", input()));
    let bad = m.attempt("dynamic", || DynMatrix::new(flat(), R + 1, C)).is_err() && m.attempt("dynamic", || DynMatrix::new(flat(), R, C + 1)).is_err();
    m.check("wrong dimensions refused", bad, || format!("{} made with other dimensions", input()));
}

#[inline(never)]
fn square<T: Comp, const N: usize>(m: &mut Mon, a: &Tab) {
    if !hold::<T>(a) {
        return;
    }
    let got = m.run("diag", || format!("{a:?}"), || {
        let d = put::<T, N, N>(a).diag();
        (0..N).map(|i| d[i].get()).collect::<Vec<_>>()
    });
    let want: Vec<Q> = (0..N).map(|i| a[i][i].clone()).collect();
    m.check("diag", got.as_ref() == Some(&want), || format!("Matrix<{}, {N}, {N}> {a:?} diag {got:?}", T::NAME));
}

#[inline(never)]
fn product<T: Comp, const R: usize, const K: usize, const C: usize>(m: &mut Mon, a: &Tab, b: &Tab) {
    let want = mat::mul(a, b);
    let abs = |t: &Tab| t.iter().map(|r| r.iter().map(|x| Signed::abs(x.clone())).collect()).collect::<Tab>();
    if !hold::<T>(a) || !hold::<T>(b) || !hold::<T>(&mat::mul(&abs(a), &abs(b))) {
        return;
    }
    m.count("products", 1);
    judge::<T, R, C>(m, "mul", a, b, &want, || put::<T, R, K>(a) * put::<T, K, C>(b));
    judge::<T, R, K>(m, "one is neutral", a, &(), a, || Matrix::<T, R, R>::one() * put::<T, R, K>(a));
    judge::<T, R, K>(m, "one is neutral", a, &(), a, || put::<T, R, K>(a) * Matrix::<T, K, K>::one());
    // (ab)' = b'a'
    judge::<T, C, R>(m, "transposed product", a, b, &mat::transpose(&want), || put::<T, K, C>(b).transpose() * put::<T, R, K>(a).transpose());
}

fn round<const R: usize, const K: usize, const C: usize>(m: &mut Mon, r: &mut Rng) {
    let mut gen = |rows, cols| {
        let mut t = mat::gen(m, r, rows, cols);
        if r.bool() {
            // Small whole numbers, held by every type
            let neg = r.bool();
            for x in t.iter_mut().flatten() {
                *x = Q::int(r.irange(if neg { -5 } else { 0 }, 7));
            }
        }
        t
    };
    let (a, b, c) = (gen(R, K), gen(R, K), gen(K, C));
    macro_rules! go { ($($t:ident)*) => { $( shape::<$t, R, K>(m, r, &a, &b); product::<$t, R, K, C>(m, &a, &c); )* } }
    go!(Q i64);
    let s = gen_square(m, r, C);
    macro_rules! sq { ($($t:ident)*) => { $( square::<$t, C>(m, &s); )* } }
    sq!(Q i64);
    // (ac)s = a(cs)
    let want = mat::mul(&mat::mul(&a, &c), &s);
    judge::<Q, R, C>(m, "triple product", &a, &(&c, &s), &want, || put::<Q, R, K>(&a) * put::<Q, K, C>(&c) * put::<Q, C, C>(&s));
    judge::<Q, R, C>(m, "triple product", &a, &(&c, &s), &want, || put::<Q, R, K>(&a) * (put::<Q, K, C>(&c) * put::<Q, C, C>(&s)));
    m.count(&format!("shape {R}x{K}x{C}"), 1);
    m.sample(|| format!("{R}x{K} {a:?} times {K}x{C} {c:?}"));
}

/// The other entry types, on fewer shapes
fn types<const R: usize, const K: usize, const C: usize>(m: &mut Mon, r: &mut Rng) {
    let mut gen = |rows, cols| {
        let mut t = mat::gen(m, r, rows, cols);
        let neg = r.bool();
        for x in t.iter_mut().flatten() {
            *x = Q::int(r.irange(if neg { -5 } else { 0 }, 7));
        }
        t
    };
    let (a, b, c, s) = (gen(R, K), gen(R, K), gen(K, C), gen(C, C));
    macro_rules! go { ($($t:ident)*) => { $( shape::<$t, R, K>(m, r, &a, &b); product::<$t, R, K, C>(m, &a, &c); square::<$t, C>(m, &s); )* } }
    go!(i16 u8 u32 f64);
}

fn wide<const R: usize, const K: usize, const C: usize>(m: &mut Mon, r: &mut Rng) {
    let mut gen = |rows, cols| mat::table(rows, cols, |_, _| Q::int(r.irange(-9, 9)));
    let (a, b, c, s) = (gen(R, K), gen(R, K), gen(K, C), gen(C, C));
    shape::<i64, R, K>(m, r, &a, &b);
    product::<i64, R, K, C>(m, &a, &c);
    square::<i64, C>(m, &s);
    m.count(&format!("shape {R}x{K}x{C}"), 1);
}

fn gen_square(m: &Mon, r: &mut Rng, n: usize) -> Tab {
    mat::gen(m, r, n, n)
}

fn main() {
    run("C25", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        while m.go() {
            types::<2, 2, 2>(m, r);
            types::<2, 3, 4>(m, r);
            types::<3, 1, 2>(m, r);
            macro_rules! all { ($($a:literal $b:literal $c:literal,)*) => { $( round::<$a, $b, $c>(m, r); )* } }
            all!(1 1 1, 1 2 1, 2 1 2, 1 3 4, 2 2 2, 2 3 2, 3 2 3, 2 3 4, 4 3 2, 3 3 3, 3 1 5, 5 1 3, 4 4 4, 2 5 3, 5 4 6, 4 6 1, 6 2 5, 5 5 5, 7 3 2, 2 7 4, 1 8 1, 8 1 8, 3 9 3, 2 17 3, 12 2 12, 33 1 2,);
            // Wider than any block or unrolled loop
            macro_rules! far { ($($k:literal: $a:literal $b:literal $c:literal,)*) => { match r.below(20) { $( $k => wide::<$a, $b, $c>(m, r), )* _ => {} } } }
            far!(0: 10 10 10, 1: 2 40 2, 2: 40 3 1, 3: 1 3 70, 4: 17 16 15, 5: 1 260 1, 6: 260 1 1, 7: 8 8 8, 8: 16 16 16, 9: 2 32 2, 10: 1 64 1, 11: 64 2 2, 12: 2 2 64, 13: 1 128 1, 14: 32 4 3, 15: 1 256 1,);
        }
    });
}
