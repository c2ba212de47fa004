//! C26: elimination and determinants over exact rationals.
#[path = "../support/mat.rs"]
mod mat;
#[path = "../support/q.rs"]
mod q;
use mat::Tab;
use monitors::{run, Mon, Rng};
use numeric_compounds::matrix::{DynMatrix, Matrix};
use numeric_traits::class::Real;
use numeric_traits::identity::Zero;
use q::Q;

fn put<const R: usize, const C: usize>(t: &Tab) -> Matrix<Q, R, C> {
    Matrix::new(std::array::from_fn(|i| std::array::from_fn(|j| t[i][j].clone())))
}

fn reduced(m: &mut Mon, rule: &'static str, a: &Tab, got: Option<Tab>) {
    let Some(got) = got else { return };
    let (r, c) = (a.len(), a[0].len());
    m.check("result is in echelon form", mat::echelon(&got), || format!("{rule} of {r}x{c} {a:?}: {got:?}"));
    // Same row space, so the same solutions
    let (x, y) = (mat::rref(a), mat::rref(&got));
    m.check("result is equivalent", x == y && got.len() == r && got[0].len() == c, || format!("{rule} of {r}x{c} {a:?}: {got:?} reduces to {y:?}, expected {x:?}"));
}

fn eliminate<const R: usize, const C: usize>(m: &mut Mon, a: &Tab) {
    let input = || format!("row_reduce {R}x{C} {a:?}");
    let s = m.run("row_reduce", input, || {
        let x = put::<R, C>(a).row_reduce();
        mat::table(R, C, |i, j| x[(i, j)].clone())
    });
    reduced(m, "Matrix::row_reduce", a, s.clone());
    let d = m.run("dynamic row_reduce", input, || {
        let x = DynMatrix::new(a.iter().flatten().cloned().collect(), R, C).row_reduce();
        mat::table(x.rows(), x.cols(), |i, j| x[(i, j)].clone())
    });
    if d.is_some() && d != s {
        m.count("static and dynamic results differ", 1);
    }
    reduced(m, "DynMatrix::row_reduce", a, d);
    m.count(&format!("rank {} below full", R.min(C) - mat::rank(a)), 1);
}

fn determine<const N: usize>(m: &mut Mon, a: &Tab) -> Option<Q> {
    let want = if N <= 7 { mat::leibniz(a) } else { mat::product_of_pivots(a) };
    let got = m.run("determinant", || format!("determinant {N}x{N} {a:?}"), || put::<N, N>(a).determinant())?;
    m.check("determinant", got == want, || format!("determinant of {a:?}: expected {want:?}, got {got:?}"));
    m.count(if want.is_zero() { "singular matrices" } else { "regular matrices" }, 1);
    Some(got)
}

/// Laws that need no reference
fn laws<const N: usize>(m: &mut Mon, r: &mut Rng, a: &Tab) {
    let Some(d) = determine::<N>(m, a) else { return };
    let t = m.run("determinant laws", String::new, || put::<N, N>(a).transpose().determinant());
    m.check("determinant laws", t.as_ref() == Some(&d), || format!("determinant of {a:?} is {d:?}, of its transpose {t:?}"));
    if N > 1 {
        let (i, j) = (r.below(N), r.below(N));
        let mut x = a.clone();
        x.swap(i, j);
        let want = if i == j { d.clone() } else { -d.clone() };
        let s = m.run("determinant laws", String::new, || put::<N, N>(&x).determinant());
        m.check("determinant laws", s.as_ref() == Some(&want), || format!("determinant of {a:?} is {d:?}, with rows {i} and {j} swapped {s:?}"));
    }
    // Floats holding the same whole numbers, where elimination is exact enough
    if a.iter().flatten().all(|x| x.whole() && x.n.bits() <= 4) {
        let f = m.run("float determinant", String::new, || {
            Matrix::<f64, N, N>::new(std::array::from_fn(|i| std::array::from_fn(|j| a[i][j].n.to_f64()))).determinant()
        });
        let Some(f) = f else { return };
        let want = d.n.to_f64();
        // Badly conditioned small pivots are possible: only judged when the exact elimination stays small
        if small_elimination(a) {
            m.check("float determinant", (f - want).abs() <= 1e-3 * (1.0 + want.abs()), || format!("determinant of {a:?} in f64: {f}, expected {want}"));
        }
    }
}

/// Whether every number in the elimination is a small multiple of 1/8 (and so exact in f64)
fn small_elimination(a: &Tab) -> bool {
    let n = a.len();
    let mut t = a.clone();
    for c in 0..n {
        let Some(p) = (c..n).filter(|&r| !t[r][c].is_zero()).min_by(|&x, &y| t[x][c].cmp(&t[y][c])) else { return false };
        t.swap(c, p);
        for r in c + 1..n {
            let k = &t[r][c] / &t[c][c];
            if !Real::fract(&k * &Q::int(8)).is_zero() {
                return false;
            }
            for j in c..n {
                t[r][j] = &t[r][j] - &(&t[c][j] * &k);
                if !Real::fract(&t[r][j] * &Q::int(64)).is_zero() {
                    return false;
                }
            }
        }
    }
    true
}

fn rect<const R: usize, const C: usize>(m: &mut Mon, r: &mut Rng) {
    let a = mat::gen(m, r, R, C);
    m.seen(&a);
    eliminate::<R, C>(m, &a);
    m.sample(|| format!("{R}x{C} {a:?}"));
}

fn square<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let a = mat::gen(m, r, N, N);
    m.seen(&a);
    eliminate::<N, N>(m, &a);
    laws::<N>(m, r, &a);
    if N > 1 && r.chance(1, 3) {
        // det(ab) = det(a)det(b)
        let b = mat::gen(m, r, N, N);
        let p = mat::mul(&a, &b);
        let got = m.run("determinant laws", String::new, || (put::<N, N>(&a).determinant(), put::<N, N>(&b).determinant(), put::<N, N>(&p).determinant()));
        m.check("determinant laws", got.as_ref().is_some_and(|(x, y, z)| &(x * y) == z), || format!("determinants of {a:?}, {b:?} and their product: {got:?}"));
    }
    // Permutation matrices, scaled: one entry per row, so every pivot may need a swap
    let mut cols: Vec<usize> = (0..N).collect();
    for i in (1..N).rev() {
        cols.swap(i, r.below(i + 1));
    }
    let p = mat::table(N, N, |i, j| if cols[i] == j { Q::int(r.irange(1, 5) * if r.bool() { 1 } else { -1 }) } else { Q::int(0) });
    eliminate::<N, N>(m, &p);
    laws::<N>(m, r, &p);
}

/// Entries that keep the numbers of an elimination short: whole, mostly zero, rows repeated or scaled
fn sparse(r: &mut Rng, rows: usize, cols: usize) -> Tab {
    let dense = r.range(2, 6);
    let mut t = mat::table(rows, cols, |_, _| Q::int(if r.below(dense) == 0 { r.irange(-3, 3) } else { 0 }));
    if rows == cols && r.chance(3, 4) {
        // Mostly regular: something in every row and column
        let mut p: Vec<usize> = (0..cols).collect();
        for i in (1..cols).rev() {
            p.swap(i, r.below(i + 1));
        }
        for (i, row) in t.iter_mut().enumerate() {
            row[p[i]] = Q::int(r.irange(1, 4) * if r.bool() { 1 } else { -1 });
        }
    }
    if rows > 1 && r.chance(1, 4) {
        let (i, j) = (r.below(rows), r.below(rows));
        let k = Q::int(r.irange(-2, 2));
        t[i] = t[j].iter().map(|x| x * &k).collect();
    }
    t
}

fn flat<const R: usize, const C: usize>(m: &mut Mon, r: &mut Rng) {
    let a = sparse(r, R, C);
    m.seen(&a);
    eliminate::<R, C>(m, &a);
    m.count("large matrices", 1);
}

fn large<const R: usize, const C: usize>(m: &mut Mon, r: &mut Rng) {
    let a = sparse(r, R, C);
    m.seen(&a);
    eliminate::<R, C>(m, &a);
    // Square only
    if R == C {
        determine::<R>(m, &mat::table(R, R, |i, j| a[i][j].clone()));
    }
    m.count("large matrices", 1);
}

fn main() {
    run("C26", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        // All 2x2 and 3x3 matrices of small entries
        for i in 0..3usize.pow(9) {
            if !m.mine(i) || !m.go_until(60) {
                continue;
            }
            let mut k = i;
            let a = mat::table(3, 3, |_, _| {
                let d = k % 3;
                k /= 3;
                Q::int(d as i64 - 1)
            });
            m.seen(&a);
            eliminate::<3, 3>(m, &a);
            determine::<3>(m, &a);
            m.count("3x3 sign matrices", 1);
        }
        while m.go() {
            macro_rules! all { ($($a:literal $b:literal,)*; $($n:literal)*) => { $( rect::<$a, $b>(m, r); )* $( square::<$n>(m, r); )* } }
            all!(1 2, 2 1, 1 4, 4 1, 2 3, 3 2, 2 4, 4 2, 3 4, 4 3, 2 5, 5 2, 3 5, 5 3, 4 5, 5 4, 4 6, 6 4,; 1 2 3 4 5 2 3 4 3 4 6);
            match r.below(20) {
                7 => large::<8, 8>(m, r),
                8 => large::<9, 9>(m, r),
                9 => large::<10, 10>(m, r),
                10 => large::<12, 12>(m, r),
                11 => large::<16, 16>(m, r),
                12 => large::<17, 17>(m, r),
                13 => flat::<10, 17>(m, r),
                14 => flat::<17, 10>(m, r),
                15 => flat::<3, 64>(m, r),
                16 => flat::<64, 3>(m, r),
                17 => flat::<1, 130>(m, r),
                18 => flat::<130, 1>(m, r),
                0 => rect::<2, 9>(m, r),
                1 => rect::<9, 2>(m, r),
                2 => rect::<3, 12>(m, r),
                3 => rect::<8, 4>(m, r),
                4 => rect::<5, 8>(m, r),
                5 => rect::<20, 2>(m, r),
                6 => square::<7>(m, r),
                _ => {}
            }
        }
    });
}
