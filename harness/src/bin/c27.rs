//! C27: element access through matrices and views, in and out of range. The owner of the data is watched
//! after every access; under Miri and AddressSanitizer a stray access is reported by itself.
use monitors::{run, Mon, Rng};
use numeric_compounds::matrix::{DynMatrix, Matrix, MatrixMut, MatrixRef};
use std::cell::Cell;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;

/// Entries that can be told apart
trait Entry: Clone + PartialEq + Debug + 'static {
    const NAME: &'static str;
    fn nth(i: usize) -> Self;
}
impl Entry for u8 {
    const NAME: &'static str = "u8";
    fn nth(i: usize) -> u8 {
        i as u8
    }
}
impl Entry for u64 {
    const NAME: &'static str = "u64";
    fn nth(i: usize) -> u64 {
        (i as u64 + 1) * 0x1_0000_0001
    }
}
impl Entry for Box<u32> {
    const NAME: &'static str = "Box<u32>";
    fn nth(i: usize) -> Box<u32> {
        Box::new(i as u32)
    }
}
impl Entry for String {
    const NAME: &'static str = "String";
    fn nth(i: usize) -> String {
        format!("entry number {i} of the matrix")
    }
}
impl Entry for [u16; 3] {
    const NAME: &'static str = "[u16; 3]";
    fn nth(i: usize) -> [u16; 3] {
        [i as u16, !i as u16, 7]
    }
}
impl Entry for () {
    const NAME: &'static str = "()";
    fn nth(_: usize) {}
}

fn indices(r: &mut Rng, tiny: bool, rows: usize, cols: usize) -> (usize, usize) {
    // Panics are very slow to interpret
    let sides = if tiny { 200 } else { 12 };
    let mut pick = |n: usize, other: usize| match r.below(sides) {
        0 => n,
        1 => n.saturating_add(1 + r.below(3)),
        2 => usize::MAX - r.below(3),
        // Products that wrap around
        3 => (usize::MAX / other.max(1)).saturating_add(r.below(2)),
        4 => (1usize << (usize::BITS - 1)).wrapping_add(r.below(4)),
        5 => other,
        6 => n.wrapping_mul(other),
        _ => r.below(n.max(1)),
    };
    (pick(rows, cols), pick(cols, rows))
}

struct Case<'a, T> {
    what: &'a str,
    table: &'a [T],
    rows: usize,
    cols: usize,
}

impl<T: Entry> Case<'_, T> {
    fn inside(&self, i: (usize, usize)) -> Option<usize> {
        (i.0 < self.rows && i.1 < self.cols).then(|| i.0 * self.cols + i.1)
    }
    fn name(&self, i: (usize, usize)) -> String {
        format!("{}<{}> {}x{} at {i:?}", self.what, T::NAME, self.rows, self.cols)
    }
    fn read(&self, m: &mut Mon, i: (usize, usize), f: impl FnOnce() -> T) {
        let got = m.attempt("read", f);
        match self.inside(i) {
            Some(k) => {
                m.count("reads inside", 1);
                m.check("read inside", got.as_ref().ok() == Some(&self.table[k]), || format!("{}: got {got:?}, expected {:?}", self.name(i), self.table[k]));
            }
            None => {
                m.count("reads outside", 1);
                m.check("read outside is refused", got.is_err(), || format!("{}: returned {got:?}", self.name(i)));
            }
        }
    }
}

/// One matrix, static and dynamic, and views of both
fn shape<T: Entry, const R: usize, const C: usize>(m: &mut Mon, r: &mut Rng) {
    m.seen(&(T::NAME, R, C, r.u64()));
    let mut table: Vec<T> = (0..R * C).map(T::nth).collect();
    let mut st: Matrix<T, R, C> = Matrix::new(std::array::from_fn(|i| std::array::from_fn(|j| T::nth(i * C + j))));
    let mut dy: DynMatrix<T> = DynMatrix::new(table.clone(), R, C);
    let tiny = m.mode == "tiny";
    let steps = if tiny { 3 } else { 24 };
    let dims = m.run("dimensions", String::new, || (dy.rows(), dy.cols()));
    m.check("dimensions", dims == Some((R, C)), || format!("DynMatrix {R}x{C}: {dims:?}"));
    for step in 0..steps {
        if !m.alive() {
            return;
        }
        let i = indices(r, tiny, R, C);
        {
            let t = &table;
            let case = |what| Case { what, table: t, rows: R, cols: C };
            case("Matrix").read(m, i, || st[i].clone());
            case("DynMatrix").read(m, i, || dy[i].clone());
            let (a, b) = (MatrixRef::from(&st), MatrixRef::from(&dy));
            let (a2, b2) = (a, b.clone());
            case("MatrixRef of Matrix").read(m, i, || a[i].clone());
            case("MatrixRef of DynMatrix").read(m, i, || b[i].clone());
            // Copies, used while the owner is read as well
            let k = indices(r, tiny, R, C);
            case("copied MatrixRef").read(m, k, || a2[k].clone());
            case("copied MatrixRef").read(m, k, || b2[k].clone());
            if R > 0 && C > 0 {
                let k = (r.below(R), r.below(C));
                let ok = m.run("shared references", String::new, || {
                    let (p, q, s) = (&a[k], &a2[k], &st[k]);
                    let (u, v, w) = (&b[k], &b2[k], &dy[k]);
                    p == q && q == s && s == u && u == v && v == w
                });
                m.check("shared references", ok == Some(true), || format!("views of {R}x{C} disagree at {k:?}"));
            }
            case("MatrixMut of Matrix").read(m, i, || MatrixMut::from(&mut st)[i].clone());
            case("MatrixMut of DynMatrix").read(m, i, || MatrixMut::from(&mut dy)[i].clone());
        }
        // Writes
        let i = indices(r, tiny, R, C);
        let new = || T::nth(1000 + step);
        let inside = i.0 < R && i.1 < C;
        let via = r.below(3);
        let w1 = m.attempt("write", || match via {
            0 => st[i] = new(),
            1 => MatrixMut::from(&mut st)[i] = new(),
            _ => {
                let mut v = MatrixMut::from(&mut st);
                let e = &mut v[i];
                *e = new();
            }
        });
        let w2 = m.attempt("write", || match via {
            0 => dy[i] = new(),
            1 => MatrixMut::from(&mut dy)[i] = new(),
            _ => {
                let mut v = MatrixMut::from(&mut dy);
                let e = &mut v[i];
                *e = new();
            }
        });
        m.count(if inside { "writes inside" } else { "writes outside" }, 1);
        m.check(if inside { "write inside" } else { "write outside is refused" }, w1.is_ok() == inside && w2.is_ok() == inside, || {
            format!("{}<{}> {R}x{C} at {i:?}: static {w1:?}, dynamic {w2:?}", ["", "MatrixMut of ", "MatrixMut of "][via], T::NAME)
        });
        if inside {
            table[i.0 * C + i.1] = new();
        }
        // Row swaps, sometimes out of range: those are refused
        if r.chance(1, 3) {
            let (a, b) = (indices(r, tiny, R, C).0, indices(r, tiny, R, C).0);
            let ok = a < R && b < R;
            let s1 = m.attempt("swap_rows", || st.swap_rows(a, b));
            let s2 = m.attempt("swap_rows", || dy.swap_rows(a, b));
            m.check("swap_rows", ok == s1.is_ok() && ok == s2.is_ok(), || format!("swap_rows({a}, {b}) on {R}x{C}<{}>: {s1:?}, {s2:?}", T::NAME));
            if ok {
                for c in 0..C {
                    table.swap(a * C + c, b * C + c);
                }
            }
        }
        // Nothing else has changed
        let ok = m.run("other entries keep their values", || format!("{R}x{C}"), || {
            let same = (0..R).all(|a| (0..C).all(|b| st[(a, b)] == table[a * C + b] && dy[(a, b)] == table[a * C + b]));
            let v = MatrixRef::from(&st);
            let w = MatrixRef::from(&dy);
            same && (0..R).all(|a| (0..C).all(|b| v[(a, b)] == table[a * C + b] && w[(a, b)] == table[a * C + b]))
        });
        m.check("other entries keep their values", ok == Some(true), || format!("{R}x{C}<{}> after writing {i:?}: static {:?}, dynamic {:?}, expected {table:?}", T::NAME, st, dy));
    }
    m.sample(|| format!("{R}x{C} matrices of {} and views of them", T::NAME));
}

/// Mutable views of one matrix after another, several entries through one view
fn through<const R: usize, const C: usize>(m: &mut Mon, r: &mut Rng) {
    let mut st: Matrix<Box<u32>, R, C> = Matrix::new(std::array::from_fn(|i| std::array::from_fn(|j| Box::new((i * C + j) as u32))));
    let mut model: Vec<u32> = (0..(R * C) as u32).collect();
    let mut v = MatrixMut::from(&mut st);
    for _ in 0..8 {
        let (a, b) = ((r.below(R), r.below(C)), (r.below(R), r.below(C)));
        let ok = m.run("several accesses through a view", String::new, || {
            let x = *v[a];
            *v[b] += x;
            std::mem::swap(&mut v[a], &mut Box::new(x ^ 1));
            (x, *v[a], *v[b])
        });
        let (ka, kb) = (a.0 * C + a.1, b.0 * C + b.1);
        let x = model[ka];
        model[kb] = model[kb].wrapping_add(x);
        model[ka] = x ^ 1;
        m.check("several accesses through a view", ok == Some((x, model[ka], model[kb])), || format!("{R}x{C} view at {a:?}, {b:?}: {ok:?}"));
    }
    let got: Vec<u32> = (0..R * C).map(|k| *st[(k / C, k % C)]).collect();
    m.check("several accesses through a view", got == model, || format!("{R}x{C} after writes through a view: {got:?}, expected {model:?}"));
}

fn dynamic(m: &mut Mon, r: &mut Rng) {
    // Dimensions that do not fit the data
    let tiny = m.mode == "tiny";
    let side = if tiny { 6 } else { 70 };
    let (a, b) = (r.below(side), r.below(side));
    let n = if r.chance(1, 3) { a * b } else { r.below(20) };
    let (rows, cols) = match r.below(if n == a * b { 9 } else { 6 }) {
        0 => (r.below(30), r.below(30)),
        1 => (1usize << (usize::BITS / 2), 1usize << (usize::BITS / 2)),
        2 => (usize::MAX, r.below(3)),
        3 => (r.below(3), usize::MAX),
        4 => (1usize << r.below(usize::BITS as usize), 1usize << r.below(usize::BITS as usize)),
        5 => (n, 1),
        6 => (1, n),
        7 => (b, a),
        _ => (a, b),
    };
    let fits = rows.checked_mul(cols) == Some(n);
    let d = m.attempt("new", || DynMatrix::new((0..n as u64).collect::<Vec<_>>(), rows, cols));
    m.check("dimensions must fit the data", d.is_ok() == fits, || format!("DynMatrix::new({n} entries, {rows}, {cols}): {d:?}"));
    let Ok(d) = d else { return };
    let table: Vec<u64> = (0..n as u64).collect();
    let case = Case { what: "DynMatrix", table: &table, rows, cols };
    for _ in 0..4 {
        let i = indices(r, m.mode == "tiny", rows, cols.max(1));
        case.read(m, i, || d[i]);
        case.read(m, i, || MatrixRef::from(&d)[i]);
    }
}

/// Whether a type is Send (or Sync), found out without requiring it
trait No {
    const YES: bool = false;
}
struct IsSend<T: ?Sized>(PhantomData<T>);
struct IsSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> No for IsSend<T> {}
impl<T: ?Sized> No for IsSync<T> {}
impl<T: ?Sized + Send> IsSend<T> {
    const YES: bool = true;
}
impl<T: ?Sized + Sync> IsSync<T> {
    const YES: bool = true;
}

fn threads(m: &mut Mon) {
    // A shared view gives out shared references, a mutable one exclusive ones
    let bad = [
        ("MatrixRef of Cell is Send", <IsSend<MatrixRef<'static, Cell<u8>>>>::YES),
        ("MatrixRef of Cell is Sync", <IsSync<MatrixRef<'static, Cell<u8>>>>::YES),
        ("MatrixRef of Rc is Send", <IsSend<MatrixRef<'static, Rc<u8>>>>::YES),
        ("MatrixMut of Rc is Send", <IsSend<MatrixMut<'static, Rc<u8>>>>::YES),
        ("MatrixMut of Cell is Sync", <IsSync<MatrixMut<'static, Cell<u8>>>>::YES),
    ];
    let self_test = <IsSend<u8>>::YES && !<IsSend<Rc<u8>>>::YES && <IsSync<u8>>::YES && !<IsSync<Cell<u8>>>::YES;
    assert!(self_test, "probe");
    for (what, is) in bad {
        m.check("views of values that cannot be shared stay on their thread", !is, || what.to_string());
    }
}

fn main() {
    run("C27", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        threads(m);
        let tiny = m.mode == "tiny";
        while m.go() {
            macro_rules! all { ($($a:literal $b:literal,)*) => { $(
                if m.go() && (!tiny || r.chance(1, 5)) {
                    match r.below(6) {
                        0 => shape::<u8, $a, $b>(m, r),
                        1 => shape::<u64, $a, $b>(m, r),
                        2 => shape::<Box<u32>, $a, $b>(m, r),
                        3 => shape::<String, $a, $b>(m, r),
                        4 => shape::<[u16; 3], $a, $b>(m, r),
                        _ => shape::<(), $a, $b>(m, r),
                    }
                }
            )* } }
            all!(1 1, 1 2, 2 1, 2 2, 1 5, 5 1, 2 3, 3 2, 3 3, 4 2, 2 4, 3 5, 5 3, 4 4, 6 4, 4 6, 1 9, 7 1, 0 3, 3 0, 0 0,);
            if !tiny {
                match r.below(12) {
                    0 => shape::<u64, 10, 10>(m, r),
                    1 => shape::<Box<u32>, 8, 8>(m, r),
                    2 => shape::<u8, 16, 16>(m, r),
                    3 => shape::<u64, 1, 64>(m, r),
                    4 => shape::<u64, 64, 1>(m, r),
                    5 => shape::<u64, 33, 2>(m, r),
                    6 => shape::<u8, 2, 33>(m, r),
                    7 => shape::<u8, 1, 257>(m, r),
                    8 => shape::<u64, 257, 1>(m, r),
                    9 => shape::<u64, 17, 3>(m, r),
                    10 => shape::<[u16; 3], 3, 17>(m, r),
                    _ => shape::<u64, 128, 3>(m, r),
                }
            }
            through::<1, 2>(m, r);
            through::<3, 2>(m, r);
            through::<2, 5>(m, r);
            for _ in 0..(if tiny { 1 } else { 10 }) {
                dynamic(m, r);
            }
        }
    });
}
