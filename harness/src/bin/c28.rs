//! C28: array iterators. Every element carries a number in a ledger of drops; closures fail, stop or panic
//! at every position, and afterwards every element must have been dropped exactly once.
use monitors::{run, Mon, Rng};
use numeric_compounds::matrix::{DynMatrix, Matrix};
use numeric_compounds::vector::Vector;
use numeric_static_iter::{codegen, zip_all, FromStaticIter, IntoStaticIter, StaticIter, StaticRangeTo};
use numeric_traits::identity::{One, Zero};
use std::cell::{Cell, RefCell};
use std::ops::{Add, ControlFlow, Mul, Sub};
use std::rc::Rc;

thread_local! {
    static LEDGER: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    static GARBAGE: Cell<u64> = const { Cell::new(0) };
    static CTL: RefCell<Option<Rc<Ctl>>> = const { RefCell::new(None) };
}

/// An element: numbered, and with memory of its own
#[derive(Debug)]
struct Tok {
    serial: usize,
    val: Box<u32>,
    check: usize,
}

impl Tok {
    fn new(v: u32) -> Tok {
        let serial = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.push(0);
            l.len() - 1
        });
        Tok { serial, val: Box::new(v), check: !serial }
    }
    fn get(&self) -> u32 {
        if self.check != !self.serial {
            GARBAGE.with(|g| g.set(g.get() + 1));
            return 0xBAD;
        }
        *self.val
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(self.get())
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.get() == o.get()
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            match l.get_mut(self.serial) {
                Some(n) if self.check == !self.serial => *n = n.saturating_add(1),
                _ => {
                    // Not an element at all: do not touch its memory
                    GARBAGE.with(|g| g.set(g.get() + 1));
                    std::mem::forget(std::mem::replace(&mut self.val, Box::new(0)));
                }
            }
            if l.get(self.serial).is_some_and(|n| *n > 1) && !cfg!(miri) {
                // Dropped twice: the memory is gone already
                std::mem::forget(std::mem::replace(&mut self.val, Box::new(0)));
            }
        });
    }
}

// Arithmetic for sum and product: reports to the current control, which may panic
macro_rules! arith { ($($t:ident $f:ident $w:ident)*) => { $(
    impl $t for Tok { type Output = Tok; fn $f(self, o: Tok) -> Tok { tick(o.get()); Tok::new(self.get().$w(o.get())) } }
    impl<'a> $t<&'a Tok> for Tok { type Output = Tok; fn $f(self, o: &'a Tok) -> Tok { tick(o.get()); Tok::new(self.get().$w(o.get())) } }
)* } }
arith!(Add add wrapping_add Sub sub wrapping_sub Mul mul wrapping_mul);
impl Zero for Tok {
    fn zero() -> Tok {
        Tok::new(0)
    }
    fn is_zero(&self) -> bool {
        self.get() == 0
    }
}
impl One for Tok {
    fn one() -> Tok {
        Tok::new(1)
    }
    fn is_one(&self) -> bool {
        self.get() == 1
    }
}

fn tick(v: u32) {
    let c = CTL.with(|c| c.borrow().clone());
    if let Some(c) = c {
        c.visit(v);
    }
}

/// What user closures do
struct Ctl {
    seen: RefCell<Vec<u32>>,
    at: usize,
    panic: bool,
}

impl Ctl {
    /// Whether this visit fails (or panics)
    fn visit(&self, v: u32) -> bool {
        self.seen.borrow_mut().push(v);
        if self.seen.borrow().len() == self.at + 1 {
            assert!(!self.panic, "injected");
            return true;
        }
        false
    }
    /// For closures that cannot fail
    fn look(&self, v: u32) {
        self.visit(v);
    }
}

const FAILED: u32 = u32::MAX;

fn arr<const N: usize>(base: u32) -> [Tok; N] {
    std::array::from_fn(|i| Tok::new(base + i as u32))
}

fn vals<const N: usize>(a: &[Tok; N]) -> Vec<u32> {
    a.iter().map(Tok::get).collect()
}

/// Expected results: everything, or what happens when position k fails
struct Want {
    visits: Vec<u32>,
    full: Vec<u32>,
    failed: Option<fn(usize) -> Vec<u32>>,
}

fn w(visits: Vec<u32>, full: Vec<u32>) -> Want {
    Want { visits, full, failed: None }
}

fn seq(base: u32, n: usize) -> Vec<u32> {
    (0..n as u32).map(|i| base + i).collect()
}

/// A collection of the harness: records the protocol it is driven with
struct Rec(Vec<(usize, Tok)>, bool);

impl<const N: usize> FromStaticIter<Tok, N> for Rec {
    type Uninit = Vec<(usize, Tok)>;
    type Break = Vec<(usize, Tok)>;
    fn uninit() -> Self::Uninit {
        vec![]
    }
    fn write(mut this: Self::Uninit, idx: usize, val: Tok) -> ControlFlow<Self::Break, Self::Uninit> {
        let v = val.get();
        this.push((idx, val));
        let c = CTL.with(|c| c.borrow().clone()).unwrap();
        if c.visit(v) {
            ControlFlow::Break(this)
        } else {
            ControlFlow::Continue(this)
        }
    }
    unsafe fn finish(this: ControlFlow<Self::Break, Self::Uninit>) -> Self {
        match this {
            ControlFlow::Break(v) => Rec(v, true),
            ControlFlow::Continue(v) => Rec(v, false),
        }
    }
}

/// An iterator of the harness: its safety contract is that it is asked for 0, 1, 2, ... once each
struct Src<const N: usize> {
    next: usize,
    bad: Rc<Cell<u64>>,
}

impl<const N: usize> StaticIter<N> for Src<N> {
    type Item = Tok;
    unsafe fn idx(&mut self, idx: usize) -> Tok {
        if idx != self.next || idx >= N {
            self.bad.set(self.bad.get() + 1);
        }
        self.next = idx + 1;
        Tok::new(10 + idx as u32)
    }
}

fn rec_vals(r: &Rec) -> Vec<u32> {
    let mut out: Vec<u32> = r.0.iter().flat_map(|(i, t)| [*i as u32, t.get()]).collect();
    if r.1 {
        out.push(FAILED);
    }
    out
}

type Scenario = (&'static str, fn(&Ctl) -> Vec<u32>, Want);

fn scenarios<const N: usize>() -> Vec<Scenario> {
    let a = || seq(10, N);
    let b = || seq(50, N);
    let zipped = move || a().into_iter().zip(b()).map(|(x, y)| x * 1000 + y).collect::<Vec<_>>();
    let mut out: Vec<Scenario> = vec![];
    out.push(("map, collect", |c| vals(&arr::<N>(10).into_static_iter().map(|t| { c.look(t.get()); t }).collect::<[Tok; N]>()), w(a(), a())));
    out.push(("map to new, collect", |c| vals(&arr::<N>(10).into_static_iter().map(|t| { c.look(t.get()); Tok::new(t.get() + 1) }).collect::<[Tok; N]>()), w(a(), seq(11, N))));
    out.push(("map twice, collect", |c| vals(&arr::<N>(10).into_static_iter().map(|t| Tok::new(t.get() * 2)).map(|t| { c.look(t.get() / 2); t }).collect::<[Tok; N]>()), w(a(), a().iter().map(|x| 2 * x).collect())));
    out.push(("zip, map, collect", |c| vals(&arr::<N>(10).into_static_iter().zip(arr::<N>(50)).map(|(x, y)| { c.look(x.get()); Tok::new(x.get() * 1000 + y.get()) }).collect::<[Tok; N]>()), w(a(), zipped())));
    out.push(("zip with mapped, collect", |c| {
        let r = arr::<N>(10).into_static_iter().zip(arr::<N>(50).into_static_iter().map(|t| { c.look(t.get()); t })).collect::<[(Tok, Tok); N]>();
        r.iter().map(|(x, y)| x.get() * 1000 + y.get()).collect()
    }, w(b(), zipped())));
    out.push(("mapped zip with array, collect", |c| {
        let r = arr::<N>(10).into_static_iter().map(|t| { c.look(t.get()); t }).zip(arr::<N>(50)).collect::<[(Tok, Tok); N]>();
        r.iter().map(|(x, y)| x.get() * 1000 + y.get()).collect()
    }, w(a(), zipped())));
    out.push(("zip of references, collect", |c| {
        let (x, y) = (arr::<N>(10), arr::<N>(50));
        let r = (&x).into_static_iter().zip(&y).map(|(p, q)| { c.look(p.get()); Tok::new(p.get() * 1000 + q.get()) }).collect::<[Tok; N]>();
        assert!(vals(&x).len() + vals(&y).len() == 2 * N);
        vals(&r)
    }, w(a(), zipped())));
    out.push(("enumerate, map, collect", |c| {
        let r = arr::<N>(10).into_static_iter().enumerate().map(|(i, t)| { c.look(t.get()); (i, t) }).collect::<[(usize, Tok); N]>();
        r.iter().map(|(i, t)| *i as u32 * 1000 + t.get()).collect()
    }, w(a(), (0..N as u32).map(|i| i * 1000 + 10 + i).collect())));
    out.push(("enumerate references", |c| {
        let x = arr::<N>(10);
        let r = (&x).into_static_iter().enumerate().map(|(i, t)| { c.look(t.get()); (i, t) }).collect::<[(usize, &Tok); N]>();
        r.iter().map(|(i, t)| *i as u32 * 1000 + t.get()).collect()
    }, w(a(), (0..N as u32).map(|i| i * 1000 + 10 + i).collect())));
    out.push(("range", |c| {
        let r = StaticRangeTo::<N>.into_static_iter().map(|i| { c.look(i as u32); Tok::new(i as u32) }).collect::<[Tok; N]>();
        vals(&r)
    }, w(seq(0, N), seq(0, N))));
    out.push(("fold", |c| {
        arr::<N>(10).into_static_iter().fold(vec![], |mut v, t| { c.look(t.get()); v.push(t); v }).iter().map(Tok::get).collect()
    }, w(a(), a())));
    // An element is made when its turn comes, not before
    let turns = move || (0..N as u32).flat_map(|i| [10 + i, 1010 + i]).collect::<Vec<_>>();
    out.push(("fold of mapped", |c| {
        arr::<N>(10).into_static_iter().map(|t| { c.look(t.get()); t }).fold(vec![], |mut v, t| { c.look(1000 + t.get()); v.push(t); v }).iter().map(Tok::get).collect()
    }, w(turns(), a())));
    out.push(("map of mapped, collect", |c| {
        vals(&arr::<N>(10).into_static_iter().map(|t| { c.look(t.get()); t }).map(|t| { c.look(1000 + t.get()); t }).collect::<[Tok; N]>())
    }, w(turns(), a())));
    out.push(("try_fold of mapped", |c| {
        let r = arr::<N>(10).into_static_iter().map(|t| { c.look(t.get()); t }).try_fold(vec![], |mut v: Vec<Tok>, t| { c.look(1000 + t.get()); v.push(t); Ok::<_, ()>(v) });
        r.map_or(vec![FAILED], |v| v.iter().map(Tok::get).collect())
    }, w(turns(), a())));
    out.push(("try_fold", |c| {
        let r = arr::<N>(10).into_static_iter().try_fold(vec![], |mut v: Vec<Tok>, t| if c.visit(t.get()) { Err((t, v)) } else { v.push(t); Ok(v) });
        match r {
            Ok(v) => v.iter().map(Tok::get).collect(),
            Err((t, v)) => v.iter().map(Tok::get).chain([FAILED, t.get()]).collect(),
        }
    }, Want { visits: a(), full: a(), failed: Some(|k| seq(10, k).into_iter().chain([FAILED, 10 + k as u32]).collect()) }));
    out.push(("try_fold over zip", |c| {
        let r = arr::<N>(10).into_static_iter().zip(arr::<N>(50)).try_fold(0, |n, (x, y)| if c.visit(x.get()) { Err(y) } else { Ok(n + 1) });
        match r {
            Ok(n) => vec![n],
            Err(y) => vec![FAILED, y.get()],
        }
    }, Want { visits: a(), full: vec![N as u32], failed: Some(|k| vec![FAILED, 50 + k as u32]) }));
    out.push(("any", |c| vec![u32::from(arr::<N>(10).into_static_iter().any(|t| c.visit(t.get())))], Want { visits: a(), full: vec![0], failed: Some(|_| vec![1]) }));
    out.push(("all", |c| vec![u32::from(arr::<N>(10).into_static_iter().all(|t| !c.visit(t.get())))], Want { visits: a(), full: vec![1], failed: Some(|_| vec![0]) }));
    out.push(("any of references", |c| {
        let x = arr::<N>(10);
        let r = (&x).into_static_iter().any(|t| c.visit(t.get()));
        vec![u32::from(r), vals(&x).iter().sum()]
    }, Want { visits: a(), full: vec![0, a().iter().sum()], failed: Some(|_| vec![1, seq(10, N).iter().sum()]) }));
    out.push(("collect Option", |c| {
        let r: Option<[Tok; N]> = arr::<N>(10).into_static_iter().map(|t| if c.visit(t.get()) { None } else { Some(t) }).collect();
        r.map_or(vec![FAILED], |r| vals(&r))
    }, Want { visits: a(), full: a(), failed: Some(|_| vec![FAILED]) }));
    out.push(("collect Result", |c| {
        let r: Result<[Tok; N], Tok> = arr::<N>(10).into_static_iter().map(|t| if c.visit(t.get()) { Err(t) } else { Ok(t) }).collect();
        match r {
            Ok(r) => vals(&r),
            Err(t) => vec![FAILED, t.get()],
        }
    }, Want { visits: a(), full: a(), failed: Some(|k| vec![FAILED, 10 + k as u32]) }));
    out.push(("collect Option of Option, inner fails", |c| {
        let r: Option<Option<[Tok; N]>> = arr::<N>(10).into_static_iter().map(|t| Some(if c.visit(t.get()) { None } else { Some(t) })).collect();
        r.map_or(vec![FAILED, FAILED], |r| r.map_or(vec![FAILED], |r| vals(&r)))
    }, Want { visits: a(), full: a(), failed: Some(|_| vec![FAILED]) }));
    out.push(("collect Option of Option, outer fails", |c| {
        let r: Option<Option<[Tok; N]>> = arr::<N>(10).into_static_iter().map(|t| if c.visit(t.get()) { None } else { Some(Some(t)) }).collect();
        r.map_or(vec![FAILED, FAILED], |r| r.map_or(vec![FAILED], |r| vals(&r)))
    }, Want { visits: a(), full: a(), failed: Some(|_| vec![FAILED, FAILED]) }));
    out.push(("collect Result of Option", |c| {
        let r: Result<Option<[Tok; N]>, Tok> = arr::<N>(10).into_static_iter().map(|t| Ok::<_, Tok>(if c.visit(t.get()) { None } else { Some(t) })).collect();
        match r {
            Ok(Some(r)) => vals(&r),
            Ok(None) => vec![FAILED],
            Err(t) => vec![FAILED, FAILED, t.get()],
        }
    }, Want { visits: a(), full: a(), failed: Some(|_| vec![FAILED]) }));
    out.push(("collect Option of Result", |c| {
        let r: Option<Result<[Tok; N], Tok>> = arr::<N>(10).into_static_iter().map(|t| Some(if c.visit(t.get()) { Err(t) } else { Ok(t) })).collect();
        match r {
            Some(Ok(r)) => vals(&r),
            Some(Err(t)) => vec![FAILED, t.get()],
            None => vec![FAILED, FAILED, FAILED],
        }
    }, Want { visits: a(), full: a(), failed: Some(|k| vec![FAILED, 10 + k as u32]) }));
    out.push(("collect into a user collection", |c| {
        let _ = c;
        rec_vals(&arr::<N>(10).into_static_iter().collect::<Rec>())
    }, Want { visits: a(), full: (0..N as u32).flat_map(|i| [i, 10 + i]).collect(), failed: Some(|k| (0..=k as u32).flat_map(|i| [i, 10 + i]).chain([FAILED]).collect()) }));
    out.push(("collect Option into a user collection", |c| {
        let _ = c;
        let r: Option<Rec> = arr::<N>(10).into_static_iter().map(Some).collect();
        r.map_or(vec![FAILED; 3], |r| rec_vals(&r))
    }, Want { visits: a(), full: (0..N as u32).flat_map(|i| [i, 10 + i]).collect(), failed: Some(|k| (0..=k as u32).flat_map(|i| [i, 10 + i]).chain([FAILED]).collect()) }));
    out.push(("zip_all of a tuple", |c| {
        let r = zip_all((arr::<N>(10), arr::<N>(50))).map(|(x, y)| { c.look(x.get()); (x, y) }).collect::<[(Tok, Tok); N]>();
        r.iter().map(|(x, y)| x.get() * 1000 + y.get()).collect()
    }, w(a(), zipped())));
    out.push(("zip_all of three arrays", |c| {
        let r = zip_all([arr::<N>(10), arr::<N>(50), arr::<N>(70)]).map(|x| { c.look(x[0].get()); x }).collect::<[[Tok; 3]; N]>();
        r.iter().flat_map(vals).collect()
    }, w(a(), (0..N as u32).flat_map(|i| [10 + i, 50 + i, 70 + i]).collect())));
    out.push(("zip_all of mapped iterators", |c| {
        let f = |t: Tok| { c.look(t.get()); t };
        let r = zip_all([arr::<N>(10).into_static_iter().map(f), arr::<N>(50).into_static_iter().map(f)]).collect::<[[Tok; 2]; N]>();
        r.iter().flat_map(vals).collect()
    }, w((0..N as u32).flat_map(|i| [10 + i, 50 + i]).collect(), (0..N as u32).flat_map(|i| [10 + i, 50 + i]).collect())));
    out.push(("zip_all of a tuple of mapped iterators", |c| {
        let f = |t: Tok| { c.look(t.get()); t };
        let r = zip_all((arr::<N>(10).into_static_iter().map(f), arr::<N>(50).into_static_iter().map(f))).collect::<[(Tok, Tok); N]>();
        r.iter().flat_map(|(x, y)| [x.get(), y.get()]).collect()
    }, w((0..N as u32).flat_map(|i| [10 + i, 50 + i]).collect(), (0..N as u32).flat_map(|i| [10 + i, 50 + i]).collect())));
    out.push(("zip of mapped iterators", |c| {
        let f = |t: Tok| { c.look(t.get()); t };
        let r = arr::<N>(10).into_static_iter().map(f).zip(arr::<N>(50).into_static_iter().map(f)).collect::<[(Tok, Tok); N]>();
        r.iter().flat_map(|(x, y)| [x.get(), y.get()]).collect()
    }, w((0..N as u32).flat_map(|i| [10 + i, 50 + i]).collect(), (0..N as u32).flat_map(|i| [10 + i, 50 + i]).collect())));
    out.push(("zip_all of references", |c| {
        let (x, y) = (arr::<N>(10), arr::<N>(50));
        let r = zip_all([&x, &y]).map(|[p, q]| { c.look(p.get()); Tok::new(p.get() * 1000 + q.get()) }).collect::<[Tok; N]>();
        vals(&r)
    }, w(a(), zipped())));
    out.push(("zip_all collect Option", |c| {
        let r: Option<[[Tok; 2]; N]> = zip_all([arr::<N>(10), arr::<N>(50)]).map(|x| if c.visit(x[0].get()) { None } else { Some(x) }).collect();
        r.map_or(vec![FAILED], |r| r.iter().flat_map(vals).collect())
    }, Want { visits: a(), full: (0..N as u32).flat_map(|i| [10 + i, 50 + i]).collect(), failed: Some(|_| vec![FAILED]) }));
    out.push(("sum", |c| { let _ = c; vec![arr::<N>(10).into_static_iter().sum().get()] }, w(a(), vec![a().iter().sum()])));
    out.push(("product", |c| { let _ = c; vec![arr::<N>(10).into_static_iter().product().get()] }, w(a(), vec![a().iter().fold(1u32, |p, x| p.wrapping_mul(*x))])));
    // The containers built on them
    out.push(("vector + vector", |c| { let _ = c; vals(&(Vector::new(arr::<N>(10)) + Vector::new(arr::<N>(50))).into()) }, w(b(), a().iter().zip(b()).map(|(x, y)| x + y).collect())));
    out.push(("vector + &vector", |c| { let _ = c; let y = Vector::new(arr::<N>(50)); vals(&(Vector::new(arr::<N>(10)) + &y).into()) }, w(b(), a().iter().zip(b()).map(|(x, y)| x + y).collect())));
    out.push(("vector * scalar", |c| { let _ = c; vals(&(Vector::new(arr::<N>(10)) * Tok::new(3)).into()) }, w(vec![3; N], a().iter().map(|x| x * 3).collect())));
    out.push(("vector into_column", |c| {
        let _ = c;
        let x = Vector::new(arr::<N>(10)).into_column();
        (0..N).map(|i| x[(i, 0)].get()).collect()
    }, w(vec![], a())));
    out.push(("matrix transpose", |c| {
        let _ = c;
        let x = Matrix::new([arr::<N>(10), arr::<N>(50)]).transpose();
        (0..N).flat_map(|i| [x[(i, 0)].get(), x[(i, 1)].get()]).collect()
    }, w(vec![], (0..N as u32).flat_map(|i| [10 + i, 50 + i]).collect())));
    out.push(("matrix from_columns", |c| {
        let _ = c;
        let x = Matrix::from_columns([Vector::new(arr::<N>(10)), Vector::new(arr::<N>(50))]);
        (0..N).flat_map(|i| [x[(i, 0)].get(), x[(i, 1)].get()]).collect()
    }, w(vec![], (0..N as u32).flat_map(|i| [10 + i, 50 + i]).collect())));
    out.push(("matrix from_rows", |c| {
        let _ = c;
        let x = Matrix::from_rows([Vector::new(arr::<N>(10)), Vector::new(arr::<N>(50))]);
        (0..2).flat_map(|i| (0..N).map(|j| x[(i, j)].get()).collect::<Vec<_>>()).collect()
    }, w(vec![], a().into_iter().chain(b()).collect())));
    out.push(("matrix + matrix", |c| {
        let _ = c;
        let x = Matrix::new([arr::<N>(10), arr::<N>(30)]) + Matrix::new([arr::<N>(50), arr::<N>(70)]);
        (0..2).flat_map(|i| (0..N).map(|j| x[(i, j)].get()).collect::<Vec<_>>()).collect()
    }, w(b().into_iter().chain(seq(70, N)).collect(), a().iter().zip(b()).map(|(x, y)| x + y).chain(seq(30, N).iter().zip(seq(70, N)).map(|(x, y)| x + y)).collect())));
    out.push(("matrix - matrix", |c| {
        let _ = c;
        let x = Matrix::new([arr::<N>(50), arr::<N>(70)]) - Matrix::new([arr::<N>(10), arr::<N>(30)]);
        (0..2).flat_map(|i| (0..N).map(|j| x[(i, j)].get()).collect::<Vec<_>>()).collect()
    }, w(a().into_iter().chain(seq(30, N)).collect(), vec![40; 2 * N])));
    out.push(("dynamic matrix from arrays", |c| {
        let _ = c;
        let mut x = DynMatrix::from([arr::<N>(10), arr::<N>(50)]);
        x.swap_rows(0, 1);
        (0..2).flat_map(|i| (0..N).map(|j| x[(i, j)].get()).collect::<Vec<_>>()).collect()
    }, w(vec![], b().into_iter().chain(a()).collect())));
    out
}

/// Nothing is pulled: dropping unused iterators and adapters
fn unused<const N: usize>(m: &mut Mon) {
    let r = m.attempt("unused", || {
        drop(arr::<N>(10).into_static_iter());
        drop(arr::<N>(10).into_static_iter().map(|t| t));
        drop(arr::<N>(10).into_static_iter().zip(arr::<N>(50)));
        drop(arr::<N>(10).into_static_iter().enumerate());
        drop(zip_all([arr::<N>(10), arr::<N>(50)]));
        drop(zip_all((arr::<N>(10), arr::<N>(50))));
        let x = arr::<N>(10);
        drop((&x).into_static_iter());
        drop(<[Tok; N] as FromStaticIter<Tok, N>>::uninit());
    });
    m.check("no panic", r.is_ok(), || format!("dropping unused iterators of length {N}: {r:?}"));
    ledger(m, &|| format!("dropping unused iterators of length {N}"));
}

fn ledger(m: &mut Mon, what: &dyn Fn() -> String) {
    let l = LEDGER.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let g = GARBAGE.with(|g| g.replace(0));
    let never = l.iter().filter(|n| **n == 0).count();
    let twice = l.iter().filter(|n| **n > 1).count();
    m.count("elements followed", l.len() as u64);
    m.check("every element is dropped exactly once", never == 0 && twice == 0, || format!("{}: of {} elements {never} were never dropped and {twice} more than once", what(), l.len()));
    m.check("only real elements are seen", g == 0, || format!("{}: {g} uses of something that is not an element", what()));
}

fn judge(m: &mut Mon, n: usize, s: &Scenario, at: usize, panic: bool) {
    let (name, f, want) = s;
    let ctl = Rc::new(Ctl { seen: RefCell::new(vec![]), at, panic });
    CTL.with(|c| *c.borrow_mut() = Some(ctl.clone()));
    let got = m.attempt("scenario", || f(&ctl));
    CTL.with(|c| *c.borrow_mut() = None);
    let total = want.visits.len();
    let hit = at < total && (panic || want.failed.is_some());
    let what = || format!("{name}, length {n}, {}", if at >= total { "undisturbed".into() } else if panic { format!("panic at visit {at}") } else { format!("failure at visit {at}") });
    m.seen(&(name, n, at, panic));
    m.count(if !hit { "undisturbed runs" } else if panic { "runs with a panic" } else { "runs with a failure" }, 1);
    let seen = ctl.seen.borrow().clone();
    let visits = &want.visits[..if hit { at + 1 } else { total }];
    m.check("elements are visited once and in order", seen == visits, || format!("{}: visited {seen:?}, expected {visits:?}", what()));
    match got {
        Err(e) => {
            m.check("panics are passed on, none are added", hit && panic && e.contains("injected"), || format!("{}: {e}", what()));
        }
        Ok(v) => {
            let w = if hit { want.failed.map_or(vec![], |f| f(at)) } else { want.full.clone() };
            m.check("result", v == w && !(hit && panic), || format!("{}: got {v:?}, expected {w:?}", what()));
        }
    }
    ledger(m, &what);
}

/// The order in which a source is asked
fn contract<const N: usize>(m: &mut Mon, stop: usize) {
    let bad = Rc::new(Cell::new(0));
    let src = || Src::<N> { next: 0, bad: bad.clone() };
    let n = Cell::new(0);
    let r = m.attempt("contract", || {
        n.set(0);
        let _: Option<[Tok; N]> = src().map(|t| { n.set(n.get() + 1); (n.get() <= stop).then_some(t) }).collect();
        let _: [Tok; N] = src().collect();
        let _ = src().any(|t| t.get() == 10 + stop as u32);
        let _ = src().all(|t| t.get() != 10 + stop as u32);
        let _ = src().zip(src()).enumerate().fold(0, |a, _| a + 1);
        let _ = src().try_fold((), |(), t| if t.get() == 10 + stop as u32 { Err(()) } else { Ok(()) });
        let _: [[Tok; 2]; N] = zip_all([src(), src()]).collect();
        let _: [(Tok, Tok); N] = zip_all((src(), src())).collect();
        let _ = src().sum();
    });
    m.check("sources are asked for each index once, in order", r.is_ok() && bad.get() == 0, || format!("length {N}: {} wrong requests, {r:?}", bad.get()));
    ledger(m, &|| format!("sources of length {N}, stopping at {stop}"));
}

fn numbers<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let mut f = || -> [i32; N] { std::array::from_fn(|_| r.irange(-100, 100) as i32) };
    let (a, b, c, d) = (f(), f(), f(), f());
    let got = m.run("plain numbers", String::new, || (codegen::zip_add(a, b), codegen::zip_mul(a, b), codegen::map_neg(a), codegen::zip_many(a, b, c, d)));
    let z = |f: &dyn Fn(usize) -> i32| -> [i32; N] { std::array::from_fn(f) };
    let want = (z(&|i| a[i] + b[i]), z(&|i| a[i] * b[i]), z(&|i| -a[i]), z(&|i| a[i] * b[i] * c[i] * d[i]));
    m.check("plain numbers", got == Some(want), || format!("{a:?} {b:?} {c:?} {d:?}: {got:?}, expected {want:?}"));
    let _ = m.run("plain numbers", String::new, codegen::foo);
}

/// Longer than any block, unrolled loop or narrow counter
fn long<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let a: [i64; N] = std::array::from_fn(|_| r.irange(-1_000_000, 1_000_000));
    let b: [i64; N] = std::array::from_fn(|_| r.irange(-1_000_000, 1_000_000));
    let k = r.below(N + 1);
    let got = m.run("long arrays", || format!("length {N}, stop at {k}"), || {
        let stop = Cell::new(0usize);
        let go = || {
            stop.set(stop.get() + 1);
            stop.get() <= k
        };
        let mapped = a.into_static_iter().map(|x| x + 1).collect::<[i64; N]>();
        let numbered = a.into_static_iter().enumerate().collect::<[(usize, i64); N]>();
        let zipped = a.into_static_iter().zip(b).collect::<[(i64, i64); N]>();
        let all = zip_all([a, b]).collect::<[[i64; 2]; N]>();
        let pair = zip_all((&a, &b)).map(|(x, y)| (*x, *y)).collect::<[(i64, i64); N]>();
        let range = StaticRangeTo::<N>.into_static_iter().collect::<[usize; N]>();
        let sum = a.into_static_iter().sum();
        let order = a.into_static_iter().fold(0u64, |h, x| h.wrapping_mul(31).wrapping_add(x as u64));
        let some: Option<[i64; N]> = a.into_static_iter().map(Some).collect();
        let cut: Option<[i64; N]> = a.into_static_iter().map(|x| go().then_some(x)).collect();
        let at = a.into_static_iter().enumerate().try_fold(0usize, |n, (i, _)| if i == k { Err(n) } else { Ok(n + 1) });
        let none = a.into_static_iter().any(|x| x > 2_000_000);
        let every = a.into_static_iter().all(|x| x <= 1_000_000);
        let simple = mapped.iter().zip(&a).all(|(x, y)| *x == y + 1)
            && numbered.iter().enumerate().all(|(i, x)| *x == (i, a[i]))
            && (0..N).all(|i| zipped[i] == (a[i], b[i]) && all[i] == [a[i], b[i]] && pair[i] == (a[i], b[i]) && range[i] == i)
            && some == Some(a)
            && cut.is_some() == (k == N)
            && stop.get() == (k + 1).min(N);
        (simple, sum, order, at, none, every)
    });
    let want = (true, a.iter().sum::<i64>(), a.iter().fold(0u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64)), if k == N { Ok(N) } else { Err(k) }, false, true);
    m.check("long arrays", got == Some(want), || format!("length {N}, stop at {k}: got {got:?}, expected {want:?} for {a:?}"));
    m.count("long arrays", 1);
    m.max("longest array", N as u64);
}

fn complete<const N: usize>(m: &mut Mon, r: &mut Rng) {
    unused::<N>(m);
    for s in &scenarios::<N>() {
        let total = s.2.visits.len();
        for at in 0..=total {
            if !m.alive() {
                return;
            }
            judge(m, N, s, at, false);
            if at < total {
                judge(m, N, s, at, true);
            }
        }
    }
    for stop in 0..=N {
        contract::<N>(m, stop);
    }
    numbers::<N>(m, r);
    m.count("lengths done at every position", 1);
    m.max("longest array", N as u64);
}

fn sampled<const N: usize>(m: &mut Mon, r: &mut Rng, tiny: bool) {
    let all = scenarios::<N>();
    for _ in 0..(if tiny { 12 } else { 60 }) {
        if !m.go() {
            return;
        }
        let s = r.pick(&all);
        let total = s.2.visits.len();
        let at = r.below(total + 1);
        let panic = r.chance(1, if tiny { 4 } else { 2 });
        judge(m, N, s, at, panic);
        m.sample(|| format!("{} on {N} elements, {} at visit {at}", s.0, if panic { "panic" } else { "failure" }));
    }
    contract::<N>(m, r.below(N + 1));
    unused::<N>(m);
    m.max("longest array", N as u64);
}

fn main() {
    run("C28", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let tiny = m.mode == "tiny";
        if !tiny {
            let mut i = 0;
            macro_rules! all { ($($n:literal)*) => { $( if m.mine(i) { complete::<$n>(m, r); } i += 1; )* } }
            all!(0 1 2 3 4 5 6 7 8 9 16);
            let _ = i;
        }
        while m.go() {
            macro_rules! some { ($($n:literal)*) => { $( if r.chance(1, 3) { sampled::<$n>(m, r, tiny); } )* } }
            some!(0 1 2 3 4 5 7);
            if !tiny {
                some!(6 8 11 16 17 32 33);
                numbers::<16>(m, r);
                numbers::<5>(m, r);
                match r.below(22) {
                    0 => long::<64>(m, r),
                    1 => long::<100>(m, r),
                    2 => long::<257>(m, r),
                    3 => long::<300>(m, r),
                    4 => long::<700>(m, r),
                    5 => long::<63>(m, r),
                    6 => long::<65>(m, r),
                    7 => long::<127>(m, r),
                    8 => long::<128>(m, r),
                    9 => long::<129>(m, r),
                    10 => long::<255>(m, r),
                    11 => long::<256>(m, r),
                    12 => long::<512>(m, r),
                    13 => long::<1024>(m, r),
                    14 => sampled::<12>(m, r, tiny),
                    15 => sampled::<15>(m, r, tiny),
                    16 => sampled::<24>(m, r, tiny),
                    17 => sampled::<64>(m, r, tiny),
                    18 => sampled::<127>(m, r, tiny),
                    19 => sampled::<200>(m, r, tiny),
                    20 => sampled::<257>(m, r, tiny),
                    _ => sampled::<40>(m, r, tiny),
                }
            }
        }
    });
}
