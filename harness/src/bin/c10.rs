//! C10: the interner under concurrency. Threads add, hold, read and release values; what they saw is
//! recorded with a global clock and judged afterwards: holders of equal values at the same time have the
//! same id, holders of different values have different ids, a held id always reads as its value, and
//! counts add up when everything is quiet.
use monitors::{run, Mon, Rng};
use numeric_utils::intern::{InternId, Interner};
use std::borrow::Borrow;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Barrier;

static ALIVE: AtomicI64 = AtomicI64::new(0);

thread_local! {
    static NOISE: Cell<u64> = const { Cell::new(0) };
    /// How often comparisons and conversions are held up, in 1/256
    static DELAY: Cell<u64> = const { Cell::new(0) };
}

/// Injected delay inside the interner's own critical sections
fn delay() {
    let d = DELAY.with(Cell::get);
    if d == 0 {
        return;
    }
    let x = NOISE.with(|n| {
        let x = n.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        n.set(x);
        x >> 33
    });
    if x & 0xFF < d {
        if x & 0xF00 == 0 {
            std::thread::yield_now();
        } else {
            for _ in 0..(x >> 10) & 0xFF {
                std::hint::spin_loop();
            }
        }
    }
}

/// Interned value: on the heap, so that a reader of a value that is being replaced is caught
struct Val(Box<[u64; 2]>);

impl Val {
    fn new(v: u64) -> Val {
        ALIVE.fetch_add(1, Ordering::Relaxed);
        Val(Box::new([v, !v]))
    }
}

impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new(self.0[0])
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        ALIVE.fetch_sub(1, Ordering::Relaxed);
        *self.0 = [0xDEAD, 0xDEAD];
    }
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        delay();
        self.0[0] == o.0[0]
    }
}

struct Lazy(Val);

impl Borrow<Val> for Lazy {
    fn borrow(&self) -> &Val {
        &self.0
    }
}

impl From<Lazy> for Val {
    fn from(l: Lazy) -> Val {
        delay();
        l.0.clone()
    }
}

/// A thread held `value` under `id` from `from` to `to` on the global clock
#[derive(Clone, Copy, Debug)]
struct Hold {
    thread: usize,
    value: u64,
    id: usize,
    from: u64,
    to: u64,
}

#[derive(Default)]
struct Rep {
    holds: Vec<Hold>,
    reads: u64,
    bad: Vec<String>,
}

struct Shared {
    interner: Interner<Val>,
    clock: AtomicU64,
    barrier: Barrier,
}

impl Shared {
    fn now(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }
}

fn id(i: usize) -> InternId {
    InternId::from_usize(i)
}

fn read(rep: &mut Rep, s: &Shared, h: &Hold) {
    rep.reads += 1;
    let a = s.interner.try_get(id(h.id)).map(|v| *v.0);
    if a != Some([h.value, !h.value]) && rep.bad.len() < 3 {
        rep.bad.push(format!("thread {} holds id {} with value {}, reads {a:x?}", h.thread, h.id, h.value));
    }
    if s.interner.refcount(id(h.id)) == 0 && rep.bad.len() < 3 {
        rep.bad.push(format!("thread {} holds id {} (value {}), whose count is zero", h.thread, h.id, h.value));
    }
}

fn worker(t: usize, seed: u64, steps: usize, universe: usize, s: &Shared, dl: u64) -> Rep {
    let mut r = Rng::new(seed);
    let r = &mut r;
    NOISE.with(|n| n.set(seed | 1));
    DELAY.with(|d| d.set(dl));
    let mut rep = Rep::default();
    let mut held: Vec<Hold> = vec![];
    s.barrier.wait();
    for _ in 0..steps {
        monitors::mon::pulse();
        match r.below(8) {
            0..=3 => {
                let v = r.below(universe) as u64;
                let i = s.interner.add::<Lazy, Val>(Lazy(Val::new(v))).into_usize();
                let h = Hold { thread: t, value: v, id: i, from: s.now(), to: 0 };
                read(&mut rep, s, &h);
                held.push(h);
            }
            4 if !held.is_empty() => {
                // A second hold through the id
                let h = *r.pick(&held);
                s.interner.incr(id(h.id));
                held.push(Hold { from: s.now(), ..h });
            }
            5 if !held.is_empty() => {
                let h = *r.pick(&held);
                read(&mut rep, s, &h);
            }
            _ if !held.is_empty() => {
                let k = r.below(held.len());
                let mut h = held.swap_remove(k);
                read(&mut rep, s, &h);
                h.to = s.now();
                s.interner.decr(id(h.id));
                rep.holds.push(h);
            }
            _ => (),
        }
        if held.len() > 20 {
            for mut h in held.drain(..) {
                h.to = s.now();
                s.interner.decr(id(h.id));
                rep.holds.push(h);
            }
        }
    }
    // Quiet point: everybody still holds what it holds
    s.barrier.wait();
    for h in &held {
        read(&mut rep, s, h);
    }
    for h in &held {
        rep.holds.push(Hold { to: u64::MAX, ..*h });
    }
    DELAY.with(|d| d.set(0));
    rep
}

/// Offline: holds that overlap in time
fn judge(m: &mut Mon, holds: &[Hold]) {
    // Different values must never hold the same id at the same time
    let mut by_id: BTreeMap<usize, Vec<&Hold>> = BTreeMap::new();
    let mut by_val: BTreeMap<u64, Vec<&Hold>> = BTreeMap::new();
    for h in holds {
        by_id.entry(h.id).or_default().push(h);
        by_val.entry(h.value).or_default().push(h);
    }
    let overlap = |group: &mut Vec<&Hold>, same: &dyn Fn(&Hold, &Hold) -> bool| -> (u64, Option<(Hold, Hold)>) {
        group.sort_by_key(|h| h.from);
        let mut open: Vec<&Hold> = vec![];
        let mut n = 0;
        for h in group.iter() {
            open.retain(|o| o.to > h.from);
            for o in &open {
                n += 1;
                if !same(o, h) {
                    return (n, Some((**o, *h.to_owned())));
                }
            }
            open.push(h);
        }
        (n, None)
    };
    let mut pairs = 0;
    for g in by_id.values_mut() {
        let (n, bad) = overlap(g, &|a, b| a.value == b.value);
        pairs += n;
        m.check("one value per id", bad.is_none(), || format!("held at the same time: {bad:?}"));
    }
    for g in by_val.values_mut() {
        let (n, bad) = overlap(g, &|a, b| a.id == b.id);
        pairs += n;
        m.check("one id per value", bad.is_none(), || format!("held at the same time: {bad:?}"));
    }
    m.count("overlapping holds compared", pairs);
}

fn round(m: &mut Mon, r: &mut Rng, threads: usize, steps: usize) {
    let universe = *r.pick(&[1usize, 2, 3, 8, 31, 40, 100]);
    let dl = *r.pick(&[0u64, 4, 32, 128]);
    let base = ALIVE.load(Ordering::SeqCst);
    let s = Shared {
        interner: match r.below(3) {
            0 => Interner::with_capacity(universe),
            _ => Interner::new(),
        },
        clock: AtomicU64::new(1),
        barrier: Barrier::new(threads),
    };
    // Some slots are already dead at the start
    if r.bool() {
        let ids: Vec<usize> = (0..r.below(70)).map(|i| s.interner.add::<Val, Val>(Val::new(5000 + i as u64)).into_usize()).collect();
        for i in ids {
            s.interner.decr(id(i));
        }
    }
    let results: Vec<std::thread::Result<Rep>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let seed = r.u64();
                let s = &s;
                sc.spawn(move || worker(t, seed, steps, universe, s, dl))
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    m.count("rounds", 1);
    let mut holds = vec![];
    for res in results {
        match res {
            Ok(rep) => {
                for _ in 0..rep.reads {
                    m.check("held value reads back", true, String::new);
                }
                for b in rep.bad {
                    m.check("held value reads back", false, || format!("{b} ({threads} threads, {universe} values)"));
                }
                holds.extend(rep.holds);
            }
            Err(_) => {
                m.check("no panic in a thread", false, || format!("a thread panicked: {}", monitors::mon::any_panic()));
                return;
            }
        }
    }
    judge(m, &holds);
    // The interleaving, as the order in which threads got hold of values
    let mut order: Vec<(u64, usize, u64)> = holds.iter().map(|h| (h.from, h.thread, h.value)).collect();
    order.sort_unstable();
    let shape: Vec<u64> = order.iter().map(|o| (o.1 as u64) << 32 | o.2).collect();
    m.seen(&("interleaving", shape.as_slice()));
    for w in shape.windows(4) {
        m.seen(&("window", w));
    }
    m.count("holds recorded", holds.len() as u64);
    // Conservation at the quiet point
    let mut want: BTreeMap<usize, usize> = BTreeMap::new();
    for h in holds.iter().filter(|h| h.to == u64::MAX) {
        *want.entry(h.id).or_default() += 1;
    }
    let ids: BTreeSet<usize> = holds.iter().map(|h| h.id).collect();
    for i in &ids {
        let n = s.interner.refcount(id(*i));
        let w = want.get(i).copied().unwrap_or(0);
        m.check("counts add up", n == w, || format!("id {i}: count {n} with {w} holders ({threads} threads, {universe} values)"));
        let gone = s.interner.try_get(id(*i)).is_none();
        m.check("dead when released", gone == (w == 0), || format!("id {i}: readable {}, {w} holders", !gone));
    }
    for (i, n) in &want {
        for _ in 0..*n {
            s.interner.decr(id(*i));
        }
        m.check("released to zero", s.interner.try_get(id(*i)).is_none() && s.interner.refcount(id(*i)) == 0, || format!("id {i} is alive after its last release"));
    }
    drop(s);
    let left = ALIVE.load(Ordering::SeqCst) - base;
    m.check("everything dropped once", left == 0, || format!("{left} values not dropped with the interner (negative: dropped twice)"));
    m.sample(|| format!("{threads} threads x {steps} steps, {universe} values, delay {dl}/256"));
}

/// Ids that reach readers without any synchronisation of their own (guessed, or through a relaxed atomic) while
/// the writers add the values: a reader gets nothing, or the right value, and may then take a hold itself
fn handover(m: &mut Mon, r: &mut Rng, writers: usize, readers: usize, n: usize) {
    let base = ALIVE.load(Ordering::SeqCst);
    let interner: Interner<Val> = match r.below(3) {
        0 => Interner::with_capacity(n),
        _ => Interner::new(),
    };
    let board: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicU64::new(0);
    let dl = *r.pick(&[0u64, 4, 32]);
    type Seen = (u64, u64, Vec<String>, Vec<(usize, u64)>);
    let results: Vec<std::thread::Result<Seen>> = std::thread::scope(|sc| {
        let (interner, board, done) = (&interner, &board, &done);
        let mut hs = vec![];
        for w in 0..writers {
            let seed = r.u64();
            hs.push(sc.spawn(move || {
                NOISE.with(|x| x.set(seed | 1));
                DELAY.with(|d| d.set(dl));
                let mut ids = vec![];
                for v in (w..n).step_by(writers) {
                    let i = interner.add::<Lazy, Val>(Lazy(Val::new(v as u64))).into_usize();
                    board[v].store(i as u64 + 1, Ordering::Relaxed);
                    ids.push((i, v as u64));
                    monitors::mon::pulse();
                }
                DELAY.with(|d| d.set(0));
                done.fetch_add(1, Ordering::Relaxed);
                (0, 0, vec![], ids)
            }));
        }
        for _ in 0..readers {
            let seed = r.u64();
            hs.push(sc.spawn(move || {
                let mut r = Rng::new(seed);
                let (mut early, mut seen, mut bad, mut held) = (0, 0, vec![], vec![]);
                let mut left = 4 * n + 40;
                while left > 0 {
                    monitors::mon::pulse();
                    if done.load(Ordering::Relaxed) == writers as u64 {
                        left -= 1;
                    }
                    let v = r.below(n);
                    // The id either heard of or guessed
                    let (i, expect) = match board[v].load(Ordering::Relaxed) {
                        0 => (r.below(n), None),
                        i => (i as usize - 1, Some(v as u64)),
                    };
                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| interner.try_get(id(i)).map(|x| *x.0)));
                    match got {
                        Err(_) | Ok(None) => early += 1,
                        Ok(Some([a, b])) => {
                            seen += 1;
                            if (b != !a || a >= n as u64 || expect.is_some_and(|e| e != a)) && bad.len() < 3 {
                                bad.push(format!("id {i} announced for {expect:?} reads {a:x} {b:x}"));
                            }
                            if held.len() < 8 && r.chance(1, 4) {
                                interner.incr(id(i));
                                held.push((i, a));
                            }
                        }
                    }
                }
                (early, seen, bad, held)
            }));
        }
        hs.into_iter().map(|h| h.join()).collect()
    });
    let mut want: BTreeMap<usize, (u64, usize)> = BTreeMap::new();
    for res in results {
        match res {
            Ok((early, seen, bad, ids)) => {
                for _ in 0..seen {
                    m.check("unsynchronised read", true, String::new);
                }
                for b in bad {
                    m.check("unsynchronised read", false, || b);
                }
                m.count("reads before the value was there", early);
                for (i, v) in ids {
                    let e = want.entry(i).or_insert((v, 0));
                    m.check("one value per id", e.0 == v, || format!("id {i} stands for {} and {v}", e.0));
                    e.1 += 1;
                }
            }
            Err(_) => {
                m.check("no panic in a thread", false, || format!("a thread panicked: {}", monitors::mon::any_panic()));
                return;
            }
        }
    }
    m.check("one id per value", want.len() == n, || format!("{n} different values added, {} ids", want.len()));
    for (i, (v, c)) in &want {
        let (got, cnt) = (interner.try_get(id(*i)).map(|x| *x.0), interner.refcount(id(*i)));
        m.check("counts add up", got == Some([*v, !*v]) && cnt == *c, || format!("id {i} of value {v} with {c} holders reads {got:x?}, counted {cnt}"));
    }
    m.count("hand-over rounds", 1);
    drop(interner);
    let left = ALIVE.load(Ordering::SeqCst) - base;
    m.check("everything dropped once", left == 0, || format!("{left} values not dropped with the interner (negative: dropped twice)"));
}

// Which types may cross threads, decided by the compiler and read at run time
struct Probe<T>(std::marker::PhantomData<T>);
trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Fallback for Probe<T> {}
struct ProbeSend<T>(std::marker::PhantomData<T>);
impl<T> Fallback for ProbeSend<T> {}
#[allow(dead_code)]
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
#[allow(dead_code)]
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}

fn markers(m: &mut Mon) {
    use std::rc::Rc;
    let rows = [
        ("Interner<u64> shared", Probe::<Interner<u64>>::SYNC, true),
        ("Interner<u64> sent", ProbeSend::<Interner<u64>>::SEND, true),
        ("Interner<Box<[usize]>> shared", Probe::<Interner<Box<[usize]>>>::SYNC, true),
        ("Interner<Rc<u8>> shared", Probe::<Interner<Rc<u8>>>::SYNC, false),
        ("Interner<Rc<u8>> sent", ProbeSend::<Interner<Rc<u8>>>::SEND, false),
        ("Interner<Cell<u8>> shared", Probe::<Interner<Cell<u8>>>::SYNC, false),
        ("Interner<*const u8> shared", Probe::<Interner<*const u8>>::SYNC, false),
    ];
    for (what, got, want) in rows {
        m.seen(&("marker", what));
        m.check("thread-safety markers", got == want, || format!("{what} between threads: allowed {got}, expected {want}"));
    }
}

fn main() {
    run("C10", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        monitors::mon::watchdog_idle();
        markers(m);
        if m.mode == "tiny" {
            while m.go() {
                let t = r.range(2, 3);
                round(m, r, t, 9);
                if m.go() {
                    let n = *r.pick(&[3, 6, 36]);
                    let (a, b) = (1 + r.below(2), 1 + r.below(2));
                    handover(m, r, a, b, n);
                }
            }
            return;
        }
        while m.go() {
            let t = if m.kind_slow() { r.range(2, 4) } else { *r.pick(&[2, 3, 4, 6, 8]) };
            let steps = if m.kind_slow() { *r.pick(&[10, 30, 100]) } else { *r.pick(&[10, 30, 100, 300]) };
            round(m, r, t, steps);
            if r.chance(1, 3) {
                let n = *r.pick(&[5, 33, 70, 200]);
                let (a, b) = (1 + r.below(3), 1 + r.below(3));
                handover(m, r, a, b, n);
            }
        }
    });
}
