//! C09: the interner as a reference-counted set: equal values share one id, ids of live values are
//! distinct, a live id always gives its value, counts are exact, dead storage is reused.
use monitors::{run, Mon, Rng};
use numeric_utils::intern::{InternId, Interner};
use std::borrow::Borrow;
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local! {
    static ALIVE: Cell<i64> = const { Cell::new(0) };
    static FAIL_CONV: Cell<bool> = const { Cell::new(false) };
}

/// An interned value that knows how many of its kind exist
struct Val(Box<u64>);

impl Val {
    fn new(v: u64) -> Val {
        ALIVE.with(|a| a.set(a.get() + 1));
        Val(Box::new(v))
    }
}

impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new(*self.0)
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        ALIVE.with(|a| a.set(a.get() - 1));
    }
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.0 == o.0
    }
}

#[derive(PartialEq)]
#[repr(transparent)]
struct Key(u64);

impl Borrow<Key> for Val {
    fn borrow(&self) -> &Key {
        // Key is a transparent wrapper
        unsafe { &*std::ptr::from_ref::<u64>(&*self.0).cast::<Key>() }
    }
}

/// What is handed to the interner: converts into `Val`, or refuses to
struct Lazy(Key);

impl Borrow<Key> for Lazy {
    fn borrow(&self) -> &Key {
        &self.0
    }
}

impl From<Lazy> for Val {
    fn from(l: Lazy) -> Val {
        if FAIL_CONV.with(Cell::get) {
            panic!("injected: conversion refused");
        }
        Val::new(l.0 .0)
    }
}

#[derive(Default)]
struct Model {
    /// live values: value -> (id, count)
    live: BTreeMap<u64, (usize, usize)>,
    /// last known content of dead ids
    dead: Vec<usize>,
    max_live: usize,
    log: Vec<String>,
}

fn id(i: usize) -> InternId {
    InternId::from_usize(i)
}

fn history(m: &mut Mon, r: &mut Rng, steps: usize) {
    let cap = *r.pick(&[usize::MAX, 0, 1, 31, 32, 33, 64, 100]);
    let interner: Interner<Val> = if cap == usize::MAX {
        if r.bool() {
            Interner::new()
        } else {
            Interner::default()
        }
    } else {
        Interner::with_capacity(cap)
    };
    let cap = if cap == usize::MAX { 0 } else { cap };
    let base = ALIVE.with(Cell::get);
    let universe = if steps > 4000 { 1800 } else { *r.pick(&[2usize, 5, 20, 33, 70, 200]) };
    let mut md = Model::default();
    // References handed out for values that are kept alive throughout
    let mut pinned: Vec<(usize, u64, &Val, *const u64)> = vec![];
    for step in 0..steps {
        if !m.alive() {
            return;
        }
        let v = r.below(universe) as u64;
        let op = match (step / (200 + universe)) % 3 {
            0 => r.below(5),
            1 => r.below(9),
            _ => r.range(2, 10),
        };
        if md.log.len() > 50 {
            md.log.remove(0);
        }
        m.seen(&(op, v, md.live.len(), md.live.get(&v)));
        let ctx = |md: &Model| format!("capacity {cap}, {} live, last steps {:?}", md.live.len(), md.log);
        match op {
            0..=3 => {
                md.log.push(format!("add {v}"));
                let Some(got) = m.run("add", || format!("add {v}; {}", ctx(&md)), || interner.add::<Lazy, Key>(Lazy(Key(v))).into_usize()) else { return };
                if let Some((want, n)) = md.live.get_mut(&v) {
                    let want = *want;
                    *n += 1;
                    m.check("same value, same id", got == want, || format!("add {v} gave id {got}, the live value has id {want}; {}", ctx(&md)));
                } else {
                    let clash = md.live.iter().find(|(_, (i, _))| *i == got).map(|(v, _)| *v);
                    m.check("different values, different ids", clash.is_none(), || format!("add {v} gave id {got}, which belongs to live value {clash:?}; {}", ctx(&md)));
                    md.live.insert(v, (got, 1));
                    md.dead.retain(|&d| d != got);
                }
                md.max_live = md.max_live.max(md.live.len());
                let bound = 2 * md.max_live.max(cap) + 256;
                m.check("ids are reused", got < bound, || format!("id {got} with at most {} live values ever; {}", md.max_live, ctx(&md)));
                if pinned.len() < 12 && r.chance(1, 6) && !pinned.iter().any(|p| p.1 == v) {
                    // Keep a reference, and a count of its own
                    interner.incr(id(got));
                    md.live.get_mut(&v).unwrap().1 += 1;
                    let x = interner.get(id(got));
                    pinned.push((got, v, x, &*x.0));
                }
            }
            4 if !md.live.is_empty() => {
                let k = *md.live.keys().nth(r.below(md.live.len())).unwrap();
                let i = md.live[&k].0;
                md.log.push(format!("incr {k}"));
                let Some(()) = m.run("incr", || ctx(&md), || interner.incr(id(i))) else { return };
                md.live.get_mut(&k).unwrap().1 += 1;
            }
            5..=7 if !md.live.is_empty() => {
                let k = *md.live.keys().nth(r.below(md.live.len())).unwrap();
                let (i, n) = md.live[&k];
                let floor = usize::from(pinned.iter().any(|p| p.1 == k));
                let times = if r.chance(1, 3) { n - floor } else { (n - floor).min(1) };
                md.log.push(format!("decr {k} x{times}"));
                let Some(()) = m.run("decr", || ctx(&md), || (0..times).for_each(|_| interner.decr(id(i)))) else { return };
                if times == n {
                    md.live.remove(&k);
                    md.dead.push(i);
                } else {
                    md.live.get_mut(&k).unwrap().1 -= times;
                }
            }
            8 => {
                // A dead id stays dead, also when released once more
                if let Some(&i) = md.dead.last() {
                    md.log.push(format!("decr dead {i}"));
                    let Some(()) = m.run("decr dead", || ctx(&md), || interner.decr(id(i))) else { return };
                    let Some((gone, n)) = m.run("dead", || ctx(&md), || (interner.try_get(id(i)).is_none(), interner.refcount(id(i)))) else { return };
                    m.check("dead stays dead", gone && n == 0, || format!("dead id {i}: refcount {n}, readable {}; {}", !gone, ctx(&md)));
                }
            }
            9 => {
                // The caller's conversion fails while a new value is added: nothing may change
                if !md.live.contains_key(&(v + 1_000_000)) {
                    md.log.push(format!("failing add {}", v + 1_000_000));
                    FAIL_CONV.with(|f| f.set(true));
                    let res = m.attempt("failing add", || interner.add::<Lazy, Key>(Lazy(Key(v + 1_000_000))));
                    FAIL_CONV.with(|f| f.set(false));
                    m.check("failing add", res.is_err(), || "a refused conversion was reported as success".to_string());
                }
            }
            _ => (),
        }
        // Observe: the value touched, one other, sometimes all
        let all = step % (60 + universe / 4) == 59;
        let keys: Vec<u64> = if all { md.live.keys().copied().collect() } else { md.live.keys().copied().filter(|k| *k == v || r.chance(1, 1 + md.live.len())).collect() };
        for k in keys {
            let (i, n) = md.live[&k];
            let Some((val, got, cnt)) = m.run("read", || format!("value {k}, id {i}; {}", ctx(&md)), || {
                (interner.try_get(id(i)).map(|x| *x.0), *interner.get(id(i)).0, interner.refcount(id(i)))
            }) else {
                return;
            };
            m.check("live value", val == Some(k) && got == k, || format!("id {i} should hold {k}, holds {val:?}/{got}; {}", ctx(&md)));
            m.check("reference count", cnt == n, || format!("id {i} (value {k}) should be counted {n}, is {cnt}; {}", ctx(&md)));
        }
        if all {
            for &d in md.dead.iter().rev().take(5) {
                let gone = interner.try_get(id(d)).is_none();
                m.check("dead id", gone, || format!("dead id {d} is readable; {}", ctx(&md)));
            }
            for (i, v, x, addr) in &pinned {
                m.check("references stay valid", *x.0 == *v && std::ptr::eq(&*x.0, *addr), || format!("reference to id {i} (value {v}) reads {}; {}", x.0, ctx(&md)));
            }
            let alive = ALIVE.with(Cell::get) - base;
            m.check("stored values", alive >= md.live.len() as i64 && alive <= 2 * md.max_live as i64 + 256, || {
                format!("{alive} stored values for {} live ones; {}", md.live.len(), ctx(&md))
            });
        }
        m.max("largest number of live values", md.live.len() as u64);
    }
    m.count("steps", steps as u64);
    m.sample(|| format!("capacity {cap}: {:?}", &md.log[..md.log.len().min(10)]));
    drop(pinned);
    let Some(()) = m.run("drop", || "dropping the interner".into(), || drop(interner)) else { return };
    let left = ALIVE.with(Cell::get) - base;
    m.check("everything dropped once", left == 0, || format!("{left} values not dropped (negative: dropped twice) with the interner; {:?}", md.log));
}

/// Many live values at once, and counts far beyond a byte: wherever an id or a count is squeezed
/// into too few bits, values get mixed up
/// More live values than two bytes can number, with plain values so that the lookups stay fast
fn deep(m: &mut Mon, r: &mut Rng, n: usize) {
    let interner: Interner<u64> = Interner::new();
    let mut live: Vec<usize> = Vec::with_capacity(n);
    let mut ids = std::collections::HashSet::new();
    let value = |k: usize| k as u64 * 3 + 1;
    for k in 0..n {
        let Some(i) = m.run("add (deep)", || format!("value {k} of {n}"), || interner.add::<u64, u64>(value(k)).into_usize()) else { return };
        if !m.check("different values, different ids (deep)", ids.insert(i), || format!("value {k} of {n} got id {i} of a live value")) {
            return;
        }
        live.push(i);
        if k % 64 == 0 && m.late() {
            break;
        }
    }
    let n = live.len();
    for (k, &i) in live.iter().enumerate() {
        let Some(got) = m.run("read (deep)", || format!("value {k}, id {i}"), || (interner.try_get(id(i)).copied(), interner.refcount(id(i)))) else { return };
        if !m.check("live value (deep)", got == (Some(value(k)), 1), || format!("{n} values: id {i} should hold {} counted 1, has {got:?}", value(k))) {
            return;
        }
    }
    // Other counts for each, and back to one
    let extra = |k: usize| ((k as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 60) as usize % 4;
    for up in [true, false] {
        for (k, &i) in live.iter().enumerate() {
            for _ in 0..extra(k) {
                let ok = m.run("count (deep)", || format!("value {k}, id {i}"), || if up { interner.incr(id(i)) } else { interner.decr(id(i)) });
                if ok.is_none() {
                    return;
                }
            }
        }
        for (k, &i) in live.iter().enumerate() {
            let want = (Some(value(k)), if up { 1 + extra(k) } else { 1 });
            let Some(got) = m.run("read (deep)", || format!("value {k}, id {i}"), || (interner.try_get(id(i)).copied(), interner.refcount(id(i)))) else { return };
            if !m.check("count (deep)", got == want, || format!("{n} values: id {i} should have {want:?}, has {got:?}")) {
                return;
            }
        }
    }
    // Equal values find the stored ones, wherever they are
    for _ in 0..2000 {
        let k = r.below(n);
        let Some(i) = m.run("add again (deep)", || format!("value {k} of {n}"), || interner.add::<u64, u64>(value(k)).into_usize()) else { return };
        if !m.check("equal values, equal ids (deep)", i == live[k], || format!("value {k} of {n} stored as {}, then {i}", live[k])) {
            return;
        }
        interner.decr(id(i));
    }
    // Release some everywhere, and see the rest untouched by what takes their place
    let mut gone = vec![];
    for k in 0..n {
        if r.chance(1, 40) {
            interner.decr(id(live[k]));
            ids.remove(&live[k]);
            gone.push(k);
        }
    }
    for (j, _) in gone.iter().enumerate() {
        let Some(i) = m.run("add (deep)", || format!("replacement {j}"), || interner.add::<u64, u64>(j as u64 * 3 + 2).into_usize()) else { return };
        if !m.check("different values, different ids (deep)", ids.insert(i), || format!("replacement {j} got id {i} of a live value")) {
            return;
        }
    }
    let mut next = gone.iter().copied().peekable();
    for (k, &i) in live.iter().enumerate() {
        if next.peek() == Some(&k) {
            next.next();
            continue;
        }
        let Some(got) = m.run("read (deep)", || format!("value {k}, id {i}"), || (interner.try_get(id(i)).copied(), interner.refcount(id(i)))) else { return };
        if !m.check("live value (deep)", got == (Some(value(k)), 1), || format!("{n} values, after replacing: id {i} should hold {} counted 1, has {got:?}", value(k))) {
            return;
        }
    }
    m.max("most live values", n as u64);
    m.seen(&("deep", n));
}

fn large(m: &mut Mon, r: &mut Rng, n: usize) {
    let base = ALIVE.with(Cell::get);
    let interner: Interner<Val> = Interner::new();
    let mut live: Vec<(u64, usize, usize)> = vec![];
    let add = |m: &mut Mon, v: u64| m.run("add (large)", || format!("value {v} of {n}"), || interner.add::<Lazy, Key>(Lazy(Key(v))).into_usize());
    let audit = |m: &mut Mon, live: &[(u64, usize, usize)], when: &str| {
        for &(v, i, c) in live {
            let Some((got, cnt)) = m.run("read (large)", || format!("value {v}, id {i}, {when}"), || (interner.try_get(id(i)).map(|x| *x.0), interner.refcount(id(i)))) else { return false };
            if !m.check("live value (large)", got == Some(v) && cnt == c, || format!("{n} values, {when}: id {i} should hold {v} counted {c}, holds {got:?} counted {cnt}")) {
                return false;
            }
        }
        true
    };
    for k in 0..n {
        let v = k as u64 * 7;
        let Some(i) = add(m, v) else { return };
        live.push((v, i, 1));
    }
    let mut ids: Vec<usize> = live.iter().map(|l| l.1).collect();
    ids.sort_unstable();
    ids.dedup();
    m.check("distinct ids (large)", ids.len() == n, || format!("{n} live values share {} ids", ids.len()));
    if !audit(m, &live, "filled") {
        return;
    }
    // Counts that cross the size of a byte and of two bytes
    for &k in &[255usize, 256, 257, 300, 65_535, 65_536, 70_000] {
        let at = r.below(n);
        let (v, i, c) = live[at];
        let Some(()) = m.run("incr (large)", || format!("{k} times"), || (0..k).for_each(|_| interner.incr(id(i)))) else { return };
        let cnt = interner.refcount(id(i));
        m.check("large counts", cnt == c + k, || format!("value {v} counted {c}, taken {k} more times, is counted {cnt}"));
        let down = k - r.below(2);
        let Some(()) = m.run("decr (large)", || format!("{down} times"), || (0..down).for_each(|_| interner.decr(id(i)))) else { return };
        live[at].2 = c + k - down;
    }
    if !audit(m, &live, "after large counts") {
        return;
    }
    // Exactly such a count (and one to either side), while others come, go and the same value is found again
    let mut exact = vec![255usize, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 32_767, 32_768, 65_535, 65_536, 65_537, 131_072];
    if m.shard == 0 {
        exact.extend([(1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    }
    let at = r.below(n);
    let (v, i, _) = live[at];
    for (nth, &k) in exact.iter().enumerate() {
        let c = live[at].2;
        let Some(()) = m.run("incr (large)", || format!("from {c} to {k}"), || (c..k).for_each(|_| interner.incr(id(i)))) else { return };
        live[at].2 = k;
        m.beat("exact counts");
        let mut fresh = vec![];
        for j in 0..3u64 {
            let w = 500_000_000 + nth as u64 * 8 + j;
            let Some(x) = add(m, w) else { return };
            if !m.check("different values, different ids (large)", x != i && !fresh.contains(&(w, x, 1)), || format!("new value {w} got id {x} of value {v}, counted {k}")) {
                return;
            }
            fresh.push((w, x, 1));
        }
        let Some(again) = add(m, v) else { return };
        live[at].2 += 1;
        if !m.check("same value, same id (large)", again == i, || format!("value {v} counted {k} has id {i}, added again it gets {again}")) {
            return;
        }
        if !audit(m, &fresh, "next to an exact count") || !audit(m, &live[at..=at], "at an exact count") {
            return;
        }
        interner.decr(id(i));
        live[at].2 -= 1;
        for (_, x, _) in fresh {
            interner.decr(id(x));
        }
        if !audit(m, &live[at..=at], "back at an exact count") {
            return;
        }
        m.count("exact counts", 1);
    }
    let down = live[at].2 - 1;
    let Some(()) = m.run("decr (large)", || format!("{down} times"), || (0..down).for_each(|_| interner.decr(id(i)))) else { return };
    live[at].2 = 1;
    if !audit(m, &live, "after exact counts") {
        return;
    }
    // Release some, all over the range, refill, audit
    for round in 0..3 {
        let mut keep = vec![];
        for (v, i, c) in live.drain(..) {
            if r.chance(1, 3) {
                let Some(()) = m.run("decr (large)", || format!("id {i}"), || (0..c).for_each(|_| interner.decr(id(i)))) else { return };
            } else {
                keep.push((v, i, c));
            }
        }
        live = keep;
        if !audit(m, &live, "after releasing a third") {
            return;
        }
        let mut ids: std::collections::HashSet<usize> = live.iter().map(|l| l.1).collect();
        for k in 0..n / 4 {
            let v = 1_000_000_000 * (round + 1) + k as u64;
            let Some(i) = add(m, v) else { return };
            if !m.check("different values, different ids (large)", ids.insert(i), || format!("new value {v} got id {i} of a live value")) {
                return;
            }
            live.push((v, i, 1));
        }
        if !audit(m, &live, "after refilling") {
            return;
        }
    }
    m.max("largest number of live values", n as u64);
    m.seen(&("large", n));
    drop(interner);
    let left = ALIVE.with(Cell::get) - base;
    m.check("everything dropped once", left == 0, || format!("{left} values not dropped (negative: dropped twice)"));
}

/// Slices keyed by content, as the big integers use it
fn slices(m: &mut Mon, r: &mut Rng, n: usize) {
    let interner: Interner<Box<[usize]>> = Interner::new();
    let mut live: Vec<(usize, Vec<usize>)> = vec![];
    for _ in 0..n {
        let len = r.below(4);
        let v: Vec<usize> = (0..len).map(|_| r.below(3)).collect();
        let Some(i) = m.run("slices", || format!("{v:?}"), || match r.below(2) {
            0 => interner.add::<&[usize], [usize]>(&v).into_usize(),
            _ => interner.add::<Vec<usize>, [usize]>(v.clone()).into_usize(),
        }) else {
            return;
        };
        let old = live.iter().find(|(_, w)| *w == v).map(|(i, _)| *i);
        let clash = live.iter().find(|(j, w)| *j == i && *w != v).map(|(_, w)| w.clone());
        m.check("same slice, same id", old.is_none() || old == Some(i), || format!("{v:?} has ids {old:?} and {i}"));
        m.check("different slices, different ids", clash.is_none(), || format!("{v:?} and {clash:?} share id {i}"));
        live.push((i, v));
        if r.chance(1, 3) {
            let k = r.below(live.len());
            let (i, _) = live.swap_remove(k);
            interner.decr(id(i));
        }
        for (i, v) in live.iter().rev().take(3) {
            let got = interner.get(id(*i));
            m.check("live slice", **got == **v, || format!("id {i} should hold {v:?}, holds {got:?}"));
        }
    }
}

fn main() {
    run("C09", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        if m.mode == "deep" {
            deep(m, r, if m.thorough { 140_000 } else { 66_000 });
            return;
        }
        let tiny = m.mode == "tiny";
        if !tiny {
            large(m, r, *[3000, 5000, 1500].get(m.shard).unwrap_or(&2500));
            if m.thorough {
                large(m, r, 20_000);
            }
        }
        while m.go() {
            let n = if tiny { 120 } else { if r.chance(1, 60) { 7000 } else { *r.pick(&[60, 400, 1500, 3000]) } };
            history(m, r, n);
            slices(m, r, if tiny { 20 } else { 200 });
        }
    });
}
