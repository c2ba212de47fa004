//! C07: BigInt values are immutable and independent over arbitrary histories of creating, cloning,
//! assigning, swapping and dropping, however the shared storage fills up, empties and is reused.
#[path = "../support/bi.rs"]
mod bi;
#[path = "../support/alloc.rs"]
mod alloc;
use bi::*;
use monitors::{run, Big, Mon, Rng};
use numeric_ints::BigInt;
use numeric_traits::class::Signed;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(not(miri))]
#[global_allocator]
static COUNT: alloc::Counting = alloc::Counting;

struct World {
    vars: Vec<(BigInt, Big)>,
    log: Vec<String>,
}

impl World {
    fn note(&mut self, s: String) {
        if self.log.len() > 60 {
            self.log.remove(0);
        }
        self.log.push(s);
    }
}

/// Every live variable still has the value the history gives it
fn audit_all(m: &mut Mon, w: &World) -> bool {
    for (i, (x, v)) in w.vars.iter().enumerate() {
        let o = m.attempt("live values", || observe(x));
        let o = match o {
            Ok(o) => o,
            Err(p) => {
                m.check("live values", false, || format!("variable {i}, {}: unreadable ({p}); history: {:?}", show(v), w.log));
                return false;
            }
        };
        if !m.check("live values", o.as_ref() == Some(v), || {
            format!("variable {i} should be {}, is {}; last steps: {:?}", show(v), show_res(&o), w.log)
        }) {
            return false;
        }
    }
    true
}

fn audit_one(m: &mut Mon, w: &World, i: usize) -> bool {
    let (x, v) = &w.vars[i];
    let o = m.attempt("live value", || observe(x)).unwrap_or(None);
    m.check("live value", o.as_ref() == Some(v), || {
        format!("variable {i} should be {}, is {}; last steps: {:?}", show(v), show_res(&o), w.log)
    })
}

fn history(m: &mut Mon, r: &mut Rng, target: usize, steps: usize, miri: bool) {
    let pool: Vec<Big> = (0..r.range(2, if miri { 4 } else { 12 })).map(|_| Big::from_limbs(false, &[r.u64(), 1 + r.u64() % 2])).collect();
    let mut w = World { vars: vec![], log: vec![] };
    // A long-lived witness of every value of the pool, in half of the histories
    if r.bool() {
        for p in &pool {
            let x = make(p, if miri { 3 } else { r.below(4) });
            w.vars.push((x, p.clone()));
        }
    }
    let mut created = 0u64;
    for step in 0..steps {
        if !m.alive() {
            return;
        }
        let n = w.vars.len();
        // Drift towards the target number of live values, or away from it in waves
        let wave = (step / 400) % 3;
        let grow = match wave {
            0 => n < target,
            1 => r.chance(1, 2),
            _ => n < 3,
        };
        let op = if n == 0 { 0 } else if grow { r.below(6) } else { r.range(3, 16) };
        let done = m.attempt("history step", || {
            match op {
                0 | 1 => {
                    let v = pick_value_np(r, &pool);
                    let x = make(&v, if miri { 3 } else { 1 + r.below(3) });
                    w.note(format!("new {}", show(&v)));
                    w.vars.push((x, v));
                    created += 1;
                }
                2 => {
                    let i = r.below(n);
                    for _ in 0..r.range(1, 6) {
                        let c = (w.vars[i].0.clone(), w.vars[i].1.clone());
                        w.vars.push(c);
                    }
                    w.note(format!("clone {i}"));
                }
                3 => {
                    // Arithmetic into a new variable
                    let (i, j) = (r.below(n), r.below(n));
                    let (x, v) = {
                        let (a, b) = (&w.vars[i], &w.vars[j]);
                        match r.below(4) {
                            0 => (&a.0 + &b.0, a.1.add(&b.1)),
                            1 => (&a.0 - &b.0, a.1.sub(&b.1)),
                            2 if a.1.bits() + b.1.bits() < 400 => (&a.0 * &b.0, a.1.mul(&b.1)),
                            _ => (-&a.0, a.1.neg()),
                        }
                    };
                    w.note(format!("arith {i} {j} -> {}", show(&v)));
                    w.vars.push((x, v));
                    created += 1;
                }
                4 => {
                    // In place
                    let (i, j) = (r.below(n), r.below(n));
                    let b = w.vars[j].0.clone();
                    let bv = w.vars[j].1.clone();
                    if w.vars[i].1.bits() < 400 {
                        if r.bool() {
                            w.vars[i].0 += &b;
                            w.vars[i].1 = w.vars[i].1.add(&bv);
                        } else {
                            w.vars[i].0 -= b;
                            w.vars[i].1 = w.vars[i].1.sub(&bv);
                        }
                    }
                    w.note(format!("in place {i} {j}"));
                }
                5 => {
                    // Assign over an old value, with the same or another one
                    let (i, j) = (r.below(n), r.below(n));
                    let c = (w.vars[j].0.clone(), w.vars[j].1.clone());
                    w.vars[i] = c;
                    w.note(format!("assign {i} = {j}"));
                }
                6 => {
                    let (i, j) = (r.below(n), r.below(n));
                    w.vars.swap(i, j);
                    let t = std::mem::take(&mut w.vars[i].0);
                    w.vars[i].0 = t;
                    w.note(format!("swap/take {i} {j}"));
                }
                7 => {
                    // Consume by value: negate, abs
                    let i = r.below(n);
                    let (x, v) = w.vars.swap_remove(i);
                    let y = if r.bool() { (-x, v.neg()) } else { (x.abs(), v.abs()) };
                    w.vars.push(y);
                    w.note(format!("negate/abs {i}"));
                }
                8 => {
                    // An operation that panics half way must not corrupt what is shared
                    let i = r.below(n);
                    let x = w.vars[i].0.clone();
                    let y = x.clone();
                    let _ = catch_unwind(AssertUnwindSafe(move || y / BigInt::new()));
                    let z = &x;
                    let _ = catch_unwind(AssertUnwindSafe(move || z % BigInt::from(0)));
                    // In place on the live variable: the division is refused, the value stays
                    let v = &mut w.vars[i].0;
                    let _ = catch_unwind(AssertUnwindSafe(move || *v /= BigInt::new()));
                    let v = &mut w.vars[i].0;
                    let _ = catch_unwind(AssertUnwindSafe(move || *v %= &BigInt::new()));
                    w.note(format!("divide {i} by zero"));
                }
                9 => {
                    // Clone into a vector and drop all of it
                    let i = r.below(n);
                    let n = if !miri && r.chance(1, 60) { r.range(250, 1100) } else { r.range(1, 40) };
                    let v = vec![w.vars[i].0.clone(); n];
                    drop(v);
                    w.note(format!("clone many {i}, drop"));
                }
                10 => {
                    // clone_from, also from itself
                    let (i, j) = (r.below(n), r.below(n));
                    let c = w.vars[j].0.clone();
                    w.vars[i].0.clone_from(&c);
                    w.vars[i].1 = w.vars[j].1.clone();
                    w.note(format!("clone_from {i} {j}"));
                }
                11 => {
                    // Self assignment through arithmetic
                    let i = r.below(n);
                    let t = w.vars[i].0.clone();
                    w.vars[i].0 = t + 0;
                    w.note(format!("x = x + 0 {i}"));
                }
                12 | 13 => {
                    // A variable against itself, its negation or something near it, in every form
                    let i = r.below(n);
                    let (b, bv) = {
                        let (x, v) = &w.vars[i];
                        match r.below(5) {
                            0 => (x.clone(), v.clone()),
                            1 | 2 => (-x.clone(), v.neg()),
                            3 => (x.clone() + 1, v.add(&Big::one())),
                            _ => (-x.clone() - 1, v.neg().sub(&Big::one())),
                        }
                    };
                    let which = r.below(5);
                    let v = w.vars[i].1.clone();
                    if !(which >= 3 && bv.is_zero()) && v.bits() < 300 {
                        let want = match which {
                            0 => v.add(&bv),
                            1 => v.sub(&bv),
                            2 => v.mul(&bv),
                            3 => v.divrem(&bv).0,
                            _ => v.divrem(&bv).1,
                        };
                        let x = &mut w.vars[i].0;
                        macro_rules! go {
                            ($op:tt, $as:tt) => {
                                match r.below(6) {
                                    0 => *x $as b,
                                    1 => *x $as &b,
                                    2 => *x = &*x $op &b,
                                    3 => *x = &*x $op b,
                                    4 => *x = x.clone() $op b,
                                    _ => *x = std::mem::take(x) $op &b,
                                }
                            };
                        }
                        match which {
                            0 => go!(+, +=),
                            1 => go!(-, -=),
                            2 => go!(*, *=),
                            3 => go!(/, /=),
                            _ => go!(%, %=),
                        }
                        w.vars[i].1 = want;
                    }
                    w.note(format!("{} {i} by a relative of itself", ["add", "sub", "mul", "div", "rem"][which]));
                }
                _ => {
                    let i = r.below(n);
                    let (x, _) = w.vars.swap_remove(i);
                    drop(x);
                    w.note(format!("drop {i}"));
                }
            }
        });
        if let Err(p) = done {
            m.check("history step", false, || format!("step {op} panicked: {p}; last steps: {:?}", w.log));
            return;
        }
        if !w.vars.is_empty() {
            let i = r.below(w.vars.len());
            if !audit_one(m, &w, i) {
                return;
            }
            let last = w.vars.len() - 1;
            if !audit_one(m, &w, last) {
                return;
            }
        }
        m.seen(&(op, w.vars.len(), hash_state(&w)));
        if step % (1 + w.vars.len() * 2) == 0 && (!miri || step % 30 == 0) && !audit_all(m, &w) {
            return;
        }
        m.max("largest number of live values", w.vars.len() as u64);
    }
    m.count("steps", steps as u64);
    m.count("values created", created);
    audit_all(m, &w);
    m.sample(|| format!("{:?}", &w.log[..w.log.len().min(8)]));
    // Equal values are equal, different ones are not, for the survivors
    for _ in 0..30.min(w.vars.len()) {
        let (i, j) = (r.below(w.vars.len()), r.below(w.vars.len()));
        let (a, b) = (&w.vars[i], &w.vars[j]);
        let eq = a.0 == b.0;
        m.check("equality of survivors", eq == (a.1 == b.1), || format!("{} == {} is {eq}; {:?}", show(&a.1), show(&b.1), w.log));
    }
}

/// Values from a small pool (so that storage is shared and revived) or fresh ones (so that it grows)
fn pick_value_np(r: &mut Rng, pool: &[Big]) -> Big {
    match r.below(10) {
        0..=4 => {
            let v = r.pick(pool).clone();
            if r.chance(1, 4) {
                v.neg()
            } else {
                v
            }
        }
        5 => Big::from_limbs(r.bool(), &[u64::MAX >> r.below(4)]),
        6 => Big::from_limbs(r.bool(), &[r.u64() >> r.below(4)]),
        7 => Big::from_limbs(r.bool(), &[r.u64(), 0, 1 + r.u64() % 3]),
        _ => Big::from_limbs(r.bool(), &[r.u64(), r.u64()]),
    }
}

fn hash_state(w: &World) -> u64 {
    w.vars.iter().rev().take(3).fold(0, |a, v| a ^ monitors::mon::hash_of(&v.1))
}

/// Fill the storage with many live values, thin it out, refill: every boundary of the storage is crossed
fn flood(m: &mut Mon, r: &mut Rng, n: usize) {
    let mut live: Vec<(BigInt, Big)> = vec![];
    let base = r.u64() | 1 << 63;
    let w = |live: Vec<(BigInt, Big)>, s: &str| World { vars: live, log: vec![s.to_string()] };
    for i in 0..n {
        let v = Big::from_limbs(i % 7 == 0, &[base.wrapping_add(i as u64 * 3), 1]);
        let Some(x) = m.run("flood", || format!("{i} live values"), || make(&v, if cfg!(miri) { 3 } else { 1 })) else { return };
        live.push((x, v));
        m.beat("flood");
    }
    m.max("largest number of live values", live.len() as u64);
    let x = w(live, "flood");
    if !audit_all(m, &x) {
        return;
    }
    let mut live = x.vars;
    // Second owners that come and go, some taking over from the first
    for i in 0..live.len() {
        let Some(y) = m.run("flood", || format!("cloning value {i} of {n}"), || live[i].0.clone()) else { return };
        if i % 3 == 0 {
            live[i].0 = y;
        }
    }
    for i in 0..64 {
        let v = Big::from_limbs(false, &[base.wrapping_add(i * 3 + 2), 3]);
        let Some(_) = m.run("flood", || format!("passing value {i}"), || make(&v, if cfg!(miri) { 3 } else { 1 })) else { return };
    }
    let x = w(live, "flood, all cloned and the clones dropped");
    if !audit_all(m, &x) {
        return;
    }
    let mut live = x.vars;
    let keep = r.range(1, 5);
    let mut i = 0;
    live.retain(|_| {
        i += 1;
        i % (keep + 1) == 0
    });
    for i in 0..n / 2 {
        let v = Big::from_limbs(i % 5 == 0, &[base.wrapping_add(i as u64 * 3 + 1), 2]);
        let Some(x) = m.run("flood", || format!("refill {i}"), || make(&v, if cfg!(miri) { 3 } else { 1 })) else { return };
        live.push((x, v));
    }
    let x = w(live, "flood, thin out, refill");
    for a in 0..x.vars.len().min(400) {
        m.seen(&("flood", n, &x.vars[a].1));
    }
    audit_all(m, &x);
    m.count("floods", 1);
}

/// More live values than two bytes can number, made from and compared with primitives
fn deep(m: &mut Mon, r: &mut Rng, n: usize) {
    let base = u128::from(r.u64() | 1 << 63) << 40;
    let val = |i: usize| (base + i as u128) as i128 * if i % 7 == 0 { -1 } else { 1 };
    let other = |i: usize| (base << 9) as i128 + i as i128;
    let mut live: Vec<Option<BigInt>> = vec![];
    for i in 0..n {
        let Some(x) = m.run("deep", || format!("{i} live values"), || BigInt::from(val(i))) else { return };
        live.push(Some(x));
        m.beat("deep");
        if i % 64 == 0 && m.late() {
            break;
        }
    }
    let n = live.len();
    m.max("largest number of live values", n as u64);
    let audit = |m: &mut Mon, live: &[Option<BigInt>], fresh: &[BigInt], when: &str| {
        let of = |i: usize, x: &BigInt, want: i128, m: &mut Mon| {
            let got = m.run("deep", || format!("reading value {i} of {n}, {when}"), || *x == want);
            m.check("live values (deep)", got == Some(true), || format!("{n} live values, {when}: number {i} should be {want}, is {:?}", observe(x).map(|o| show(&o))))
        };
        live.iter().enumerate().all(|(i, x)| x.as_ref().is_none_or(|x| of(i, x, val(i), m)))
            && fresh.iter().enumerate().all(|(i, x)| of(i, x, other(i), m))
    };
    let mut fresh = vec![];
    if !audit(m, &live, &fresh, "all created") {
        return;
    }
    for i in 0..n {
        let Some(y) = m.run("deep", || format!("cloning value {i} of {n}"), || live[i].clone()) else { return };
        if i % 3 == 0 {
            live[i] = y;
        }
    }
    if !audit(m, &live, &fresh, "all cloned and the clones dropped") {
        return;
    }
    let mut k = 0;
    for i in 0..n {
        if i % 30 == 7 {
            live[i] = None;
            k += 1;
        }
    }
    for i in 0..k {
        let Some(x) = m.run("deep", || format!("replacement {i}"), || BigInt::from(other(i))) else { return };
        fresh.push(x);
        m.beat("deep");
    }
    audit(m, &live, &fresh, "some replaced");
    m.seen(&("deep", n));
}

/// Very many references to one stored value, made by cloning and by computing it again, then all but a
/// few dropped while other values come and go: the few keep their value, whatever the number was
fn crowd(m: &mut Mon, r: &mut Rng, n: usize) {
    let v = Big::from_limbs(r.bool(), &[r.u64(), r.u64() | 1]);
    let first = make(&v, 1);
    let (half, one) = (make(&v.sub(&Big::from_i128(1)), 1), BigInt::from(1));
    let mut crowd: Vec<BigInt> = Vec::with_capacity(n);
    let Some(()) = m.run("crowd", || format!("{n} references"), || {
        for i in 0..n {
            crowd.push(if i % 64 == 63 { &half + &one } else { first.clone() });
        }
    }) else { return };
    let mut w = World { vars: vec![(first, v.clone())], log: vec![format!("{n} references to one value")] };
    let mut probes = vec![];
    for round in 0..6 {
        if !audit_one(m, &w, 0) {
            return;
        }
        // The first round leaves the number as it is: exactly so many references while others come
        let cut = match round {
            0 => n,
            5 => 0,
            _ => crowd.len() * r.below(4) / 4,
        };
        if m.run("crowd", || format!("{n} references, dropped down to {cut}"), || crowd.truncate(cut)).is_none() {
            return;
        }
        // Whatever was released wrongly is taken over by these
        for _ in 0..8 {
            let p = Big::from_limbs(false, &[r.u64(), r.u64() | 1]);
            let Some(x) = m.run("crowd", || show(&p), || make(&p, 1)) else { return };
            probes.push((x, p));
        }
        let same = m.run("crowd", || show(&v), || w.vars[0].0 == &half + &one);
        m.check("equal numbers are equal", same == Some(true), || format!("{} against itself computed anew, {n} references before: {same:?}", show(&v)));
        w.log.push(format!("{} dropped to {cut}, 8 new values", n));
    }
    w.vars.append(&mut probes);
    audit_all(m, &w);
    m.seen(&("crowd", n, &v));
    m.max("largest number of references to one value", n as u64);
}

/// A long run of short-lived, all different values, few alive at a time: storage is reused, so the
/// memory in use must not keep growing
fn reuse(m: &mut Mon, r: &mut Rng, keep: usize) {
    let mut at = r.u64() & !(1 << 63);
    let ops = r.u64();
    let mut ring: std::collections::VecDeque<BigInt> = std::collections::VecDeque::with_capacity(keep + 8);
    let mut cycle = |n: u64| {
        for i in 0..n {
            at = at.wrapping_add(0x1_0001);
            let x: BigInt = (BigInt::from(1) << 100u32) + at;
            match (ops >> (i % 60)) & 3 {
                0 => ring.push_back(x.clone()),
                1 => {
                    let y = -x;
                    ring.push_back(&y + &y);
                }
                2 => {
                    let mut y = x.clone();
                    y -= &x;
                    y += x;
                    ring.push_back(y);
                }
                _ => {
                    let y = x.clone();
                    let _ = catch_unwind(AssertUnwindSafe(move || y / BigInt::new()));
                    ring.push_back(x.abs());
                }
            }
            while ring.len() > keep {
                ring.pop_front();
            }
        }
    };
    const N: u64 = 600;
    let fill = if keep < 600 { 0 } else { keep as u64 };
    let Some(()) = m.run("storage reuse", || format!("{keep} live"), || cycle(fill)) else { return };
    let Some(()) = m.run("storage reuse", || format!("{keep} live"), || cycle(N)) else { return };
    let (b0, _) = alloc::in_use();
    let Some(()) = m.run("storage reuse", || format!("{keep} live"), || cycle(N)) else { return };
    let (b1, _) = alloc::in_use();
    let Some(()) = m.run("storage reuse", || format!("{keep} live"), || cycle(N)) else { return };
    let (b2, _) = alloc::in_use();
    // A value takes at least its digits (two words); leaking one in thirty would show
    let grow = (b1 - b0).min(b2 - b1);
    m.check("storage reuse", grow < (N as i64) / 30 * 16, || {
        format!("{N} values created and dropped with at most {keep} alive: memory in use grew by {} and then {} bytes", b1 - b0, b2 - b1)
    });
    m.count("short-lived values", 3 * N);
}

fn main() {
    run("C07", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        if m.mode == "tiny" {
            // For the interpreter: short, but everything happens
            while m.go() {
                history(m, r, 8, 40, true);
                if m.go() {
                    flood(m, r, 34);
                }
            }
            return;
        }
        if m.mode == "deep" {
            deep(m, r, 66_000);
            if m.thorough {
                flood(m, r, 70_000);
            }
            return;
        }
        let floods: &[usize] = if m.thorough { &[31, 32, 33, 63, 64, 65, 200, 1000, 1023, 1024, 1025, 3000, 5000, 9000] } else { &[2100, 32, 33, 4200, 64, 65, 130, 700, 1100] };
        for (i, &n) in floods.iter().enumerate() {
            if m.mine(i) && m.go_until(60) {
                flood(m, r, n);
            }
        }
        for (i, &n) in [255usize, 65_534, 256, 65_535, 257, 65_536, 66_000, 511, 512, 1023, 1024, 32_767, 32_768].iter().enumerate() {
            if m.mine(i) && m.go_until(75) {
                crowd(m, r, n);
            }
        }
        while m.go() {
            let target = *r.pick(&[1, 3, 8, 31, 33, 60, 70, 130, 300]);
            history(m, r, target, 1500, false);
            if r.chance(1, 4) {
                let keep = match r.below(8) {
                    0 => *r.pick(&[100, 250, 300, 500, 1000, 2000]),
                    _ => r.range(1, 50),
                };
                reuse(m, r, keep);
            }
        }
    });
}
