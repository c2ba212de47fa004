//! C08: BigInt values can be created, cloned, read, computed with and dropped from many threads at once;
//! every thread sees exactly the values it would see alone.
#[path = "../support/bi.rs"]
mod bi;
use bi::*;
use monitors::{run, Big, Mon, Rng};
use numeric_ints::BigInt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Barrier, Mutex};

struct Report {
    observations: u64,
    sent: u64,
    keys: Vec<u64>,
    bad: Vec<(String, String)>,
}

/// Values that several threads keep creating and dropping at the same time
fn contended(i: u64) -> Big {
    Big::from_limbs(i % 3 == 2, &[0x9000_0000_0000_0000 + i, i % 2])
}

fn pause(r: &mut Rng) {
    match r.below(24) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(300) {
                std::hint::spin_loop();
            }
        }
        _ => (),
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(
    id: usize,
    seed: u64,
    steps: usize,
    pool: u64,
    shared: &[(BigInt, Big)],
    mail: &[Mutex<Sender<(BigInt, Big)>>],
    inbox: Receiver<(BigInt, Big)>,
    barrier: &Barrier,
    tick: &AtomicU64,
) -> Report {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut rep = Report { observations: 0, sent: 0, keys: vec![], bad: vec![] };
    let mut mine: Vec<(BigInt, Big)> = vec![];
    barrier.wait();
    for step in 0..steps {
        monitors::mon::pulse();
        let look = |rep: &mut Report, what: &str, x: &BigInt, v: &Big| {
            rep.observations += 1;
            let o = observe(x);
            if o.as_ref() != Some(v) && rep.bad.len() < 2 {
                rep.bad.push((what.to_string(), format!("thread {id}, step {step}: {what} should be {}, is {}", show(v), show_res(&o))));
            }
        };
        let t = tick.fetch_add(1, Ordering::Relaxed);
        let op = r.below(12);
        rep.keys.push(monitors::mon::hash_of(&(op as u64, id as u64, t % 64, mine.len() as u64)));
        match op {
            0..=2 => {
                let v = contended(r.below(pool as usize) as u64);
                let x = make(&v, 1 + r.below(3));
                look(&mut rep, "contended value, just created", &x, &v);
                pause(r);
                if r.bool() {
                    mine.push((x, v));
                } else {
                    look(&mut rep, "contended value, before its drop", &x, &v);
                }
            }
            3 => {
                let v = Big::from_limbs(r.bool(), &[r.u64(), 1 + r.u64() % 4]);
                let x = make(&v, 1);
                look(&mut rep, "fresh value", &x, &v);
                mine.push((x, v));
            }
            4 => {
                let (x, v) = r.pick(shared);
                let c = x.clone();
                look(&mut rep, "clone of a shared value", &c, v);
                pause(r);
                if r.bool() {
                    mine.push((c, v.clone()));
                }
            }
            5 => {
                let ((x, a), (y, b)) = (r.pick(shared), r.pick(shared));
                let (z, c) = match r.below(3) {
                    0 => (x + y, a.add(b)),
                    1 => (x - y, a.sub(b)),
                    _ => (x * y, a.mul(b)),
                };
                look(&mut rep, "result on shared operands", &z, &c);
                if r.bool() {
                    mine.push((z, c));
                }
            }
            6 if !mine.is_empty() => {
                // Hand over to another thread
                let i = r.below(mine.len());
                let (x, v) = mine.swap_remove(i);
                let keep = if r.bool() { Some((x.clone(), v.clone())) } else { None };
                let to = r.below(mail.len());
                let tx = mail[to].lock().unwrap().clone();
                if tx.send((x, v)).is_ok() {
                    rep.sent += 1;
                }
                mine.extend(keep);
            }
            7 => {
                while let Ok((x, v)) = inbox.try_recv() {
                    look(&mut rep, "value received from another thread", &x, &v);
                    mine.push((x, v));
                }
            }
            8 if !mine.is_empty() => {
                let i = r.below(mine.len());
                let (x, v) = &mine[i];
                look(&mut rep, "value held for a while", x, v);
                let y = make(v, 1);
                rep.observations += 1;
                if y != *x && rep.bad.len() < 2 {
                    rep.bad.push(("equality".into(), format!("thread {id}: {} made again does not equal itself", show(v))));
                }
            }
            9 if !mine.is_empty() => {
                let i = r.below(mine.len());
                let b = contended(r.below(pool as usize) as u64);
                let (x, v) = &mut mine[i];
                if v.bits() < 300 {
                    *x += make(&b, 1);
                    *v = v.add(&b);
                }
                let (x, v) = &mine[i];
                look(&mut rep, "in place sum", x, v);
            }
            _ => {
                if !mine.is_empty() {
                    let i = r.below(mine.len());
                    let (x, v) = mine.swap_remove(i);
                    look(&mut rep, "value before its drop", &x, &v);
                }
            }
        }
        if mine.len() > 24 {
            for (x, v) in &mine {
                look(&mut rep, "all values of a thread", x, v);
            }
            mine.truncate(r.below(10));
        }
        if !rep.bad.is_empty() {
            break;
        }
    }
    for (x, v) in &mine {
        rep.observations += 1;
        let o = observe(x);
        if o.as_ref() != Some(v) && rep.bad.len() < 2 {
            rep.bad.push(("at the end".into(), format!("thread {id}: should be {}, is {}", show(v), show_res(&o))));
        }
    }
    rep
}

fn round(m: &mut Mon, r: &mut Rng, threads: usize, steps: usize) {
    let pool = *r.pick(&[1u64, 2, 3, 5, 12, 34, 70]);
    let shared: Vec<(BigInt, Big)> = (0..r.range(1, 6))
        .map(|i| {
            let v = if i % 2 == 0 { contended(r.below(pool as usize) as u64) } else { Big::from_limbs(r.bool(), &[r.u64(), r.u64()]) };
            (make(&v, 1), v)
        })
        .collect();
    let (txs, rxs): (Vec<_>, Vec<_>) = (0..threads).map(|_| channel()).unzip();
    let mail: Vec<Mutex<Sender<(BigInt, Big)>>> = txs.into_iter().map(Mutex::new).collect();
    let barrier = Barrier::new(threads);
    let tick = AtomicU64::new(0);
    let results: Vec<std::thread::Result<Report>> = std::thread::scope(|s| {
        let hs: Vec<_> = rxs
            .into_iter()
            .enumerate()
            .map(|(id, inbox)| {
                let seed = r.u64();
                let (shared, mail, barrier, tick) = (&shared, &mail, &barrier, &tick);
                s.spawn(move || worker(id, seed, steps, pool, shared, mail, inbox, barrier, tick))
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    m.count("rounds", 1);
    m.count("thread executions", threads as u64);
    for res in results {
        match res {
            Ok(rep) => {
                m.count("values handed between threads", rep.sent);
                for _ in 0..rep.observations {
                    m.check("value seen by a thread", true, String::new);
                }
                for k in &rep.keys {
                    m.seen(k);
                }
                for (what, detail) in rep.bad {
                    m.check("value seen by a thread", false, || format!("{what}: {detail} ({threads} threads, {pool} contended values)"));
                }
            }
            Err(_) => {
                m.check("no panic in a thread", false, || format!("a thread panicked: {} ({threads} threads)", monitors::mon::any_panic()));
            }
        }
    }
    for (x, v) in &shared {
        let o = m.attempt("shared values afterwards", || observe(x)).unwrap_or(None);
        m.check("shared values afterwards", o.as_ref() == Some(v), || format!("should be {}, is {}", show(v), show_res(&o)));
    }
    m.sample(|| format!("{threads} threads x {steps} steps over {pool} contended values"));
}

fn main() {
    run("C08", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        monitors::mon::watchdog_idle();
        if m.mode == "tiny" {
            while m.go() {
                let t = r.range(2, 3);
                round(m, r, t, 10);
            }
            return;
        }
        while m.go() {
            let t = if m.kind_slow() { r.range(2, 4) } else { *r.pick(&[2, 3, 4, 6, 8]) };
            let steps = if m.kind_slow() { 150 } else { 400 };
            round(m, r, t, steps);
        }
    });
}
