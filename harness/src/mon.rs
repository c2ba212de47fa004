//! Monitor bookkeeping: what was observed, what was violated, and the record handed to the runner.
use crate::gen::Dict;
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Fx(u64);

impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(b));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517C_C1B7_2722_0A95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(u64::from(v))
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(u64::from(v))
    }
}

pub fn hash_of(v: &impl Hash) -> u64 {
    let mut h = Fx::default();
    v.hash(&mut h);
    h.finish()
}

#[derive(Default, Clone, Copy)]
struct Rule {
    evals: u64,
    failed: u64,
}

pub struct Violation {
    pub rule: String,
    pub detail: String,
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

static HEART: AtomicU64 = AtomicU64::new(0);
static CUR_RULE: Mutex<String> = Mutex::new(String::new());
static WATCH_SCALE: AtomicU64 = AtomicU64::new(1);
const MAX_DISTINCT: usize = 250_000;
pub const MAX_VIOLATIONS: usize = 4;

pub struct Mon {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
    pub profile: String,
    /// Which workload of the monitor to run, for monitors that have several
    pub mode: String,
    pub dict: Dict,
    pub rng: Rng,
    start: Instant,
    budget: Duration,
    rules: BTreeMap<&'static str, Rule>,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64, BuildHasherDefault<Fx>>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    events: Option<std::io::BufWriter<std::fs::File>>,
    n_events: u64,
    out: Option<String>,
    /// Stop at the first observation past the budget, skip exhaustive phases: for interpreted foreign targets
    hard: bool,
}

fn env(name: &str) -> Option<String> {
    std::env::var(name).ok().filter(|s| !s.is_empty())
}

fn env_num(name: &str, default: u64) -> u64 {
    env(name).and_then(|s| s.parse().ok()).unwrap_or(default)
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| {
        let p = p.borrow();
        format!("{} at {}", p.0, p.1)
    })
}

static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

/// The last panic of any thread
pub fn any_panic() -> String {
    ANY_PANIC.lock().map(|s| s.clone()).unwrap_or_default()
}

/// CPU time of this process in clock ticks
fn cpu_ticks() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

impl Mon {
    fn new(prop: &'static str) -> Mon {
        let seed = env_num("VERIF_SEED", 1);
        let shard = env_num("VERIF_SHARD", 0) as usize;
        let stream = env_num("VERIF_STREAM", shard as u64);
        let profile = if cfg!(debug_assertions) { "checked" } else { "release" };
        Mon {
            prop,
            thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
            seed,
            shard,
            shards: env_num("VERIF_SHARDS", 1) as usize,
            profile: env("VERIF_PROFILE").unwrap_or_else(|| profile.into()),
            mode: env("VERIF_MODE").unwrap_or_default(),
            dict: Dict::load(env("VERIF_DICT").as_deref()),
            rng: Rng::new(seed.wrapping_mul(0x1000_0000_01B3) ^ (stream << 40) ^ hash_of(&prop.as_bytes())),
            start: Instant::now(),
            budget: Duration::from_millis(env_num("VERIF_BUDGET_MS", 5000)),
            rules: BTreeMap::new(),
            counters: BTreeMap::new(),
            distinct: HashSet::default(),
            samples: vec![],
            violations: vec![],
            events: env("VERIF_EVENTS")
                .and_then(|p| std::fs::File::create(p).ok())
                .map(std::io::BufWriter::new),
            n_events: 0,
            out: env("VERIF_OUT"),
            hard: env("VERIF_HARD").is_some(),
        }
    }

    /// Whether to keep going: time left, and not already lost
    pub fn go(&self) -> bool {
        self.start.elapsed() < self.budget && self.violations.len() < MAX_VIOLATIONS
    }

    /// Whether executions are slowed down by instrumentation
    pub fn kind_slow(&self) -> bool {
        self.profile != "checked" && self.profile != "release"
    }

    /// Like `go`, for phases that may only use part of the budget (in percent)
    pub fn go_until(&self, percent: u32) -> bool {
        self.start.elapsed() < self.budget * percent / 100 && self.violations.len() < MAX_VIOLATIONS
    }

    /// Whether a phase of fixed size is taking far longer than planned: it then goes on with what it has
    pub fn late(&self) -> bool {
        self.start.elapsed() > self.budget * 4
    }

    pub fn alive(&self) -> bool {
        self.violations.len() < MAX_VIOLATIONS
    }

    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }

    /// Whether exhaustive case number `i` belongs to this shard
    pub fn mine(&self, i: usize) -> bool {
        !self.hard && i % self.shards == self.shard
    }

    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_default() += n;
    }

    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.counters.entry(name.to_string()).or_default();
        *e = (*e).max(n);
    }

    /// Record a distinct non-trivial case
    pub fn seen(&mut self, key: &impl Hash) {
        if self.distinct.len() < MAX_DISTINCT {
            self.distinct.insert(hash_of(key));
        }
        self.stop_if_due();
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 12 {
            let mut s = s();
            if s.len() > 300 {
                let mut n = 297;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }

    /// An observation was judged
    pub fn check(&mut self, rule: &'static str, ok: bool, detail: impl FnOnce() -> String) -> bool {
        HEART.fetch_add(1, Ordering::Relaxed);
        let r = self.rules.entry(rule).or_default();
        r.evals += 1;
        if !ok {
            r.failed += 1;
            self.violate(rule, detail());
        }
        self.stop_if_due();
        ok
    }

    fn stop_if_due(&mut self) {
        if self.hard && !self.go() {
            self.finish();
            std::process::exit(0);
        }
    }

    pub fn violate(&mut self, rule: &str, mut detail: String) {
        if detail.len() > 20_000 {
            let mut n = 20_000;
            while !detail.is_char_boundary(n) {
                n -= 1;
            }
            detail.truncate(n);
        }
        if self.violations.len() < MAX_VIOLATIONS {
            self.violations.push(Violation {
                rule: rule.to_string(),
                detail,
            });
        }
    }

    /// Run code under test that must not panic
    pub fn run<R>(
        &mut self,
        rule: &'static str,
        input: impl Fn() -> String,
        f: impl FnOnce() -> R,
    ) -> Option<R> {
        self.beat(rule);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(_) => {
                let p = last_panic();
                self.check(rule, false, || format!("{}: unexpected panic: {p}", input()));
                None
            }
        }
    }

    /// Run code under test that may panic: `Err` if it did
    pub fn attempt<R>(&mut self, rule: &'static str, f: impl FnOnce() -> R) -> Result<R, String> {
        self.beat(rule);
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
    }

    /// Note that work on a new case starts (for the watchdog)
    pub fn beat(&mut self, rule: &'static str) {
        let h = HEART.fetch_add(1, Ordering::Relaxed);
        if h % 64 == 0 {
            if let Ok(mut c) = CUR_RULE.lock() {
                c.clear();
                c.push_str(rule);
            }
        }
    }

    /// Sampled event log, audited offline. Fields separated by blanks.
    pub fn event(&mut self, every: u64, line: impl FnOnce() -> String) {
        self.n_events += 1;
        if self.n_events % every == 0 {
            if let Some(w) = &mut self.events {
                let _ = writeln!(w, "{}", line());
            }
        }
    }

    fn json(&self) -> String {
        let mut s = String::from("{");
        s += &format!(
            "\"prop\":{},\"profile\":{},\"seed\":{},\"shard\":{},\"wall_ms\":{},",
            q(self.prop),
            q(&self.profile),
            self.seed,
            self.shard,
            self.start.elapsed().as_millis()
        );
        let evals: u64 = self.rules.values().map(|r| r.evals).sum();
        s += &format!("\"evaluations\":{},\"distinct\":{},", evals, self.distinct.len());
        s += "\"rules\":{";
        s += &self
            .rules
            .iter()
            .map(|(k, r)| format!("{}:{}", q(k), r.evals))
            .collect::<Vec<_>>()
            .join(",");
        s += "},\"counters\":{";
        s += &self
            .counters
            .iter()
            .map(|(k, r)| format!("{}:{}", q(k), r))
            .collect::<Vec<_>>()
            .join(",");
        s += "},\"samples\":[";
        s += &self.samples.iter().map(|x| q(x)).collect::<Vec<_>>().join(",");
        s += "],\"violations\":[";
        s += &self
            .violations
            .iter()
            .map(|v| format!("{{\"rule\":{},\"detail\":{}}}", q(&v.rule), q(&v.detail)))
            .collect::<Vec<_>>()
            .join(",");
        s += "]}";
        s
    }

    fn finish(&mut self) {
        if let Some(w) = &mut self.events {
            let _ = w.flush();
        }
        if let Some(p) = env("VERIF_DISTINCT") {
            let bytes: Vec<u8> = self.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
            let _ = std::fs::write(p, bytes);
        }
        let j = self.json();
        match &self.out {
            Some(p) => std::fs::write(p, j).expect("write result"),
            None => println!("{j}"),
        }
    }
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Progress made by any thread
pub fn pulse() {
    HEART.fetch_add(1, Ordering::Relaxed);
}

/// For workloads with threads of their own: the limit then covers a whole round, so it is larger
pub fn watchdog_idle() {
    WATCH_SCALE.store(2, Ordering::Relaxed);
}

fn watchdog(prop: &'static str, out: Option<String>, profile: String) {
    // A case that normally takes microseconds and burns this much CPU time does not terminate
    let limit_ticks = env_num("VERIF_HANG_CPU_S", 40) * 100;
    std::thread::spawn(move || {
        let mut last = HEART.load(Ordering::Relaxed);
        let Some(mut since) = cpu_ticks() else { return };
        let mut idle = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = HEART.load(Ordering::Relaxed);
            let Some(ticks) = cpu_ticks() else { return };
            if now != last {
                last = now;
                since = ticks;
                idle = 0;
                continue;
            }
            idle += 1;
            // Nothing runs and nothing will: all threads wait for each other
            let stuck = idle > 120 && ticks.saturating_sub(since) < 20;
            if stuck || ticks.saturating_sub(since) > limit_ticks * WATCH_SCALE.load(Ordering::Relaxed) {
                let rule = CUR_RULE.lock().map(|c| c.clone()).unwrap_or_default();
                let detail = format!(
                    "an operation did not return ({}; near rule {rule})",
                    if stuck { "all threads are blocked".to_string() } else { format!("{} s of CPU time used", limit_ticks / 100) }
                );
                let j = format!(
                    "{{\"prop\":{},\"profile\":{},\"seed\":0,\"shard\":0,\"wall_ms\":0,\"evaluations\":{now},\"distinct\":0,\"rules\":{{}},\"counters\":{{}},\"samples\":[],\"violations\":[{{\"rule\":\"termination\",\"detail\":{}}}]}}",
                    q(prop), q(&profile), q(&detail)
                );
                if let Some(p) = &out {
                    let _ = std::fs::write(p, j);
                } else {
                    println!("{j}");
                }
                std::process::exit(0);
            }
        }
    });
}

/// Entry point of every monitor
pub fn run(prop: &'static str, body: impl FnOnce(&mut Mon)) {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut a) = ANY_PANIC.lock() {
            *a = format!("{msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = (msg, loc));
    }));
    if env("VERIF_DRY").is_some() {
        return;
    }
    let mut m = Mon::new(prop);
    if !cfg!(miri) {
        crate::big::self_test(m.seed);
        watchdog(prop, m.out.clone(), m.profile.clone());
    }
    let r = catch_unwind(AssertUnwindSafe(|| body(&mut m)));
    if r.is_err() {
        let (msg, loc) = LAST_PANIC.with(|p| p.borrow().clone());
        // A panic raised by the harness itself is a fault of the machinery, not a verdict
        if loc.starts_with("src/") || loc.contains("/harness/") {
            eprintln!("MACHINERY: {msg} at {loc}");
            std::process::exit(70);
        }
        m.violate("no-panic", format!("unexpected panic: {msg} at {loc}"));
    }
    m.finish();
}
