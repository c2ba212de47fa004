#!/usr/bin/env python3
"""Build the monitors of one property from /repo's working tree, run them, judge what they observed.

usage: run_check.py <property> [quick|thorough]
       run_check.py --replay <file written by an earlier violation>

exit 0: nothing violated the property; exit 1: VIOLATION line printed; exit 2: no answer (build or
machinery fault), never a verdict about the code.
"""
import glob, json, os, re, resource, signal, struct, subprocess, sys, threading, time
from array import array

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import audit
from plan import PLAN, RULES

REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
OUT = os.path.join(HERE, "out")
TARGET = os.path.join(HERE, "target")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")
HOST = "x86_64-unknown-linux-gnu"
# Interpreted for another platform: 32-bit words, and most significant byte first
FOREIGN = {"miri32": "i686-unknown-linux-gnu", "miribe": "s390x-unknown-linux-gnu"}
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


def log(*a):
    print("[check]", *a, flush=True)


def literals():
    """Integer literals of the code under test: thresholds worth generating inputs around"""
    nums = set()
    for f in sorted(glob.glob(REPO + "/crates/*/src/**/*.rs", recursive=True)):
        try:
            src = open(f, encoding="utf-8", errors="replace").read()
        except OSError:
            continue
        src = re.sub(r"//[^\n]*", "", src)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)", src):
            t = m.group(1).replace("_", "")
            try:
                n = int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)
            except ValueError:
                continue
            if n < 1 << 128:
                nums.add(n)
    for k in (7, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64, 126, 127):
        nums |= {(1 << k) - 1, 1 << k}
    nums.add((1 << 128) - 1)
    return sorted(nums)


def build_cmd(kind, binname):
    """(argv, env additions, path of the program or None when it is run through cargo)"""
    if kind in ("checked", "release"):
        d = os.path.join(TARGET, kind)
        return (["cargo", "build", "--offline", "-q", "--profile", kind, "--bin", binname, "--target-dir", d], {"RUSTFLAGS": "-Awarnings"},
                os.path.join(d, kind, binname))
    if kind == "asan":
        d = os.path.join(TARGET, "asan")
        return (["cargo", "+nightly", "build", "--offline", "-q", "--profile", "san", "--target", HOST, "--bin", binname,
                 "--target-dir", d], {"RUSTFLAGS": "-Awarnings -Zsanitizer=address -Cforce-frame-pointers=yes"},
                os.path.join(d, HOST, "san", binname))
    if kind == "tsan":
        d = os.path.join(TARGET, "tsan")
        return (["cargo", "+nightly", "build", "--offline", "-q", "--profile", "san", "--target", HOST, "-Zbuild-std",
                 "--bin", binname, "--target-dir", d], {"RUSTFLAGS": "-Awarnings -Zsanitizer=thread"},
                os.path.join(d, HOST, "san", binname))
    if kind == "msan":
        d = os.path.join(TARGET, "msan")
        return (["cargo", "+nightly", "build", "--offline", "-q", "--profile", "san", "--target", HOST, "-Zbuild-std",
                 "--bin", binname, "--target-dir", d],
                {"RUSTFLAGS": "-Awarnings -Zsanitizer=memory -Zsanitizer-memory-track-origins"},
                os.path.join(d, HOST, "san", binname))
    if kind.startswith("miri"):
        d = os.path.join(TARGET, kind)
        # Builds the interpreter's sysroot and the dependencies; the program itself is interpreted
        return (["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", binname, "--target-dir", d]
                + (["--target", FOREIGN[kind]] if kind in FOREIGN else []),
                {"VERIF_DRY": "1", "RUSTFLAGS": "-Awarnings", "MIRIFLAGS": "-Zmiri-disable-isolation"}, None)
    raise SystemExit("unknown kind " + kind)


def base_env(extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_")}
    for k in ("RUSTFLAGS", "MIRIFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
        env.pop(k, None)
    env.update(extra)
    return env


class Pass:
    """One execution of a monitor"""

    def __init__(self, prop, kind, binname, shard, shards, stream, budget_ms, tier, seed, flags="", args=None):
        self.prop, self.kind, self.binname = prop, kind, binname
        self.shard, self.shards, self.stream = shard, shards, stream
        self.budget_ms, self.tier, self.seed, self.flags = budget_ms, tier, seed, flags
        self.mode = args or ""
        self.tag = "%s-%s-%s%d" % (prop, kind, (args + "-") if args else "", stream)
        self.res = None
        self.fault = None
        self.violations = []
        self.wall = 0.0

    def files(self):
        p = os.path.join(OUT, self.tag)
        return p + ".json", p + ".events", p + ".distinct", p + ".log"

    def run(self, dict_file):
        out, events, distinct, logf = self.files()
        for f in (out, events, distinct, logf):
            if os.path.exists(f):
                os.unlink(f)
        env = {
            "VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier, "VERIF_SHARD": str(self.shard),
            "VERIF_SHARDS": str(self.shards), "VERIF_STREAM": str(self.stream),
            "VERIF_BUDGET_MS": str(self.budget_ms), "VERIF_DICT": dict_file, "VERIF_EVENTS": events,
            "VERIF_DISTINCT": distinct, "VERIF_PROFILE": self.kind, "VERIF_OUT": out, "VERIF_MODE": self.mode,
        }
        argv = [build_cmd(self.kind, self.binname)[2]]
        limit = self.budget_ms / 1000 * 3 + 240
        if self.kind == "asan":
            env["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=87:allocator_may_return_null=1"
        elif self.kind == "tsan":
            env["TSAN_OPTIONS"] = "exitcode=87:halt_on_error=1:report_signal_unsafe=0"
        elif self.kind == "msan":
            env["MSAN_OPTIONS"] = "exitcode=87:halt_on_error=1"
        elif self.kind.startswith("miri"):
            cmd, _, _ = build_cmd(self.kind, self.binname)
            if self.kind in FOREIGN:
                env["VERIF_HARD"] = "1"
            argv = cmd
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation " + self.flags
            env["RUSTFLAGS"] = "-Awarnings"
        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.kind in ("checked", "release"):
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        t = time.monotonic()
        with open(logf, "wb") as lf:
            p = subprocess.Popen(argv, cwd=HARNESS, env=base_env(env), stdout=lf, stderr=lf, preexec_fn=limits,
                                 start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                self.fault = "no result within %d s" % limit
                self.wall = time.monotonic() - t
                return
        self.wall = time.monotonic() - t
        text = open(logf, encoding="utf-8", errors="replace").read()
        try:
            self.res = json.load(open(out))
        except (OSError, ValueError):
            self.res = None
        if self.res:
            self.violations += [(v["rule"], v["detail"]) for v in self.res["violations"]]
        if rc != 0:
            self.judge_exit(rc, text)
        elif self.res is None and self.fault is None:
            self.fault = "no result written: " + text[-500:]
        if self.res and not self.violations:
            n, bad = audit.audit(events)
            self.res["audited"] = n
            self.violations += [("offline audit of the event log", b) for b in bad[:2]]

    def judge_exit(self, rc, text):
        tail = text[-3000:]
        if self.kind == "asan" and "ERROR: AddressSanitizer" in text:
            if "allocation-size-too-big" in text or "out-of-memory" in text:
                self.fault = "sanitizer: " + tail[-400:]
            else:
                self.violations.append(("address sanitizer", excerpt(text, "ERROR: AddressSanitizer")))
        elif self.kind == "asan" and "ERROR: LeakSanitizer" in text:
            if "LeakSanitizer has encountered a fatal error" in text:
                self.fault = "leak sanitizer cannot run here"
            else:
                self.violations.append(("leak sanitizer", excerpt(text, "ERROR: LeakSanitizer")))
        elif self.kind == "tsan" and "WARNING: ThreadSanitizer" in text:
            self.violations.append(("thread sanitizer", excerpt(text, "WARNING: ThreadSanitizer")))
        elif self.kind == "msan" and "WARNING: MemorySanitizer" in text:
            self.violations.append(("memory sanitizer", excerpt(text, "WARNING: MemorySanitizer")))
        elif self.kind.startswith("miri") and "Undefined Behavior" in text:
            self.violations.append(("undefined behaviour (miri)", excerpt(text, "Undefined Behavior")))
        elif self.kind.startswith("miri") and ("error: memory leaked" in text or "error: deadlock" in text
                                      or "the evaluated program deadlocked" in text):
            self.violations.append(("miri", excerpt(text, "error:")))
        elif self.kind in ("checked", "release") and rc == -signal.SIGABRT and "memory allocation of" in text:
            # The workloads need a small fraction of the 6 GB of address space a run is given
            self.violations.append(("bounded memory", "an operation asked for more memory than there can be use for: " + tail))
        elif rc < 0 and -rc in CRASH and "memory allocation of" not in text and "out of memory" not in text.lower():
            self.violations.append(("crash", "terminated by signal %d (%s): %s" % (-rc, signal.Signals(-rc).name, tail)))
        elif self.kind.startswith("miri") and "unsupported operation" in text:
            self.fault = "miri: " + excerpt(text, "unsupported operation")
        elif not self.violations:
            self.fault = "exit status %d: %s" % (rc, tail[-600:])


def excerpt(text, mark):
    i = max(0, text.find(mark) - 100)
    return text[i:i + 3500]


def known_findings(prop):
    """Lines `finding: property=<id> rule=<rule> match=<text in the detail> :: <what fails>`"""
    out = []
    try:
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) rule=(.*?) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    except OSError:
        pass
    return out


def build(kinds, binname):
    """Build all kinds at once; returns {kind: error}"""
    errs, sysroot = {}, threading.Lock()

    def one(kind):
        argv, env, _ = build_cmd(kind, binname)
        if kind.startswith("miri"):
            # sysroot first, so that parallel runs do not each try to build it
            to = ["--target", FOREIGN[kind]] if kind in FOREIGN else []
            with sysroot:
                p = subprocess.run(["cargo", "+nightly", "miri", "setup", "--offline"] + to, cwd=HARNESS, env=base_env({}),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode != 0:
                    p = subprocess.run(["cargo", "+nightly", "miri", "setup"] + to, cwd=HARNESS, env=base_env({}),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        p = subprocess.run(argv, cwd=HARNESS, env=base_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            errs[kind] = p.stdout.decode("utf-8", "replace")[-3000:]

    ts = [threading.Thread(target=one, args=(k,)) for k in kinds]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return errs


def run_all(passes, dict_file, width=8):
    queue, lock = list(passes), threading.Lock()

    def worker():
        while True:
            with lock:
                if not queue or any(p.violations for p in passes if p.res):
                    return
                p = queue.pop(0)
            p.run(dict_file)

    ts = [threading.Thread(target=worker) for _ in range(min(width, len(queue)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


def distinct_count(passes):
    seen = set()
    for p in passes:
        try:
            a = array("Q")
            a.frombytes(open(p.files()[2], "rb").read())
            seen.update(a)
        except (OSError, ValueError):
            pass
    return len(seen)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.monotonic()
    for d in (OUT, EVIDENCE, TARGET):
        os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(OUT, prop + "-*")):
        os.unlink(f)
    dict_file = os.path.join(OUT, prop + "-dict.txt")
    open(dict_file, "w").write("\n".join(map(str, literals())))

    plan = PLAN(prop, tier)
    kinds = []
    for e in plan:
        if e["kind"] not in kinds:
            kinds.append(e["kind"])
    binname = prop.lower()
    errs = build(kinds, binname)
    if errs:
        for k, e in errs.items():
            log("build (%s) failed:\n%s" % (k, e))
        log("NO ANSWER: the monitors do not build against this tree")
        return 2
    build_s = time.monotonic() - t0

    passes, stream = [], 0
    for e in plan:
        for i in range(e["n"]):
            passes.append(Pass(prop, e["kind"], binname, i, e["n"], stream, e["ms"], tier, seed,
                               e.get("flags", "").replace("%SEED%", str(seed * 1000 + i)), e.get("mode")))
            stream += 1
    run_all(passes, dict_file)

    findings = known_findings(prop)
    viol, known, faults = [], [], []
    for p in passes:
        if p.fault:
            faults.append((p, p.fault))
        for rule, detail in p.violations:
            hit = [f for f in findings if f[0] == rule and f[1] in detail]
            if hit:
                known.append(hit[0][2])
            else:
                viol.append((p, rule, detail))

    evidence(prop, tier, seed, passes, viol, faults, time.monotonic() - t0, build_s)
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for p, f in faults:
        log("machinery fault in %s: %s" % (p.tag, f))
    if viol:
        for i, (p, rule, detail) in enumerate(viol[:4]):
            path = os.path.join(OUT, "%s-violation-%d.json" % (prop, i))
            json.dump({
                "property": prop, "rule": rule, "detail": detail, "kind": p.kind, "mode": p.mode, "seed": seed,
                "tier": tier, "shard": p.shard, "shards": p.shards, "stream": p.stream, "budget_ms": p.budget_ms,
                "flags": p.flags, "replay": "python3 %s --replay %s" % (os.path.abspath(__file__), path),
            }, open(path, "w"), indent=1)
            log("%s [%s]: %s" % (rule, p.kind, detail[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if faults:
        log("NO ANSWER")
        return 2
    ev = sum(p.res["evaluations"] for p in passes if p.res)
    if ev == 0:
        log("NO ANSWER: the monitors observed nothing")
        return 2
    log("%s %s: held on %d observations (%.1f s)" % (prop, tier, ev, time.monotonic() - t0))
    return 0


def evidence(prop, tier, seed, passes, viol, faults, wall, build_s):
    done = [p for p in passes if p.res]
    rules, counters, samples = {}, {}, []
    for p in done:
        for k, v in p.res["rules"].items():
            rules[k] = rules.get(k, 0) + v
        for k, v in p.res["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith(("largest", "longest", "most", "deepest")) else counters.get(k, 0) + v
        for s in p.res["samples"][:2]:
            if len(samples) < 12:
                samples.append(s)
    per_kind = {}
    for p in done:
        k = p.kind + ("/" + p.mode if p.mode else "")
        e = per_kind.setdefault(k, {"executions": 0, "observations": 0, "seconds": 0.0})
        e["executions"] += 1
        e["observations"] += p.res["evaluations"]
        e["seconds"] = round(e["seconds"] + p.wall, 1)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p.res["evaluations"] for p in done),
            "distinct_nontrivial": distinct_count(done),
            "rule": RULES[prop],
            "samples": samples,
            "observations_per_rule": rules,
            "observed": counters,
            "instrumented_executions": per_kind,
            "events_audited_offline": sum(p.res.get("audited", 0) for p in done),
            "build_s": round(build_s, 1),
        },
        "assumptions": [
            "what is not reached by the generated workloads is not judged",
            "the reference arithmetic in harness/src/big.rs (self-tested on every run, sampled results re-derived with Python integers) is right",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if faults:
        ev["coverage"]["faults"] = [f for _, f in faults]
    json.dump(ev, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1)


def replay(path):
    v = json.load(open(path))
    os.makedirs(OUT, exist_ok=True)
    prop = v["property"]
    dict_file = os.path.join(OUT, prop + "-dict.txt")
    if not os.path.exists(dict_file):
        open(dict_file, "w").write("\n".join(map(str, literals())))
    errs = build([v["kind"]], prop.lower())
    if errs:
        log(errs)
        return 2
    p = Pass(prop, v["kind"], prop.lower(), v["shard"], v["shards"], v["stream"], v["budget_ms"] * 4, v["tier"],
             v["seed"], v["flags"], v["mode"] or None)
    p.run(dict_file)
    for rule, detail in p.violations:
        log("%s: %s" % (rule, detail))
    if p.violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    log("not reproduced", p.fault or "")
    return 0


if __name__ == "__main__":
    sys.exit(main())
