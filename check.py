#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded simulation (see DESIGN.md).
   check.py --replay FILE: rebuilds the simulator from /repo and replays one file.
   check.py --setup: builds once, and checks that replay is deterministic."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
NCPU = os.cpu_count() or 1
sys.path.insert(0, V)
from plan import PLAN, SCENARIO_TEXT, FAULT_TEXT, RELEASE_SHARE

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(3)

def build(out):
    p = subprocess.run(["bash", V + "/sim/build.sh", out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not os.path.exists(out + "/rel/simrun"):
        die("the simulator does not build with this tree:\n" + p.stdout[-3000:])
    return out + "/simrun"

def binary(sim, config):
    """the simulator with the library as its tests build it, or as released"""
    return sim if config == "debug" else os.path.dirname(sim) + "/rel/simrun"

_cpu_lock = threading.Lock()
_cpus = list(range(NCPU))
def on_cpu(cmd, timeout=None):
    with _cpu_lock:
        c = _cpus.pop()
    try:
        return subprocess.run(cmd + ["--cpu", str(c)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    finally:
        with _cpu_lock:
            _cpus.append(c)

# ------------------------------------------------------------------ replay files
class Case:
    def __init__(self, path=None):
        self.head, self.ops, self.faults, self.devs = [], [], [], []
        if path:
            for l in open(path):
                w = l.split()
                if not w: continue
                if w[0] == "op": self.ops.append(tuple(map(int, w[1:])))
                elif w[0] == "fault": self.faults.append(tuple(map(int, w[1:])))
                elif w[0] == "dev": self.devs.append(tuple(map(int, w[1:])))
                elif w[0] != "#": self.head.append(l.rstrip("\n"))
    def copy(self):
        c = Case(); c.head, c.ops, c.faults, c.devs = list(self.head), list(self.ops), list(self.faults), list(self.devs)
        return c
    def write(self, path, notes=()):
        with open(path, "w") as f:
            for l in self.head: f.write(l + "\n")
            for k, rows in (("op", self.ops), ("fault", self.faults), ("dev", self.devs)):
                for r in rows: f.write(k + " " + " ".join(map(str, r)) + "\n")
            for n in notes: f.write("# " + n + "\n")
    def config(self): return next((l.split()[1] for l in self.head if l.startswith("build ")), "debug")
    def size(self): return (len(self.ops), len(self.faults), len(self.devs))

def run_replay(sim, path, wall=20):
    p = on_cpu([binary(sim, Case(path).config()), "--replay", path, "--wall", str(wall)])
    try: d = json.loads(p.stdout)
    except Exception: return {"rc": 2, "class": "harness", "message": p.stdout[-200:] + p.stderr[-300:], "hash": ""}
    return d

class Minimiser:
    """Delta debugging over operations, faults and scheduling decisions; the class of violation must stay."""
    def __init__(self, sim, tmp, case, cls, seconds):
        self.sim, self.tmp, self.best, self.cls = sim, tmp, case, cls
        self.end = time.time() + seconds
        self.n = 0
    def left(self): return time.time() < self.end
    def test(self, c, tag="m"):
        p = f"{self.tmp}/{tag}{threading.get_ident()}.replay"
        c.write(p)
        d = run_replay(self.sim, p)
        self.n += 1
        return d["rc"] == 1 and d["class"] == self.cls
    def test_any_schedule(self, c, tries):
        """the reduced program, under the recorded schedule, under the default one, then under fresh ones"""
        if self.test(c): return c
        if tries <= 0: return None
        if c.devs:
            d = c.copy(); d.devs = []
            if self.test(d): return d
        p, o = f"{self.tmp}/a{threading.get_ident()}.replay", f"{self.tmp}/o{threading.get_ident()}.replay"
        c.write(p)
        r = on_cpu([binary(self.sim, c.config()), "--replay", p, "--tries", str(tries), "--class", self.cls, "--out", o])
        self.n += tries
        if r.returncode == 1 and os.path.exists(o):
            d = Case(o); os.unlink(o)
            return d
        return None
    def ddmin(self, get, put, tries):
        items = get(self.best)
        n = 2
        while len(items) >= 1 and self.left():
            chunk = max(1, len(items) // n)
            done = False
            starts = list(range(0, len(items), chunk))
            with cf.ThreadPoolExecutor(NCPU) as ex:
                cands = []
                for s in starts:
                    c = self.best.copy(); put(c, items[:s] + items[s + chunk:]); cands.append(c)
                for k in range(0, len(cands), NCPU):
                    if not self.left(): break
                    for r in ex.map(lambda c: self.test_any_schedule(c, tries), cands[k:k + NCPU]):
                        if r is not None and not done:
                            self.best = r; done = True
                    if done: break
            if done:
                items = get(self.best); n = max(2, n - 1)
            elif chunk == 1: break
            else: n = min(len(items), n * 2)
    def subtrees(self, tries):
        """remove an operation with everything below it, biggest first"""
        progress = True
        while progress and self.left():
            progress = False
            ops = self.best.ops
            spans = []
            for i, o in enumerate(ops):
                j = i + 1
                while j < len(ops) and ops[j][0] > o[0]: j += 1
                spans.append((j - i, i, j))
            spans.sort(key=lambda s: -s[0])
            cands = []
            for _, i, j in spans:
                c = self.best.copy(); c.ops = ops[:i] + ops[j:]; cands.append(c)
            for _, i, j in spans:      # an operation replaced by its children
                if j - i > 1:
                    c = self.best.copy(); c.ops = ops[:i] + [(o[0] - 1,) + o[1:] for o in ops[i + 1:j]] + ops[j:]; cands.append(c)
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for k in range(0, len(cands), NCPU):
                    if not self.left(): break
                    r = [x for x in ex.map(lambda c: self.test_any_schedule(c, tries), cands[k:k + NCPU]) if x is not None]
                    if r:
                        self.best = min(r, key=lambda c: c.size()); progress = True
                        break
    def run(self):
        c = self.best.copy(); c.devs = []
        threads = bool(self.best.devs)
        if threads and self.test(c): self.best = c; threads = False
        tries = 150 if threads else 0
        g, p = (lambda x: x.faults), (lambda x, v: setattr(x, "faults", v))
        self.ddmin(g, p, tries)
        self.subtrees(tries)
        self.ddmin(g, p, tries)
        if self.best.devs:
            self.end = max(self.end, time.time() + 20)
            self.ddmin(lambda x: x.devs, lambda x, v: setattr(x, "devs", v), 0)
        return self.best

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = V + "/known_findings.json"
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k["property"] == prop: out.append(k)
    return out
def matches(k, scen, variant, v):
    return k["scenario"] == scen and k["variant"] == variant and re.search(k["class"], v["class"]) and re.search(k["message"], v["message"])

# ------------------------------------------------------------------ one property
def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    spec = PLAN[prop]
    budget = 700 if tier == "thorough" else 360           # a cap only: the counts decide
    factor = 60 if tier == "thorough" else 3
    tmp = tempfile.mkdtemp(prefix="cr-sim-")
    rc = 3
    try:
        sim = build(tmp)
        tb = time.time() - t0
        knowns = known_findings(prop)
        tasks = []
        for scen, variant, count in spec["runs"]:
            total = count if count <= 4 else count * factor
            chunk = max(1, min(total, max(200, total // (NCPU * 3))))
            for k, f in enumerate(range(0, total, chunk)): tasks.append((scen, variant, f, min(chunk, total - f), "release" if k % 4 >= 4 - RELEASE_SHARE else "debug"))
        # interleave the scenarios, so that a time cap cuts all alike
        tasks.sort(key=lambda t: t[2] / max(1, next(c for s, v, c in spec["runs"] if (s, v) == (t[0], t[1]))))
        stop = threading.Event()
        found, known_seen, results, errors, skipped = [], {}, [], [], [0]
        lock = threading.Lock()
        def work(k):
            scen, variant, frm, cnt, config = tasks[k]
            done = 0
            while done < cnt:
                left = t0 + budget - time.time()
                if stop.is_set() or left <= 0:
                    with lock: skipped[0] += cnt - done
                    return
                h = f"{tmp}/h{k}.{done}"
                p = on_cpu([binary(sim, config), "--scenario", scen, "--variant", str(variant), "--seed", str(seed), "--from", str(frm + done),
                            "--count", str(cnt - done), "--stop", "1", "--outdir", tmp, "--hashes", h, "--max-seconds", str(max(1, left))])
                try: d = json.loads(p.stdout)
                except Exception: d = {"harness": 1, "violations": [], "runs": 0}
                if d["harness"]:
                    with lock: errors.append(f"{scen}/{variant} {config} from {frm + done}: {p.stderr[-400:]}")
                    stop.set(); return
                d["scen"], d["variant"], d["hf"], d["config"] = scen, variant, h, config
                with lock: results.append(d)
                if not d["violations"]:
                    with lock: skipped[0] += cnt - done - d["runs"]
                    return
                v = d["violations"][0]
                k2 = next((i for i, x in enumerate(knowns) if matches(x, scen, variant, v)), None)
                if k2 is None:
                    with lock: found.append((scen, variant, v))
                    stop.set(); return
                with lock: known_seen[k2] = v
                done = v["index"] - frm + 1
        with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(work, range(len(tasks))))
        if errors and not found: die("simulator failure: " + errors[0])
        for i in sorted(known_seen):
            print(f"KNOWN-FINDING: property={prop} {knowns[i]['what']}", flush=True)
        viol = 0
        if found:
            # smallest program first; every report is replayed in fresh processes before it counts
            found.sort(key=lambda f: os.path.getsize(f[2]["path"]))
            for scen, variant, v in found:
                a, b = run_replay(sim, v["path"]), run_replay(sim, v["path"])
                if a["rc"] == b["rc"] == 1 and a["class"] == b["class"] == v["class"] and a["hash"] == b["hash"]: break
            else:
                die(f"no violation replays: {v} then {a} and {b}")
            case = Case(v["path"])
            m = Minimiser(sim, tmp, case, v["class"], 45)
            best = m.run()
            os.makedirs(V + "/replays", exist_ok=True)
            path = f"{V}/replays/{prop}-{scen}-{variant}-{v['index']}.replay"
            best.write(path)
            r1, r2 = run_replay(sim, path), run_replay(sim, path)
            if not (r1["rc"] == r2["rc"] == 1 and r1["class"] == v["class"] and r1["hash"] == r2["hash"]):
                best = case; best.write(path); r1 = run_replay(sim, path)
            best.write(path, [f"property {prop}", f"class {r1['class']}", f"message {r1['message']}", f"hash {r1['hash']}",
                              f"found: VERIF_SEED {seed}, scenario {scen}, variant {variant}, run {v['index']}, {case.config()} configuration",
                              f"minimised from (operations, faults, scheduling decisions) {case.size()} to {best.size()} in {m.n} runs",
                              "replay: python3 check.py --replay THIS_FILE"])
            print(f"{r1['class']}: {r1['message']}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            viol = 1
        evidence(prop, spec, tier, seed, tmp, results, viol, time.time() - t0, tb, skipped[0], known_seen, knowns)
        if not viol:
            n = sum(d["runs"] for d in results)
            print(f"{prop}: held on {n} simulated runs ({time.time() - t0:.0f} s)")
        rc = 1 if viol else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def evidence(prop, spec, tier, seed, tmp, results, viol, wall, tb, skipped, known_seen, knowns):
    import array
    distinct, per, fired, strat = set(), {}, {}, [0] * 5
    tot = dict(runs=0, steps=0, switches=0, simtime_ns=0, accesses=0, atomics=0, allocs=0, threads=0, exits=0, stalled=0)
    probes = [0] * 32
    maxthr = maxsteps = 0
    for d in results:
        a = array.array("Q")
        try: a.frombytes(open(d["hf"], "rb").read())
        except OSError: pass
        s = set(a); s.discard(0)
        distinct |= s
        key = f"{d['scen']}/{d['variant']}"
        e = per.setdefault(key, dict(runs=0, what=SCENARIO_TEXT.get((d["scen"], d["variant"]), SCENARIO_TEXT.get(d["scen"], ""))))
        e["runs"] += d["runs"]; e[d["config"] + "_configuration"] = e.get(d["config"] + "_configuration", 0) + d["runs"]
        for k in tot: tot[k] += d[k]
        maxthr = max(maxthr, d["max_threads"])
        maxsteps = max(maxsteps, d["max_steps"])
        for k, (n, r) in d["fired"].items():
            f = fired.setdefault(k, [0, 0]); f[0] += n; f[1] += r
        for i, x in enumerate(d["strategies"]): strat[i] += x
        for i, x in enumerate(d["probes"]): probes[i] += x
    run_s = max(0.001, wall - tb)
    samples = []
    for scen, variant in sorted({(s, v) for s, v, _ in spec["runs"]})[:2]:
        c = f"{tmp}/sample.replay"
        p = subprocess.run([tmp + "/simrun", "--scenario", scen, "--variant", str(variant), "--seed", str(seed), "--from", "3", "--count", "1", "--sample", c],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if os.path.exists(c):
            x = Case(c)
            samples.append(dict(scenario=scen, variant=variant, operations=[list(o) for o in x.ops][:80], faults=[list(o) for o in x.faults],
                                scheduling_decisions=[list(o) for o in x.devs][:40], decisions_total=len(x.devs)))
            os.unlink(c)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=viol,
        coverage=dict(
            evaluations=tot["runs"], distinct_nontrivial=len(distinct),
            rule="one evaluation is one simulated run of a program generated from one seed. Runs are told apart by a hash over every context switch "
                 "(from, to, position) and every event of the recorded history; non-trivial: at least one fault, signal or user exception took effect, or the threads interleaved (more than one context switch)",
            samples=samples,
            runs_per_hour=int(tot["runs"] * 3600 / run_s), seeds_per_hour=int(tot["runs"] * 3600 / run_s),
            simulated_seconds=round(tot["simtime_ns"] / 1e9, 3), scheduling_steps=tot["steps"], context_switches=tot["switches"],
            memory_accesses_checked=tot["accesses"], atomic_operations=tot["atomics"], allocations=tot["allocs"],
            threads_simulated=tot["threads"], most_threads_in_one_run=maxthr, most_steps_in_one_run=maxsteps, runs_ended_by_uncaught_exception=tot["exits"], runs_repeated_because_the_machine_stalled=tot["stalled"],
            faults={k: dict(fired=n, runs_with=r) for k, (n, r) in sorted(fired.items())}, fault_meaning=FAULT_TEXT,
            scheduling_strategies=dict(zip(["run to block", "random gaps", "priorities with change points", "biased to synchronisation", "random at blocking points"], strat)),
            scenarios=per, reach_probes=[p for p in probes], runs_skipped_for_time=skipped, build_s=round(tb, 2),
            real_components=spec.get("real", "src/raii.c, src/except.c, src/arena.c, src/swar.c, src/future.c and the headers, compiled from /repo's working tree"),
            stubbed_components="C11 threads, mutexes, condition variables and TSS (simulator), the heap (simulator), clock and sleep, CPU count, process exit, backtrace(), "
                               "rpmalloc's initialisation; signals are real ones, delivered synchronously",
            known_findings_seen=[knowns[i]["what"] for i in known_seen]),
        assumptions=["sampled, not exhaustive: a clean run is evidence, not proof",
                     "sequentially consistent interleavings at memory-access granularity; memory-order weaknesses only as missing happens-before edges in the checked cells",
                     "x86-64 Linux, gcc, the configuration of the repository's offline build (libc allocator names, no rpmalloc), with USE_DEBUG as its tests and, in a quarter of the runs, without"])
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f: json.dump(ev, f, indent=1)

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        tmp = tempfile.mkdtemp(prefix="cr-sim-")
        try:
            d = run_replay(build(tmp), sys.argv[2])
            print(json.dumps(d))
            sys.exit(1 if d["rc"] == 1 else 0 if d["rc"] == 0 else 3)
        finally: shutil.rmtree(tmp, ignore_errors=True)
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        tmp = tempfile.mkdtemp(prefix="cr-sim-")
        try:
            sim = build(tmp)
            outs = []
            for scen, variant in sorted({(s, v) for p in PLAN.values() for s, v, _ in p["runs"]}):
                h = []
                for k in range(4):
                    f = f"{tmp}/d{k}"
                    on_cpu([binary(sim, "debug" if k < 2 else "release"), "--scenario", scen, "--variant", str(variant), "--seed", "77", "--count", "40", "--outdir", tmp, "--hashes", f])
                    h.append(open(f, "rb").read())
                if h[0] != h[1] or h[2] != h[3]: die(f"{scen}/{variant} is not deterministic")
            print("setup: simulator builds, 40 runs per scenario repeat exactly")
            sys.exit(0)
        finally: shutil.rmtree(tmp, ignore_errors=True)
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
        print(__doc__); sys.exit(2)
    check(sys.argv[1])

main()
