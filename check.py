#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded deterministic simulation of the code in /repo.

VERIF_SEED picks the seeds, VERIF_TIER (quick | thorough) how many.  Exit 0: nothing found.  Exit 1 and a VIOLATION line:
a violation, with a minimised replay file.  Exit 3: the check could not run."""
import os, sys, json, subprocess, threading, collections, time, hashlib, fcntl, copy, signal
HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
BIN = os.path.join(TARGET, "h", "debug", "simlsp")
LSP = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18"]
#        own cases, other profiles' cases, wall-clock cap of the exploration in seconds
BUDGET = {"quick": (1500, 500, 110), "thorough": (60000, 20000, 3000)}
SHARE = {"C10": (600, 200), "C15": (600, 300), "C17": (5000, 0), "C23": (4000, 0), "C19": (12000, 0), "C24": (12000, 0)}
EXT = ["C19", "C24"]                    # properties of the editor extension: another simulator, in JavaScript
ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"
def simulator(prop): return ["node", os.path.join(HERE, "sim", "ext", "sim.js")] if prop in EXT else [BIN]
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))

def log(*a): print(*a, flush=True)

def build_ext():
    """bundles the extension's sources as they are; every package they import is provided by the simulator"""
    os.makedirs(os.path.join(TARGET, "ext"), exist_ok=True)
    lock = open(os.path.join(TARGET, "lock-ext"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(os.environ.get("SIM_REPO", "/repo"), "editors", "code", "src", "extension.ts")
    r = subprocess.run([ESBUILD, src, "--bundle", "--outfile=" + os.path.join(TARGET, "ext", "ext.cjs"), "--packages=external", "--format=cjs", "--platform=node", "--target=node20", "--supported:dynamic-import=false", "--log-level=error"], capture_output=True, text=True)
    if r.returncode: log("the extension cannot be bundled:"); log(r.stderr[-3000:]); sys.exit(3)
    lock.close()

def build(prop=None):
    if prop in EXT: return build_ext()
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    for t in ("stage.py", "genmain.py"):
        r = subprocess.run([sys.executable, os.path.join(HERE, "tools", t)], capture_output=True, text=True)
        if r.returncode: log(f"cannot stage /repo ({t}): {r.stderr[-2000:]}"); sys.exit(3)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(TARGET, "h"))
    r = subprocess.run(["cargo", "build", "--offline", "--message-format", "short"], cwd=os.path.join(HERE, "sim", "harness"), env=env, capture_output=True, text=True)
    if r.returncode:
        log("build failed:"); log("\n".join(l for l in r.stderr.splitlines() if "error" in l)[:3000] or r.stderr[-3000:]); sys.exit(3)
    lock.close()

class Worker:
    """one long-lived process; every case runs in a child it forks"""
    def __init__(self, prop=None): self.p = None; self.cmd = simulator(prop)
    def ask(self, line):
        for _ in range(2):
            if self.p is None or self.p.poll() is not None:
                self.p = subprocess.Popen(self.cmd + ["worker", "x"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            try:
                self.p.stdin.write(line + "\n"); self.p.stdin.flush()
                o = self.p.stdout.readline()
                if o.strip().startswith("{"): return json.loads(o)
            except (OSError, ValueError): pass
            try: self.p.kill(); self.p.wait()
            except OSError: pass
            self.p = None
        w = line.split()
        return {"prop": w[1], "seed": int(w[2]) if len(w) > 2 else 0, "died": "worker"}
    def end(self):
        if self.p is not None:
            try: self.p.stdin.close(); self.p.wait(5)
            except Exception: self.p.kill(); self.p.wait()

CRASH = {4: "illegal instruction", 6: "abort", 7: "bus error", 8: "arithmetic fault", 11: "segmentation fault or stack overflow", 24: "endless computation"}
def violations(r):
    """(tags, kind, message) of a result"""
    d = r.get("died")
    if d:
        if d.startswith("signal ") and int(d[7:]) in CRASH:
            return [(["C05", "C06", "C01", "C17", "C23"], "crash-" + d[7:], f"the server process ended: {CRASH[int(d[7:])]}")]
        return []
    return [(v["props"], v["kind"], v["msg"]) for v in r.get("violations", [])]

def load_known():
    """open findings: 'finding: property=<ids> kind=<kind> replay=<file> <what fails>'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if not l.startswith("finding:"): continue
            w = l[8:].split(); kv = {}
            while w and "=" in w[0] and w[0].split("=")[0] in ("property", "kind", "replay"): k, v = w.pop(0).split("=", 1); kv[k] = v
            out.append((kv["property"].split(","), kv["kind"], kv.get("replay"), " ".join(w)))
    return out

TEXTS = {
    "rule": "one case = one generated project, client, history, fault and schedule seed; distinct = distinct hash of the whole schedule (task chosen at every step and every simulated system call); non-trivial = at least 50 task switches and 3 client operations (command-line runs: every one)",
    "real_components": "all of /repo/crates (server main loop, dispatch, task and formatting pools, operation queue, vfs processing, project loading, configuration, salsa-tracked analysis, parser, CLI), as committed in the working tree; std threads, channels, locks, files, directories, clocks, processes go through the simulator",
    "stub_components": "crates that cannot be fetched offline are small stand-ins under sim/shims: salsa (memoising, with revisions and cancellation), rowan, vfs, vfs-notify (loader thread over the simulated disk), lsp-server (simulated pipes), gen-lsp-types, line-index, crossbeam-channel, parking_lot, codespan-reporting; the language client, the disk and movefmt are simulated",
}
EXT_TEXTS = {
    "rule": "one case = one seeded editor session: settings, operations, latencies of every asynchronous step, faults, answers of the user; distinct = distinct hash of the whole history (every event, call and message with its simulated time); non-trivial = at least 20 events and 2 operations",
    "real_components": "all of /repo/editors/code/src, bundled as committed in the working tree: activation, lifecycle of the client, commands, settings, status item, bootstrap, debug adapter download; timers, clock, randomness, processes, sockets and files go through the simulator",
    "stub_components": "the editor API (vscode), the language client library (its start/stop/dispose/restart state machine), the language server process, the release service, the file system and the user are simulated",
}

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = load_known()
        self.known_kinds = {k[1] for k in self.known}
        self.results, self.known_seen, self.hits, self.died = [], collections.Counter(), [], []
        self.lock = threading.Lock()
        self.tmp = os.path.join(TARGET, "tmp", f"{prop}-{os.getpid()}"); os.makedirs(self.tmp, exist_ok=True)

    def relevant(self, r, own):
        """violations this check reports: of its own property anywhere, of any property in its own scenarios"""
        out = []
        for tags, kind, msg in violations(r):
            if kind == "harness-panic": continue
            if kind in self.known_kinds:
                with self.lock: self.known_seen[kind] += 1
                continue
            if self.prop in tags or own: out.append((kind, msg, tags))
        return out

    def jobs(self):
        q, o, cap = BUDGET[self.tier]
        if self.prop in SHARE:
            a, b = SHARE[self.prop]; f = 1 if self.tier == "quick" else 40
            q, o = a * f, b * f
        base = self.seed * 1_000_000
        others = [] if self.prop in ["C17", "C23"] + EXT else [p for p in LSP if p != self.prop]
        own = [(self.prop, base + i) for i in range(q)]
        mix = [(others[i % len(others)], base + 500_000 + i) for i in range(o)] if others else []
        js, k = [], 0
        for i, j in enumerate(own):
            js.append(j)
            while k * q < (i + 1) * o and k < len(mix): js.append(mix[k]); k += 1
        return js, cap

    def explore(self):
        js, cap = self.jobs(); js = js[::-1]; end = time.time() + cap
        def work():
            w = Worker(self.prop)
            while True:
                with self.lock:
                    if not js or time.time() > end or self.hits: break
                    p, s = js.pop()
                r = w.ask(f"seed {p} {s}")
                if r.get("died"):
                    r = w.ask(f"seed {p} {s}")     # must happen again
                    if r.get("died"):
                        with self.lock: self.died.append((p, s, r["died"]))
                rel = self.relevant(r, p == self.prop)
                r["own"] = p == self.prop
                with self.lock:
                    self.results.append(r)
                    if rel: self.hits.append((p, s, rel))
            w.end()
        t0 = time.time()
        ts = [threading.Thread(target=work) for _ in range(WORKERS)]
        [t.start() for t in ts]; [t.join() for t in ts]
        self.explore_s = time.time() - t0

    # ------------------------------------------------------------------ minimisation
    def run_files(self, docs):
        """runs several candidate replays in parallel"""
        res = [None] * len(docs); nxt = [0]
        def work(i0):
            w = Worker(self.prop)
            while True:
                with self.lock:
                    i = nxt[0]; nxt[0] += 1
                if i >= len(docs): break
                f = os.path.join(self.tmp, f"c{i0}.json")
                with open(f, "w") as fh: json.dump(docs[i], fh)
                res[i] = w.ask(f"file {f}")
            w.end()
        ts = [threading.Thread(target=work, args=(i,)) for i in range(min(WORKERS, len(docs)))]
        [t.start() for t in ts]; [t.join() for t in ts]
        return res

    def minimise(self, plan, kind, deadline):
        doc = {"plan": plan}
        same = lambda r: r is not None and any(k == kind for _, k, _ in violations(r))
        def first(cands):
            for i in range(0, len(cands), WORKERS):
                if time.time() > deadline: return None
                part = cands[i:i + WORKERS]
                for c, r in zip(part, self.run_files(part)):
                    if same(r): return c
            return None
        def with_plan(f):
            d = copy.deepcopy(doc); f(d["plan"]); return d
        # operations
        serial = plan.get("serial")
        n = 2
        while len(doc["plan"]["ops"]) >= 1 and time.time() < deadline:
            ops = doc["plan"]["ops"]; size = max(1, len(ops) // n); cands = []
            for i in range(0, len(ops), size):
                keep = [o for j, o in enumerate(ops) if not i <= j < i + size or (serial and o["op"] == "settle")]
                if len(keep) < len(ops): cands.append(with_plan(lambda p: p.__setitem__("ops", keep)))
            c = first(cands)
            if c: doc = c; n = max(2, n - 1)
            elif size == 1: break
            else: n = min(len(ops), n * 2)
        # files nobody needs, faults, odd settings, schedule
        for path in sorted(doc["plan"].get("disk", {})):
            if not path.endswith(".move"): continue
            c = first([with_plan(lambda p: p["disk"].pop(path, None))])
            if c: doc = c
        ext = plan["mode"] == "ext"
        for part in ("faults", "lat", "config") if ext else ():
            for k in sorted(doc["plan"][part]):
                c = first([with_plan(lambda p: p[part].pop(k, None))])
                if c: doc = c
        for k, v in (("answers", [0]), ("statuses", [{"health": "ok", "quiescent": True}]), ("editor", "move"), ("platform", "linux"), ("arch", "x64"), ("folders", ["/w"]), ("bundled", True), ("dap", False)) if ext else (("faults", {"open": 0, "read": 0, "short": 0, "dir": 0, "stat": 0, "spawn": False}), ("config", {}), ("chan_cap", None), ("cpus", 1), ("meta_enc", False), ("policy", "Explicit"), ("reload_at_start", False), ("ending", "shutdown")):
            if doc["plan"].get(k) != v:
                c = first([with_plan(lambda p: p.__setitem__(k, v))])
                if c: doc = c
        # the schedule itself: the places where it departs from running each task until it blocks
        if doc["plan"]["policy"] != "Explicit" and doc["plan"]["mode"] not in ("cli", "ext"):
            d = dict(doc, want_picks=True)
            r = self.run_files([d])[0]
            if same(r) and r.get("picks") is not None:
                e = copy.deepcopy(doc); e["picks"] = r["picks"]
                if same(self.run_files([e])[0]):
                    doc = e; n = 2
                    while len(doc["picks"]) >= 1 and time.time() < deadline:
                        pk = doc["picks"]; size = max(1, len(pk) // n); cands = []
                        for i in range(0, len(pk), size): cands.append(dict(doc, picks=pk[:i] + pk[i + size:]))
                        c = first(cands)
                        if c: doc = c; n = max(2, n - 1)
                        elif size == 1: break
                        else: n = min(len(pk), n * 2)
        return doc

    def report(self):
        p, s, rel = min(self.hits, key=lambda h: (h[0] != self.prop, h[1]))
        kind, msg, tags = rel[0]
        plan = json.loads(subprocess.run(simulator(p) + ["plan", p, str(s)], capture_output=True, text=True).stdout)["plan"]
        self.known_seen_before = dict(self.known_seen)
        doc = self.minimise(plan, kind, time.time() + (150 if self.tier == "quick" else 600))
        r = self.run_files([dict(doc, trace=True)])[0]
        mine = [(k, m) for _, k, m in violations(r) if k == kind]
        if not mine: doc = {"plan": plan}; r = self.run_files([dict(doc, trace=True)])[0]; mine = [(kind, msg)]
        doc.update(property=self.prop, violated=tags, kind=kind, message=mine[0][1], origin={"profile": p, "seed": s, "verif_seed": self.seed}, expect={"kind": kind, "hash": r.get("hash")}, operations=len(doc["plan"]["ops"]), schedule_departures=len(doc.get("picks", [])) if "picks" in doc else None, how=("node sim/ext/sim.js" if p in EXT else "target/h/debug/simlsp") + " one <this file>   (or: python3 tools/replay.py <this file>)")
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        f = os.path.join("replays", f"{self.prop}-{kind}-{s}.json")
        with open(os.path.join(HERE, f), "w") as fh: json.dump(doc, fh, indent=1)
        log(f"seed {p} {s}: {kind}: {mine[0][1][:1500]}")
        log(f"minimised to {len(doc['plan']['ops'])} operations (from {len(plan['ops'])})" + (f" and {len(doc['picks'])} schedule departures" if "picks" in doc else "") + f"; guarantees {tags}")
        log(f"VIOLATION property={self.prop} replay={f}")

    def known_lines(self):
        """replays the committed finding histories"""
        for props, kind, replay, what in self.known:
            if self.prop not in props: continue
            seen = self.known_seen.get(kind, 0) > 0
            if not seen and replay:
                r = self.run_files([json.load(open(os.path.join(HERE, replay)))])[0]
                seen = any(k == kind for _, k, _ in violations(r))
            if seen: log(f"KNOWN-FINDING: property={self.prop} {kind}: {what}")

    def evidence(self, wall, nviol):
        R = self.results; tot = lambda k: sum(r.get(k) or 0 for r in R)
        def summed(k):
            c = collections.Counter()
            for r in R: c.update(r.get(k) or {})
            return dict(sorted(c.items()))
        inc = [x for r in R for x in r.get("inconclusive", [])]
        panics = collections.Counter(p.split(": ", 1)[-1][:110] for r in R for p in r.get("panics", []))
        hashes = {r.get("hash") for r in R if r.get("hash")}
        ext = self.prop in EXT
        nontriv = {r["hash"] for r in R if r.get("hash") and (r.get("switches", 0) >= 50 or r.get("mode") == "cli") and (sum((r.get("ops") or {}).values()) >= 3 or r.get("mode") == "cli")}
        if ext: nontriv = {r["hash"] for r in R if r.get("hash") and r.get("steps", 0) >= 20 and sum((r.get("ops") or {}).values()) >= 2}
        samples = []
        for r in R[:3]: samples.append({k: r.get(k) for k in ("prop", "seed", "policy", "steps", "switches", "sim_ns", "hash", "ops", "faults", "compared", "ms")})
        runs = len(R) + tot("refs")
        cov = {
            "evaluations": len(R), "distinct_nontrivial": len(nontriv),
            "samples": samples,
            "cases_of_own_profile": sum(1 for r in R if r.get("own")),
            "reference_runs": tot("refs"), "runs_per_hour": int(runs / max(self.explore_s, .1) * 3600), "seeds_per_hour": int(len(R) / max(self.explore_s, .1) * 3600),
            "simulated_seconds": round((tot("sim_ns") + tot("ref_ns")) / 1e9, 1), "scheduling_steps": tot("steps") + tot("ref_steps"), "task_switches": tot("switches"), "preemptions": tot("preemptions"), "clock_jumps": tot("time_jumps"),
            "distinct_schedules": len(hashes), "schedule_policies": dict(collections.Counter(r.get("policy") for r in R if r.get("policy"))),
            "answers_compared_with_reference": tot("compared"),
            "faults_injected": summed("faults"), "client_operations": summed("ops"), "observed": summed("counters"), "reached": summed("seen"),
            "endings": dict(collections.Counter(r.get("ending") for r in R if r.get("ending"))),
            "single_request_internal_errors_tolerated": dict(panics.most_common(8)),
            "inconclusive": len(inc), "inconclusive_first": [i[:200] for i in inc[:2]], "died": self.died[:5],
            "known_findings_seen": dict(self.known_seen),
            **(EXT_TEXTS if ext else {}),
            **({} if ext else TEXTS),
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": ["the stand-ins behave like what they replace"] + ([] if ext else ["the reference is the same code run alone on the same state: a defect that shows in every schedule and history alike is not seen"]), "wall_s": round(wall, 1), "violations": nviol}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w") as f: json.dump(ev, f, indent=1)
        return inc

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET: tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:6], 16)
    log(f"property {prop}, tier {tier}, seed {seed}")
    t0 = time.time()
    build(prop)
    log(f"built in {time.time() - t0:.0f} s")
    c = Check(prop, tier, seed)
    try:
        c.explore()
        inc = c.evidence(time.time() - t0, len(c.hits))
        if c.hits: c.report(); c.evidence(time.time() - t0, len(c.hits)); return 1
        c.known_lines()
        n = len(c.results)
        bad = len(inc) + len(c.died) + sum(1 for r in c.results for v in r.get("violations", []) if v["kind"] == "harness-panic")
        log(f"{n} cases, {sum(r.get('refs', 0) for r in c.results)} reference runs in {c.explore_s:.0f} s, {bad} inconclusive; no violation")
        if n == 0 or bad > max(5, n // 5): log("too many inconclusive cases: " + "; ".join(str(i)[:300] for i in (inc + c.died)[:3])); return 3
        return 0
    finally:
        import shutil; shutil.rmtree(c.tmp, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
