#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs.

  check.py P01            quick or thorough, from VERIF_TIER; seed from VERIF_SEED
  check.py replay FILE    rebuilds from /repo and replays a violation exactly

Exit 0: held on everything explored.  Exit 1: `VIOLATION property=<id> replay=<path>`.  Exit 2 or 3: no answer.
"""
import array, collections, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
# property: (quick [(variant, workers)], thorough [(variant, workers)])
PLAN = {
    "P01": ("A3 B3 C2", "A3 B2 X1 C2"),
    "P02": ("A3 B3 C2", "A3 B2 X1 C2"),
    "P03": ("A3 B4 S1", "A3 B2 L1 X1 S1"),
    "P04": ("A2 B3 X2 C1", "A2 B2 X2 C2"),
    "P05": ("A B Bn M L", "A B Bn M L"),
    "P06": ("A3 B3 C2", "A3 B3 C2"),
    "P07": ("A4 B2 C2", "A3 B2 C2 L1"),
    "P08": ("A4 B3 C1", "A4 B2 X1 C1"),
    "P09": ("A4 B3 C1", "A4 B2 X1 C1"),
    "P10": ("A5 B2 C1", "A4 B2 X1 C1"),
    "P11": ("A4 B3 C1", "A3 B2 X1 C2"),
    "P12": ("A4 B3 C1", "A3 B3 C2"),
    "P13": ("A4 B3 C1", "A3 B3 X1 C1"),
    "P14": ("A3 B2 X1 C2", "A3 B2 X1 C2"),
    "P15": ("A6 C2", "A6 C2"),
    "P16": ("A4 B1 C1 X2", "A3 B2 C2 X1"),
    "P17": ("A5 B2 C1", "A4 B2 X1 C1"),
    "P18": ("A5 S1 B1 C1", "A4 S1 B2 C1"),
    "P19": ("A5 B2 C1", "A4 B2 X1 C1"),
    "P22": ("A4 B3 C1", "A4 B2 X1 C1"),
    "P23": ("A5 L2 M1", "A4 L2 M2"),
    "P21": ("A4 B3 C1", "A4 B2 X1 C1"),
}
WALL = {"quick": 45.0, "thorough": 600.0}
LEVEL = {p: "exploration" for p in PLAN}
for p in ("P04", "P06", "P09", "P11", "P13", "P16", "P21"): LEVEL[p] = "fault_enumeration"
REAL = ["src/r2d.c", "src/v2d.c", "src/r3d.c", "src/v3d.c", "src/rNd.c", "src/vNd.c", "deprecated/r2d.c", "deprecated/r3d.c", "libc formatting and string functions", "libm"]
STUB = ["thread scheduler (fibers, seeded)", "heap (malloc/calloc/realloc/free of the library objects)", "stdout and stderr (cookie streams)", "clock, random numbers and environment (never read by the library, counted)"]
ASSUME = [
    "preemption happens between the instrumented points (basic-block edges, loads and stores of the library's objects); a load or store itself is atomic",
    "caller threads use distinct objects as modified arguments",
    "clang -O1 -ffp-contract=off build of the library sources; the shipped build uses the project's own flags",
    "coordinates of ordinary magnitude (no overflow, NaN or infinities) as documented",
]

def parse_plan(spec):
    out = []
    for w in spec.split():
        n = w.rstrip("0123456789"); out.append((n, int(w[len(n):] or 1)))
    return out
def sh(cmd, timeout=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)

# ---------------------------------------------------------------- known findings
def load_findings():
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"): continue
            kv = {}
            rest = line[len("finding:"):].strip()
            for key in ("property", "class", "op", "note"):
                k = key + "="
                if k in rest:
                    v = rest[rest.index(k) + len(k):]
                    kv[key] = v if key == "note" else v.split()[0]
            out.append(kv)
    return out
def match_finding(findings, prop, viol):
    for f in findings:
        if f.get("property") == prop and f.get("class") == viol["class"] and (not f.get("op") or (" " + f["op"]) in (" " + viol["detail"])):
            return f
    return None

# ---------------------------------------------------------------- replaying and shrinking
def parse_violation(text):
    for line in text.splitlines():
        if line.startswith("VIOLATED "):
            d = {"raw": line}
            for k in ("run", "class", "plan"):
                j = line.find(k + "=")
                if j >= 0: d[k] = line[j + len(k) + 1:].split(" ")[0]
            j = line.find("detail="); d["detail"] = line[j + 7:] if j >= 0 else ""
            return d
    return None
def split_plan(text):
    head, ops, evs, tail = [], [], [], []
    for l in text.splitlines():
        if l.startswith("op "): ops.append(l)
        elif l.startswith("ev "): evs.append(l)
        elif l.startswith(("class ", "detail ", "variant ", "note ")) or l.startswith("#"): pass
        elif l.strip(): head.append(l)
    return head, ops, evs
def join_plan(head, ops, evs): return "\n".join(head + ops + evs) + "\n"

class Judge:
    """Runs plans and says which violation class they end in."""
    def __init__(self, prop, bins, variants, work):
        self.prop, self.bins, self.variants, self.work = prop, bins, variants, work
        self.n = 0; self.lock = threading.Lock(); self.cache = {}
    def judge(self, text, timeout=60):
        key = hashlib.sha256(text.encode()).hexdigest()
        with self.lock:
            if key in self.cache: return self.cache[key]
            self.n += 1; k = self.n
        d = os.path.join(self.work, "j%d" % k); os.makedirs(d)
        f = os.path.join(d, "p.plan"); open(f, "w").write(text)
        try:
            r = self.compare(f) if self.prop == "P05" else self.single(f, d, timeout)
        except subprocess.TimeoutExpired: r = None
        shutil.rmtree(d, ignore_errors=True)
        with self.lock: self.cache[key] = r
        return r
    def sequence(self, text):
        w = [l for l in text.splitlines() if l.startswith("sequence ")][0].split()
        seed, at, stride, run = w[1:5]
        p = sh([self.bins[self.variants[0]], "run", self.prop, seed, at, stride, str((int(run) - int(at)) // int(stride) + 1), "800", ""], 850)
        v = parse_violation(p.stdout)
        return (v["class"], v["detail"]) if v and v["run"] == run else None
    def single(self, f, d, timeout):
        p = sh([self.bins[self.variants[0]], "replay", f, d], timeout)
        v = parse_violation(p.stdout)
        if v: return (v["class"], v["detail"])
        if p.returncode == 0: return None
        return ("no-answer", "exit %d: %s" % (p.returncode, p.stdout[-300:]))
    def compare(self, f):
        outs = []
        for v in self.variants:
            p = sh([self.bins[v], "digest-plan", f], 60)
            w = parse_violation(p.stdout)
            if w: return (w["class"], v + ": " + w["detail"])
            outs.append([l.split() for l in p.stdout.splitlines()])
        if len(outs) < 2: return None
        names = {}
        for l in open(f):
            if l.startswith("op "): w = l.split(); names[w[1]] = w[3]
        b = compare_digests(outs[0], outs[1], self.variants)
        return ("differs", describe(b, self.variants, names)) if b else None

def seq_text(v, prop, seed, at): return "prop %s\nsequence %d %d %d %s\n" % (prop, seed, at, v["stride"], v["run"])
def shrink_sequence(j, v, prop, seed, limit):
    """Fewest consecutive runs of the worker that still end in the violation."""
    t0 = time.time(); run = int(v["run"]); k = 1
    while time.time() - t0 < limit:
        at = max(v["at"], run - k * v["stride"])
        text = seq_text(v, prop, seed, at)
        if at == v["at"] or j.sequence(text): return text
        k *= 2
    return seq_text(v, prop, seed, v["at"])
def compare_digests(a, b, variants):
    """First pair of results that should be equal and is not."""
    strict = set(variants) == {"B", "Bn"}
    da = {(l[0], l[1]): l for l in a if len(l) == 6}
    for l in b:
        if len(l) != 6: continue
        x = da.get((l[0], l[1]))
        if not x: continue
        if strict:
            if x[2:5] != l[2:5]: return (x, l)
        elif x[2] == "1" and l[2] == "1" and x[3] == "1" and l[3] == "1" and x[4:] != l[4:]: return (x, l)
    return None
def describe(b, variants, names):
    x, l = b
    return "op %s %s: builds %s and %s disagree (state/status %s/%s against %s/%s)" % (x[1], names.get(x[1], "?"), variants[0], variants[1], x[2], x[3], l[2], l[3])

def shrink(judge, text, cls, limit):
    """Delta debugging over operations, then schedule and fault events; same violation class."""
    t0 = time.time(); head, ops, evs = split_plan(text)
    ex = cf.ThreadPoolExecutor(8)
    def bad(o, e):
        r = judge.judge(join_plan(head, o, e)); return r is not None and r[0] == cls
    def ddmin(items, test):
        n = 2
        while len(items) >= 1 and time.time() - t0 < limit:
            size = max(1, len(items) // n); cands = [items[:i] + items[i + size:] for i in range(0, len(items), size)]
            hit = None
            for k in range(0, len(cands), 8):
                if time.time() - t0 > limit: break
                for c, r in zip(cands[k:k + 8], ex.map(test, cands[k:k + 8])):
                    if r and hit is None: hit = c
                if hit is not None: break
            if hit is not None: items = hit; n = max(n - 1, 2)
            elif size == 1: break
            else: n = min(len(items), n * 2)
        return items
    if evs and bad(ops, []): evs = []
    ops = ddmin(ops, lambda c: bad(c, evs))
    evs = ddmin(evs, lambda c: bad(ops, c))
    ops = ddmin(ops, lambda c: bad(c, evs))
    ex.shutdown()
    return join_plan(head, ops, evs)

# ---------------------------------------------------------------- search
class Search:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.stats = []; self.viol = None; self.known = collections.Counter(); self.error = None
        self.procs = set(); self.lock = threading.Lock(); self.stop = threading.Event()
        self.findings = load_findings()
        self.work = tempfile.mkdtemp(prefix="r3dsim.")
        self.compared = 0; self.pairs = collections.Counter(); self.p05 = set()
    def run(self, cmd, limit):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        with self.lock: self.procs.add(p)
        try: out, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate(); out += "\nTIMEOUT"
        with self.lock: self.procs.discard(p)
        return p.returncode, out
    def kill_all(self):
        with self.lock:
            for p in self.procs:
                try: p.kill()
                except OSError: pass
    def found(self, variants, text, v, at=0, stride=0):
        with self.lock:
            if self.viol is None: self.viol = dict(variants=variants, text=text, at=at, stride=stride, **{"class": v["class"], "detail": v["detail"], "run": v.get("run", "?")})
        self.stop.set(); self.kill_all()
    def worker(self, variant, start, stride, wall):
        d = os.path.join(self.work, "%s.%d" % (variant, start)); os.makedirs(d, exist_ok=True)
        end = time.time() + wall; at = start
        while not self.stop.is_set() and time.time() < end:
            rc, out = self.run([self.bins[variant], "run", self.prop, str(self.seed), str(at), str(stride), "1000000000", "%.1f" % (end - time.time()), d], wall + 300)
            if self.stop.is_set() and rc != 0: return
            v = parse_violation(out)
            if v:
                text = open(v["plan"]).read() if os.path.exists(v.get("plan", "")) else ""
                f = match_finding(self.findings, self.prop, v)
                if f:
                    with self.lock: self.known[f.get("note", v["class"])] += 1
                    at = int(v["run"]) + stride; continue
                self.found([variant], text, v, at, stride); return
            st = [l for l in out.splitlines() if l.startswith("STATS ")]
            if rc == 0 and st:
                s = json.loads(st[-1][6:]); s["start"] = at; s["stride"] = stride
                s["traces"] = os.path.join(d, "traces.%s.%d" % (variant, at)); s["edgefile"] = os.path.join(d, "edges.%s.%d" % (variant, at))
                with self.lock: self.stats.append(s)
                return
            with self.lock: self.error = self.error or "worker %s/%d ended with %d: %s" % (variant, start, rc, out[-600:])
            self.stop.set(); self.kill_all(); return
    def worker05(self, index, stride, wall):
        """Same plans through all builds; results compared pairwise."""
        end = time.time() + wall; at = index; chunk = 25
        vs = [v for v, _ in self.variants]; pairs = [("A", v) for v in vs if v not in ("A", "Bn")] + [("B", "Bn")]
        d = os.path.join(self.work, "p05.%d" % index); os.makedirs(d, exist_ok=True)
        while not self.stop.is_set() and time.time() < end:
            digs = {}
            for v in vs:
                o = os.path.join(d, v + ".dig")
                rc, out = self.run([self.bins[v], "digests", self.prop, str(self.seed), str(at), str(stride), str(chunk), o, d], 300)
                if self.stop.is_set(): return
                w = parse_violation(out)
                if w:
                    text = open(w["plan"]).read() if os.path.exists(w.get("plan", "")) else ""
                    self.found([v], text, w); return
                if rc != 0:
                    with self.lock: self.error = self.error or "digests %s ended with %d: %s" % (v, rc, out[-400:])
                    self.stop.set(); self.kill_all(); return
                s = json.loads([l for l in out.splitlines() if l.startswith("STATS ")][-1][6:]); s["start"] = at; s["stride"] = stride
                with self.lock: self.stats.append(s)
                digs[v] = [l.split() for l in open(o)]
            for a, b in pairs:
                bad = compare_digests(digs[a], digs[b], [a, b])
                n = min(len(digs[a]), len(digs[b]))
                with self.lock: self.compared += n; self.pairs[a + "/" + b] += n
                if bad:
                    text = sh([self.bins[a], "gen", self.prop, str(self.seed), bad[0][0]]).stdout
                    names = {l.split()[1]: l.split()[3] for l in text.splitlines() if l.startswith("op ")}
                    self.found([a, b], text, {"class": "differs", "detail": describe(bad, [a, b], names), "run": bad[0][0]}); return
            full = {l[0] for l in digs["B"] if l[3] == "0" and l[2] == "1"}
            acc = collections.defaultdict(hashlib.md5)
            for l in digs["A"]: acc[l[0]].update(" ".join(l[1:]).encode())
            with self.lock: self.p05.update(acc[r].hexdigest() for r in full if r in acc)
            at += stride * chunk
    def execute(self, wall):
        quick, thorough = PLAN[self.prop]
        self.variants = parse_plan(quick if self.tier == "quick" else thorough)
        self.bins = B.build([v for v, _ in self.variants])
        threads = []
        if self.prop == "P05":
            for i in range(8): threads.append(threading.Thread(target=self.worker05, args=(i, 8, wall)))
        else:
            base = 0
            for v, n in self.variants:   # variants that share a worker index replay the same plans in another build
                for i in range(n): threads.append(threading.Thread(target=self.worker, args=(v, i, n, wall)))
        for t in threads: t.start()
        for t in threads: t.join()

def evidence(s, wall, extra):
    traces = set(); edges = {}
    for st in s.stats:
        try:
            a = array.array("Q"); a.frombytes(open(st["traces"], "rb").read()); traces.update((st["variant"], x) for x in a)
            m = open(st["edgefile"], "rb").read(); e = edges.get(st["variant"]); edges[st["variant"]] = bytes(x | y for x, y in zip(e, m)) if e else m
        except (KeyError, OSError): pass
    tot = collections.Counter(); probes = collections.Counter(); ratios = {}
    for st in s.stats:
        for k, v in st.items():
            if isinstance(v, int) and k not in ("start", "stride", "edges", "edges_total", "statics", "maxsteps", "maxstack"): tot[k] += v
        for k, v in st["probes"].items(): probes[k] += v
        for r in st["ratios"].split():
            k, v = r.split("="); ratios[k] = max(ratios.get(k, 0.0), float(v))
    per = collections.Counter()
    for st in s.stats: per[st["variant"]] += st["runs"]
    sample = []
    try:
        v0 = s.variants[0][0]
        for i in (0, 1): sample.append({"run": i, "variant": v0, "plan": [l[:160] for l in sh([s.bins[v0], "gen", s.prop, str(s.seed), str(i)]).stdout.splitlines()[:40]]})
    except Exception: pass
    hours = max(wall, 1e-3) / 3600.0
    distinct = len(s.p05) if s.prop == "P05" else len(traces)
    cov = dict(
        evaluations=int(tot["runs"]), distinct_nontrivial=int(distinct),
        rule="one evaluation = one simulated run of one plan (seed VERIF_SEED, run index) in one build; non-trivial = at least one schedule switch, nested call, abandonment, stall, allocation fault, moved block, stream fault or full buffer occurred in it" + ("; P05: the plan fills the small buffers and its results were compared across builds" if s.prop == "P05" else "") + "; distinct by the hash of schedule, fault trace and every result",
        samples=sample or [{"note": "no sample"}],
        runs_per_hour=int(tot["runs"] / hours), runs_per_build=dict(per), seeds=[s.seed],
        simulated_steps=int(tot["steps"]), library_calls=int(tot["libcalls"]), operations=int(tot["ops"]),
        faults_injected=dict(preemptions=tot["switches"], nested_calls=tot["nests"], abandoned_calls=tot["abandons"], stalls=tot["stalls"], allocation_failures=tot["allocfails"], blocks_moved=tot["moves"], stream_faults=tot["wfaults"], full_buffers=tot["capfails"], dirty_stack_fills=tot["garbage"]),
        reference_comparisons=int(tot["refchecks"]), write_protected_inputs=int(tot["readonly"]), tiles=int(tot["tiles"]),
        deepest_stack_bytes=max([st.get("maxstack", 0) for st in s.stats] or [0]), calls_with_own_fp_environment=tot["fpcalls"], largest_call_in_steps=max([st["maxsteps"] for st in s.stats] or [0]), largest_fraction_of_step_budget=max([st.get("maxbudget", 0) for st in s.stats] or [0]),
        deviation_over_tolerance=ratios, operations_by_outcome=dict(sorted(probes.items())),
        library_edges_reached={v: [sum(1 for x in m if x), max(st["edges_total"] for st in s.stats if st["variant"] == v)] for v, m in edges.items()},
        real_code=REAL, stubs=STUB, builds={v: B.VARIANTS[v] for v, _ in s.variants})
    if s.prop == "P05": cov["results_compared"] = s.compared; cov["results_compared_per_pair"] = dict(s.pairs)
    cov.update(extra)
    return dict(property=s.prop, tier=s.tier, seed=s.seed, level=LEVEL[s.prop], coverage=cov, assumptions=ASSUME, wall_s=round(wall, 2), violations=1 if s.viol else 0)
def write_evidence(e):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    f = os.path.join(VERIF, "evidence", e["property"] + ".json")
    with open(f + ".tmp", "w") as h: json.dump(e, h, indent=1)
    os.replace(f + ".tmp", f)

def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in WALL else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    wall = float(os.environ.get("R3D_WALL", WALL[tier]))
    t0 = time.time(); s = Search(prop, tier, seed)
    try:
        try: s.execute(wall)
        except B.BuildError as e:
            print("cannot build the simulator from %s:\n%s" % (B.REPO, e)); return 2
        t1 = time.time()
        for note, n in s.known.items(): print("KNOWN-FINDING: property=%s %s" % (prop, note))
        extra = {}; code = 0
        if s.viol:
            v = s.viol; j = Judge(prop, s.bins, v["variants"], s.work)
            again = j.judge(v["text"]) if v["text"] else None
            j.cache.clear(); third = j.judge(v["text"]) if v["text"] else None
            if again and again[0] == "no-answer": again = None
            if third and third[0] == "no-answer": third = None
            same = again is not None and third is not None
            if bool(again) != bool(third):   # reads leftovers outside the simulator's reach: the violation is real, its replay is a matter of luck
                again = again or third; same = True
            if same: v["class"] = again[0]   # what a fresh process gives is what counts
            elif v["stride"] and j.sequence(seq_text(v, prop, seed, v["at"])): pass
            else:
                print("run %s of build %s ended in %s (%s) but its replay gives %s, %s: the simulation is not deterministic here, no answer" % (v["run"], v["variants"], v["class"], v["detail"], again, third))
                write_evidence(evidence(s, time.time() - t0, extra)); return 3
            if not same:   # something outlives a run inside the library: replay the runs before it as well
                mini = shrink_sequence(j, v, prop, seed, 60.0); last = j.sequence(mini)
            else:
                mini = shrink(j, v["text"], v["class"], 40.0 if tier == "quick" else 120.0); last = j.judge(mini) or again
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            body = "variant %s\nclass %s\ndetail %s\nnote property %s seed %d run %s\n" % (" ".join(v["variants"]), last[0], last[1].replace("\n", " ")[:600], prop, seed, v["run"])
            f = os.path.join(VERIF, "replays", "%s-%s.plan" % (prop, hashlib.sha256(mini.encode()).hexdigest()[:12]))
            open(f, "w").write(mini + body)
            print("%s: %s" % (last[0], last[1])); print("found in run %s, build %s, shrunk to %d operations and %d events (%d replays)" % (v["run"], "+".join(v["variants"]), mini.count("\nop "), mini.count("\nev "), j.n))
            print("VIOLATION property=%s replay=%s" % (prop, f)); code = 1; extra["replay"] = f; extra["violation"] = list(last)
        elif s.error:
            print("no answer: " + s.error); code = 3
        write_evidence(evidence(s, time.time() - t0, extra))
        if code == 0:
            r = sum(st["runs"] for st in s.stats); print("%s held: %d simulated runs in %.0f s (%s), seed %d" % (prop, r, t1 - t0, "+".join(v for v, _ in s.variants), seed))
        return code
    finally:
        shutil.rmtree(s.work, ignore_errors=True)

def replay(path):
    text = open(path).read(); prop = variants = None
    for l in text.splitlines():
        if l.startswith("prop "): prop = l.split()[1]
        if l.startswith("variant "): variants = l.split()[1:]
    variants = variants or ["A"]
    try: bins = B.build(variants)
    except B.BuildError as e: print(e); return 2
    work = tempfile.mkdtemp(prefix="r3dsim.")
    try: r = Judge(prop, bins, variants, work).sequence(text) if "\nsequence " in text else Judge(prop, bins, variants, work).judge(text)
    finally: shutil.rmtree(work, ignore_errors=True)
    if r is None: print("the plan runs clean on the current tree"); return 0
    print("%s: %s" % r); print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path))); return 1

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN: print(__doc__); sys.exit(2)
    sys.exit(check(sys.argv[1]))
