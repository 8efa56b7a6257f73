"""Runs one property's check: seeded search, gate, minimise, replay file, evidence."""
import collections, copy, hashlib, json, multiprocessing as mp, os, random, re, signal, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, world

class Strategy:
    """One way of exploring one property. A spec is plain JSON and decides everything."""
    prop = None; variants = ("plain",); weight = 1.0; cpu = 15
    def gen(self, r, tier): raise NotImplementedError
    def runs(self, spec): raise NotImplementedError      # [(variant, case)]
    def judge(self, spec, outs): raise NotImplementedError  # [message]
    def shrink(self, spec):                               # candidate smaller specs
        for path in self.lists(spec):
            yield from shrink_list(spec, path)
    def lists(self, spec): return [["ops"]]
    def key(self, spec, outs):                            # distinctness; None = trivial
        return hashlib.sha1(json.dumps(outs_key(outs)).encode()).hexdigest()[:16]
    def execute(self, spec):
        return [world.run(v, c, self.cpu) for v, c in self.runs(spec)]
    def trace(self, spec): return spec

def getp(o, path):
    for k in path: o = o[k]
    return o
def setp(o, path, v):
    for k in path[:-1]: o = o[k]
    o[path[-1]] = v
def shrink_list(spec, path):
    L = getp(spec, path); n = len(L)
    if not n: return
    size = n
    while size >= 1:
        i = 0
        while i < n:
            keep = [o for o in L[i:i + size] if isinstance(o, dict) and o.get("op") in ("data", "new")]
            if len(keep) < len(L[i:i + size]): c = copy.deepcopy(spec); setp(c, path, L[:i] + keep + L[i + size:]); yield c
            i += size
        size = size // 2 if size > 1 else 0

def outs_key(outs):
    k = []
    for run in outs:
        for proc in run:
            for rec in proc:
                k.append([rec.get(f) for f in ("op", "out", "err", "exit", "died", "ihash")] + [(rec.get("dig") or {}).get("rules")])
    return k

class Timeout(Exception):
    """A run used up its CPU seconds: says nothing about a property (progress is judged in simulated steps)."""
def bad_end(proc):
    """Why a simulated process did not run to its end, or None."""
    for rec in proc:
        if "exit" in rec: return f"the process exited with code {rec['exit']} at operation {rec['at']}: {' '.join(rec.get('said', '').split())[-160:]}"
        if "died" in rec:
            s = rec.get("stderr", ""); m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)|runtime error: ([^\n]*)", s)
            last = max([q["i"] for q in proc if "i" in q], default=-1)
            if m: return f"memory error after operation {last}: {(m.group(1) or m.group(2))[:120]}"
            if rec["died"] in (signal.SIGXCPU, signal.SIGKILL, signal.SIGALRM): raise Timeout(f"operation {last + 1}")
            return f"the process died (signal {rec['died']}, code {rec['code']}) after operation {last}"
        if rec.get("end") == "budget": return f"no progress: operation {rec['at']} used up its step budget"
        if rec.get("end") == "deadlock": return f"no progress: the workers of operation {rec['at']} wait for each other"
        if "badop" in rec: raise RuntimeError("bad op " + rec["badop"])
        if "error" in rec: raise RuntimeError("bad case")
    if not any(rec.get("end") == "done" or "crash" in rec for rec in proc): return "the process vanished"
    return None
def ends(outs):
    for run in outs:
        for proc in run:
            for rec in proc:
                if "end" in rec: yield rec
def vmsgs(proc, props):
    return [f"operation {r['at']}: {r['msg']}" for r in proc if "v" in r and (props is None or set(r["v"].split(",")) & set(props))]
def ops_of(proc): return [r for r in proc if "i" in r]
SKIP = {"st"}
def diff_ops(a, b, what, fields=None, start=0, ignore=()):
    """First difference between the observations of two processes."""
    A, B = ops_of(a)[start:], ops_of(b)[start:]
    for p, q in zip(A, B):
        for k in p.keys() | q.keys():
            if k in SKIP or k in ignore: continue
            if k == "dig":
                dp, dq = p.get(k) or {}, q.get(k) or {}
                bad = [f for f in dp if f in dq and dp[f] != dq[f] and f not in ignore and (fields is None or f in fields)]
                if bad: return f"operation {p['i']} ({p['op']}): model differs ({what}): {', '.join(bad)}"
            elif p.get(k) != q.get(k): return f"operation {p['i']} ({p['op']}): {k} is {str(p.get(k))[:60]} / {str(q.get(k))[:60]} ({what})"
    if len(A) != len(B): return f"{len(A)} / {len(B)} operations completed ({what})"
    return None
def msg_class(m):
    m = re.sub(r"signal (\d+)", lambda k: "signal " + "abcdefghijklmnopqrstuvwxyz"[int(k.group(1)) % 26], m)
    return re.sub(r"0x[0-9a-f]+|[-+]?\d[\d.e+-]*|'[^']*'", "#", m)[:200]

# ---------------- running ----------------
_S = None
def _init(strats, seed, tier):
    global _S; _S = (strats, seed, tier)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
def spec_rng(seed, prop, idx): return random.Random(int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{idx}".encode()).digest()[:8], "big"))
def choose(strats, r):
    return strats[r.choices(range(len(strats)), [s.weight for s in strats])[0]]
def make(strats, seed, tier, idx):
    r = spec_rng(seed, strats[0].prop, idx)
    if idx < 4 * len(strats): si = idx % len(strats); r.random()
    else: si = r.choices(range(len(strats)), [s.weight for s in strats])[0]
    spec = strats[si].gen(r, tier); spec["_s"] = si; spec["_idx"] = idx; spec["_seed"] = seed
    return spec
def _one(idx):
    """One seeded run; a failure of the machinery itself (a host out of memory, say) is tried again on a new server."""
    for last in (False, False, True):
        r = _try(idx)
        if r[-1] is None or last: return r
        try: world.close_all()
        except Exception: pass
        time.sleep(0.5)
def _try(idx):
    strats, seed, tier = _S
    try:
        spec = make(strats, seed, tier, idx); s = strats[spec["_s"]]
        t = time.time(); outs = s.execute(spec); msgs = s.judge(spec, outs)
        agg = aggregate(outs); k = s.key(spec, outs)
        agg["_wall"] = time.time() - t
        return idx, msgs, agg, k, (spec if (msgs or idx < 2) else None), type(s).__name__, None
    except Timeout: return idx, [], {"timeouts": 1}, None, None, "timeout", None
    except Exception:
        return idx, [], {}, None, None, "?", traceback.format_exc()
def aggregate(outs):
    a = collections.Counter()
    for run in outs:
        for proc in run:
            a["simulated_processes"] += 1
            for rec in proc:
                if "i" in rec: a["operations"] += 1; a["op_" + rec["op"]] += 1
                if "exit" in rec: a["visible_failures"] += 1
                if "died" in rec: a["process_crashes" if rec.get("code") == 37 else "process_deaths"] += 1
                if "crash" in rec: a["process_crashes"] += 1
                if "end" in rec:
                    for f in ("steps", "psteps", "regions", "multi", "switches", "preempts", "shared", "clock_reads", "disk_ops", "disk_short", "allocs"): a[f] += rec.get(f, 0)
                    for n, k in zip(("open", "write", "read", "close"), rec.get("fired", [])): a["fault_" + n] += k
                    for n, k in rec.get("n", {}).items(): a["n_" + n] += k
                    if rec.get("multi"): a["interleavings"] += 1
                    if rec.get("sim_s", 0) > 1500000000: a["sim_seconds"] += rec["sim_s"] - 1500000000
                for n, k in (rec.get("agg") or {}).items(): a[n] += k
    return dict(a)
def ihashes(outs): return [r["ihash"] for r in ends(outs) if r.get("multi")]

class Check:
    def __init__(self, prop, strats, level, real, stub, rule, quick_s=60, thorough_s=1500, quick_n=10000, thorough_n=10 ** 7):
        self.prop, self.strats, self.level, self.real, self.stub, self.rule = prop, strats, level, real, stub, rule
        self.lim = {"quick": (quick_s, quick_n), "thorough": (thorough_s, thorough_n)}
        for s in strats: s.prop = prop

def known(prop):
    f = os.path.join(ROOT, "known_findings.txt"); out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (?:match=/(.*?)/ )?(.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def fresh_judge(s, spec):
    world.close_all()
    outs = s.execute(spec)
    try: r = s.judge(spec, outs)
    except Timeout: r = []
    h = hashlib.sha1(json.dumps(outs, sort_keys=True).encode()).hexdigest()
    world.close_all(); return r, h

def minimise(s, spec, cls, limit):
    t0 = time.time(); best = spec; n = 0; improved = True
    def fails(c):
        try: ms = s.judge(c, s.execute(c))
        except Exception: return False
        return any(msg_class(m) == cls for m in ms)
    while improved and time.time() - t0 < limit:
        improved = False
        for c in s.shrink(best):
            if time.time() - t0 > limit: break
            n += 1
            if fails(c): best = c; improved = True; break
    return best, n

def run_check(chk, tier, seed):
    t0 = time.time(); wall, maxn = chk.lim[tier]
    if os.environ.get("VERIF_WALL"): wall = float(os.environ["VERIF_WALL"])
    variants = sorted({v for s in chk.strats for v in s.variants})
    for v in variants: build.build(v)
    for s in chk.strats:
        if hasattr(s, "setup"): s.setup()
    tb = time.time() - t0
    jobs = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    agg = collections.Counter(); keys = set(); samples = []; failing = []; errors = []; done = 0; per = collections.Counter()
    findings = known(chk.prop); suppressed = collections.Counter()
    idx = 0; t1 = time.time(); rc = 0; nviol = 0; unconfirmed = []
    for pat, d in findings: print(f"KNOWN-FINDING: property={chk.prop} {d}")
    def live_of(ms): return [m for m in ms if not any(pat and re.search(pat, m) for pat, _ in findings)]
    def room(): return idx < maxn and time.time() - t1 < wall and not failing and len(errors) < 3
    while room() and not nviol:
        pool = mp.Pool(jobs, _init, (chk.strats, seed, tier)); pending = collections.deque()
        try:
            while True:
                while room() and len(pending) < jobs * 3: pending.append(pool.apply_async(_one, (idx,))); idx += 1
                if not pending: break
                i, msgs, a, k, spec, sname, err = pending.popleft().get()
                if err: errors.append((i, err)); continue
                done += 1; agg.update(a); per[sname] += 1
                if k: keys.add(k)
                for m in msgs:
                    hit = [d for pat, d in findings if pat and re.search(pat, m)]
                    if hit: suppressed[hit[0]] += 1
                live = live_of(msgs)
                if spec is not None and len(samples) < 3 and not live: samples.append({"index": i, "strategy": sname, "spec": shorten(spec)})
                if live: failing.append((i, live, spec))
        finally:
            pool.terminate(); pool.join()
        failing.sort(key=lambda f: f[0])
        for i, msgs, spec in failing:
            s = chk.strats[spec["_s"]]
            print(f"candidate violation at index {i}: {msgs[0]}", flush=True)
            (m1, h1), (m2, h2) = fresh_judge(s, spec), fresh_judge(s, spec)
            if m1 != m2 or not live_of(m1):
                print(f"  not reproducible, not reported ({h1[:8]} / {h2[:8]}): {m1[:1]} / {m2[:1]}"); unconfirmed.append({"index": i, "message": msgs[0]}); continue
            cls = msg_class(live_of(m1)[0]); small, tried = minimise(s, spec, cls, 45 if tier == "quick" else 300)
            if hasattr(s, "explicit"): small = s.explicit(small, cls, msg_class)
            (m3, h3), (m4, h4) = fresh_judge(s, small), fresh_judge(s, small)
            if h3 != h4 or not live_of(m3): small = spec; m3 = m1; h3 = h1
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", f"{chk.prop}-{seed}-{i}.json")
            json.dump({"property": chk.prop, "seed": seed, "index": i, "strategy": type(s).__name__, "messages": m3[:10], "outs_sha1": h3, "spec": small}, open(path, "w"), indent=1)
            for m in live_of(m3)[:5]: print("  " + m)
            print(f"minimised with {tried} runs: {size_of(spec)} -> {size_of(small)} operations")
            print(f"VIOLATION property={chk.prop} replay={path}"); rc = 1; nviol = 1
            break
        failing = []
    if errors:
        print("ERROR in the check itself:", errors[0][1]); rc = rc or 2
    w = time.time() - t0
    cov = {"evaluations": done, "distinct_nontrivial": len(keys), "rule": chk.rule, "samples": samples[:3] or [{"note": "none"}],
           "runs_per_hour": round(done / max(time.time() - t1, 1e-9) * 3600), "simulated_processes": agg.get("simulated_processes", 0), "operations": agg.get("operations", 0),
           "simulated_seconds": agg.get("sim_seconds", 0), "simulated_steps": agg.get("steps", 0),
           "faults_injected": {k[6:]: v for k, v in agg.items() if k.startswith("fault_")} | {k: agg[k] for k in ("process_crashes", "disk_short", "clock_reads", "preempts", "switches", "visible_failures") if k in agg},
           "parallel_regions_with_several_workers": agg.get("multi", 0), "interleaved_executions": agg.get("interleavings", 0),
           "probes": {k[2:]: v for k, v in sorted(agg.items()) if k.startswith("n_")}, "per_strategy": dict(per),
           "components_real": chk.real, "components_stub": chk.stub, "build_s": round(tb, 1), "known_findings_hit": dict(suppressed), "timeouts": agg.get("timeouts", 0), "unconfirmed_candidates": unconfirmed[:10], "violations": nviol, "other": {k: v for k, v in sorted(agg.items()) if k.startswith("op_")}}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump({"property": chk.prop, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov, "assumptions": ASSUME, "wall_s": round(w, 1), "violations": nviol}, open(os.path.join(ROOT, "evidence", chk.prop + ".json"), "w"), indent=1)
    print(f"{chk.prop} {tier}: {done} runs, {len(keys)} distinct, {w:.1f} s, rc {rc}")
    return rc
ASSUME = ["gcc and glibc are correct; the simulated OpenMP runtime follows the OpenMP semantics gcc's generated code relies on", "interleavings are explored at the granularity of instrumented memory accesses (sequentially consistent)", "a clean search is evidence over the sampled histories, not a proof"]
def shorten(spec):
    s = json.dumps(spec); return json.loads(s) if len(s) < 6000 else {"truncated": s[:6000]}
def size_of(spec):
    return sum(len(v) for k, v in spec.items() if isinstance(v, list) and (k == "ops" or k.endswith("ops")))
def replay(path, checks):
    j = json.load(open(path)); chk = checks[j["property"]]; s = next(x for x in chk.strats if type(x).__name__ == j["strategy"])
    for v in s.variants: build.build(v)
    if hasattr(s, "setup"): s.setup()
    m, h = fresh_judge(s, j["spec"])
    for x in m[:10]: print("  " + x)
    if m:
        print("identical execution" if h == j["outs_sha1"] else "same violation, the execution differs from the recorded one (the code changed)")
        print(f"VIOLATION property={j['property']} replay={path}"); return 1
    print("does not reproduce on this tree"); return 0
