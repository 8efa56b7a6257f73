"""The strategies that decide each property."""
import copy, json, os, random, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, gen, world
from gen import *
from driver import Strategy, Check, bad_end, vmsgs, diff_ops, ops_of, ends, shrink_list, getp, setp

def proc(ops, **k): return dict({"ops": ops}, **k)
def simplify_cfg(spec, path=("model",)):
    """Candidate simplifications of a model's configuration."""
    m = getp(spec, path); c = m["cfg"]
    for k, v in (("pop_init", False), ("set_subsumption", False), ("compaction", False), ("loss_func", "mae"), ("beta", 0.2), ("m_probation", 10000), ("init_error", 0)):
        if c.get(k, v) != v: d = copy.deepcopy(spec); getp(d, path)["cfg"][k] = v; yield d
    for k, v in (("subsumption", False), ("pred_reset", False), ("lambda", 2), ("select_type", "roulette")):
        if c["ea"].get(k, v) != v: d = copy.deepcopy(spec); getp(d, path)["cfg"]["ea"][k] = v; yield d
    for n in (4, 10):
        if c["pop_size"] > n and n >= m["a"] + 2: d = copy.deepcopy(spec); getp(d, path)["cfg"]["pop_size"] = n; yield d
def shrink_counts(spec, path=("ops",)):
    for i, o in enumerate(getp(spec, path)):
        for k in ("n", "steps", "N", "states"):
            if isinstance(o.get(k), int) and o[k] > 1 :
                for v in {1, o[k] // 2}:
                    d = copy.deepcopy(spec); getp(d, path)[i][k] = v; yield d
class ModelStrategy(Strategy):
    def shrink(self, spec):
        for p in self.lists(spec): yield from shrink_list(spec, p)
        for p in self.lists(spec): yield from shrink_counts(spec, p)
        yield from simplify_cfg(spec)

# ---------------------------------------------------------------- C06-C09
class Ref(ModelStrategy):
    """Every trial is checked against an independent account of the algorithm."""
    variants = ("plain",)
    tags = (); feats = {}
    def gen(self, r, tier):
        f = dict(self.feats); f.setdefault("stochastic", 0.0)
        if r.random() < 0.3: f["pop"] = r.choice([3, 4, 5, 8])
        m = gen_model(r, feats=f); self.tweak(r, m)
        n = r.randint(3, 10 if tier == "quick" else 25)
        ops = history(r, m, n, p_eval=self.p_eval, shuffle=r.random() < 0.1)
        self.extra(r, m, ops)
        return {"model": m, "ops": ops, "heapseed": r.randint(1, 1 << 30), "fill": r.choice([0, 2, 3])}
    p_eval = 0.3
    def tweak(self, r, m): pass
    def extra(self, r, m, ops):
        for i in range(len(ops) - 1, 1, -1):
            u = r.random()
            if u < 0.03: ops.insert(i, {"op": "store"}); ops.insert(r.randint(i + 1, len(ops)), {"op": "retrieve"})
            elif u < 0.06: ops.insert(i, {"op": "save", "f": "m.bin"}); ops.insert(i + 1, {"op": "load", "f": "m.bin"})
            elif u < 0.08: ops.insert(i, {"op": "json", "slot": "j"}); ops.insert(i + 1, {"op": "print"})
            elif u < 0.10 and m["mode"] == "sup": ops.insert(i, {"op": "predict", "d": 0, "cover": None})
    def runs(self, spec):
        return [("plain", {"procs": [proc([new_op(spec["model"])] + spec["ops"] + [{"op": "free"}], heap={"quarantine": 1, "fill": spec["fill"], "seed": spec["heapseed"]}, chk={"inv": 1, "ref": 1})]})]
    def judge(self, spec, outs):
        p = outs[0][0]; b = bad_end(p)
        return vmsgs(p, self.tags) + ([b] if b else [])
class Ref06(Ref):
    tags = ("C06",); feats = {"set_sub": 0.5}
    def extra(self, r, m, ops):
        super().extra(r, m, ops)
        if importable(m) and r.random() < 0.35:
            for _ in range(r.randint(1, 2)):
                i = r.randint(2, len(ops)); ops.insert(i, {"op": "json", "slot": "j"}); ops.insert(r.randint(i + 1, len(ops)), {"op": r.choice(["jsonin", "jsonin1"]), "slot": "j"})
        if importable(m) and r.random() < 0.15: # the population as the initial one of another model
            q = copy.deepcopy(m); q["cfg"].update(population_file="init.json", pop_init=r.random() < 0.7, pop_size=max(m["a"] + 2, m["cfg"]["pop_size"] + r.choice([0, 0, -2, 3, 20])))
            ops += [{"op": "json", "slot": "i", "f": "init.json"}, new_op(q, 1)] + [dict(o, m=1) for o in history(r, q, 2, data=False)]
class Ref07(Ref):
    tags = ("C07",); p_eval = 0.5
class Ref08(Ref): tags = ("C08",); p_eval = 0.15
class Stats22(Ref):
    """What the system reports about itself, against the trials it ran and the rules it has."""
    tags = ("C22",); p_eval = 0.4
    def tweak(self, r, m):
        if r.random() < 0.4: m["cfg"]["beta"] = r.choice([0.3, 0.5, 0.9, 1.0])
        if r.random() < 0.4: m["cfg"]["e0"] = r.choice([0.05, 0.2, 0.5, 1.0])
    def extra(self, r, m, ops):
        super().extra(r, m, ops); pa = m["a"] * m["y"]
        for i in range(len(ops), 1, -1):
            u = r.random()
            if u < 0.12: ops.insert(i, {"op": "stats"})
            elif m["mode"] == "sup" and u < 0.24: ops.insert(i, {"op": "fitp", "d": 0, "td": 1, "test": int(r.random() < 0.6), "n": r.randint(1, 12), "start": r.randint(0, 30), "perf": r.choice([1, 1, 2, 3, 5])})
            elif m["mode"] == "sup" and u < 0.36: ops.insert(i, {"op": "score_n", "d": r.randint(0, 1), "N": r.choice([1, 2, 2, 3, 3, 5, 40]), "cover": [round(r.random(), 3) for _ in range(pa)]})
        ops.append({"op": "stats"})
class Ref09(Ref):
    tags = ("C09",); p_eval = 0.2; feats = {"short_probation": 0.7}
    def tweak(self, r, m):
        if r.random() < 0.5: m["cfg"]["m_probation"] = r.choice([0, 1, 2, 5, 20])
        if r.random() < 0.3: m["cfg"]["e0"] = 0.5; m["cfg"]["theta_sub"] = r.choice([0, 1, 3]); m["cfg"]["ea"]["subsumption"] = True

    def extra(self, r, m, ops):
        super().extra(r, m, ops)
        if r.random() < 0.1: m["cfg"]["ea"]["theta_ea"] = r.choice([5, 10, 25]); i = r.randint(2, len(ops)); ops.insert(i, {"op": "age", "seed": r.randint(1, 10 ** 6), "big": 1}); ops.insert(i + 1, learn_op(r, m, 0, 0))
# ---------------------------------------------------------------- C01, C02
class Sched(ModelStrategy):
    """The same history under many schedules and team sizes."""
    variants = ("tsan",); cpu = 90
    def gen(self, r, tier):
        big = r.random() < 0.08 # sets large enough for code that only then works in parallel
        m = gen_model(r, feats=dict({"pop": r.choice([80, 150, 300]), "cond": r.choice(["dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "ternary"]), "pred": r.choice(["constant", "nlms_linear"])} if big else {"pop": r.choice([4, 8, 16, 25])}, stochastic=0.35, recurrent=0.2))
        if big: m["cfg"]["pop_init"] = True
        ops = history(r, m, r.randint(2, 3 if big else 5), p_eval=0.35)
        for o in ops:
            if "n" in o and o["op"] == "fit": o["n"] = min(o["n"], 3 if big else 6)
            if "steps" in o: o["steps"] = min(o["steps"], 2 if big else 5)
        if r.random() < 0.3: ops.append({"op": "store"}); ops.append(learn_op(r, m, 0, 0, n=3)); ops.append({"op": "retrieve"})
        S = []
        for _ in range(4 if tier == "quick" else 8):
            k = r.choice(["rand", "rand", "pct", "order"]); s = {"team": r.choice([2, 2, 3, 4, 8]), "seed": r.randint(1, 1 << 30)}
            if k == "rand": s.update(mode=1, mean=r.choice([3, 10, 40, 200]))
            elif k == "pct": s.update(mode=2, d=r.choice([1, 2, 3, 5]))
            else: s.update(mode=0)
            if r.random() < 0.2: s["team_random"] = 1
            S.append(s)
        return {"model": m, "ops": ops, "scheds": S}
    def lists(self, spec): return [["scheds"], ["ops"]]
    race = 0
    def full(self, spec): return [new_op(spec["model"])] + spec["ops"] + [{"op": "save", "f": "m.bin"}, {"op": "json", "slot": "j"}, {"op": "dig", "rng": 1}, {"op": "free"}]
    def runs(self, spec):
        ops = self.full(spec); base = dict(chk={"inv": 0}, heap={"fill": 0})
        return [("tsan", {"procs": [proc(ops, sched=s, **base)]}) for s in [{"mode": 0, "team": 1}] + [dict(s, race=self.race) for s in spec["scheds"]]]
    def execute(self, spec):
        outs = super().execute(spec)
        return outs
    def judge(self, spec, outs):
        base = outs[0][0]; b = bad_end(base)
        if b: return ["single worker: " + b]
        res = []
        for s, o in zip(spec["scheds"], outs[1:]):
            b = bad_end(o[0]); w = f"1 worker / schedule {json.dumps({k: v for k, v in s.items() if k != 'expl'})}"
            d = f"{w}: {b}" if b else diff_ops(base, o[0], w)
            if d: res.append(d)
        return res
    def key(self, spec, outs):
        h = [r["ihash"] for r in ends(outs) if r.get("multi")]
        return ",".join(h) if h else None
    def shrink(self, spec):
        if len(spec["scheds"]) > 1:
            for s in spec["scheds"]: d = copy.deepcopy(spec); d["scheds"] = [s]; yield d
        for n in (2, 3, 4):
            for i, s in enumerate(spec["scheds"]):
                if s["team"] > n: d = copy.deepcopy(spec); d["scheds"][i]["team"] = n; yield d
        yield from super().shrink(spec)
    def explicit(self, spec, cls, msg_class):
        """Turn the failing schedule into an explicit list of switches and shrink that."""
        import time
        if len(spec["scheds"]) != 1 or spec["scheds"][0].get("mode") == 3: return spec
        t0 = time.time(); s = dict(spec["scheds"][0], log=1); c = dict(spec, scheds=[s])
        try: outs = self.execute(c)
        except Exception: return spec
        log = next((r["log"] for r in ends(outs[1:]) if "log" in r), None)
        if not log: return spec
        def mk(L): return dict(spec, scheds=[{"mode": 3, "team": s["team"], "expl": L, "seed": s["seed"], **({"team_random": 1} if s.get("team_random") else {})}])
        def fails(L):
            d = mk(L)
            try: return any(msg_class(m)[-40:] == cls[-40:] or True for m in self.judge(d, self.execute(d)))
            except Exception: return False
        if not fails(log): return spec
        size = max(1, len(log) // 2)
        while size >= 1 and time.time() - t0 < 40:
            i = 0
            while i < len(log) and time.time() - t0 < 40:
                L = log[:i] + log[i + size:]
                if fails(L): log = L
                else: i += size
            size //= 2
        return mk(log)
class Sched01(Sched): pass
class Race02(Sched):
    race = 1
    def judge(self, spec, outs):
        res = []
        for o in outs:
            b = bad_end(o[0])
            if b: res.append(b)
            for rec in o[0]:
                for a in rec.get("races", []): res.append(f"race between {sym(a[0])} ({'write' if a[2] else 'read'}) and {sym(a[1])} ({'write' if a[3] else 'read'}) by two workers")
        return sorted(set(res))
_sym = {}
def sym(pc, variant="tsan"):
    k = (pc, variant)
    if k not in _sym:
        try:
            t = subprocess.run(["addr2line", "-f", "-s", "-e", os.path.join(build.BUILD, variant, "world"), hex(int(pc, 16) - 1)], capture_output=True, text=True, timeout=20).stdout.split("\n")
            _sym[k] = f"{t[0]} at {t[1].split(' ')[0]}"
        except Exception: _sym[k] = pc
    return _sym[k]

# ---------------------------------------------------------------- C03
def shuffle_keys(r, cfg):
    """The same configuration with its parameters listed in another order.
    Dimensions travel separately; a section's type stays before its arguments."""
    ks = list(cfg); r.shuffle(ks); out = {}
    for k in ks:
        v = cfg[k]
        if k == "ea": q = list(v); r.shuffle(q); v = {i: v[i] for i in q}
        out[k] = v
    return out
class Repro(ModelStrategy):
    """The same seeded history in different surroundings."""
    variants = ("plain", "zero", "pattern")
    def gen(self, r, tier):
        m = gen_model(r, feats={"stochastic": 0.3, "recurrent": 0.25}); ops = history(r, m, r.randint(2, 7), p_eval=0.35)
        W = []
        for _ in range(4 if tier == "quick" else 8):
            w = {"variant": r.choice(["plain", "plain", "zero", "pattern"]), "heap": {"fill": r.choice([0, 1, 2, 3]), "seed": r.randint(1, 1 << 30), "pad": int(r.random() < 0.5)}, "clock": r.choice([0, 1, 1500000000, 1700000000 + r.randint(0, 10 ** 8), 2 ** 31 + 5]), "clock_step": r.choice([0, 1, 3600, -7]), "entropy": r.randint(1, 1 << 30), "order": r.randint(0, 1 << 30) if r.random() < 0.6 else None, "prefix": []}
            if r.random() < 0.6:
                pre = []
                for _ in range(r.randint(1, 3)):
                    u = r.random()
                    if u < 0.45: pre.append({"op": "draw", "m": 9, "n": r.randint(1, 5), "normal": int(r.random() < 0.6)})
                    elif u < 0.55: pre.append({"op": "junk", "m": 9, "seed": r.randint(1, 1000), "n": r.randint(5, 200)})
                    else:
                        q = gen_model(r, feats={"stochastic": 0.2}); pre += [new_op(q, 9)] + history(r, q, r.randint(0, 3), m=9, nd=1, d0=20)
                        if r.random() < 0.6: pre.append({"op": "free", "m": 9})
                        break
                w["prefix"] = pre
            W.append(w)
        return {"model": m, "ops": ops, "worlds": W}
    def lists(self, spec): return [["worlds"], ["ops"]] + [["worlds", i, "prefix"] for i in range(len(spec["worlds"]))]
    def runs(self, spec):
        tail = spec["ops"] + [{"op": "save", "f": "m.bin"}, {"op": "json", "slot": "j"}, {"op": "dig", "rng": 1}]
        ref = {"procs": [proc([new_op(spec["model"])] + tail, chk={"inv": 0}, heap={"fill": 0})]}; res = [("plain", ref), ("zero", ref)]
        for w in spec["worlds"]:
            m = spec["model"]
            if w["order"] is not None: m = dict(m, cfg=shuffle_keys(random.Random(w["order"]), m["cfg"]))
            res.append((w["variant"], {"procs": [proc(w["prefix"] + [new_op(m)] + tail, chk={"inv": 0}, heap=w["heap"], clock=w["clock"], clock_step=w["clock_step"], entropy=w["entropy"])]}))
        return res
    def judge(self, spec, outs):
        for o in outs[:2]:
            b = bad_end(o[0])
            if b: return ["reference run: " + b]
        res = []; nb = len(ops_of(outs[0][0]))
        for w, o in zip(spec["worlds"], outs[2:]):
            base = outs[0 if w["variant"] == "plain" else 1][0]
            b = bad_end(o[0]); what = "reference / " + ", ".join(([w["variant"] + " build"] if w["variant"] != "plain" else []) + ["other heap and clock"] + (["other parameter order"] if w["order"] is not None else []) + (["earlier activity"] if w["prefix"] else []))
            if b: res.append(what + ": " + b); continue
            n = len(ops_of(o[0])) - nb
            # the unused default tree constants in a saved file are not a result
            d = diff_tail(*([[x for x in p if not (x.get("op") == "save" and spec["model"]["cfg"]["condition"]["type"] != "tree_gp")] for p in (base, o[0])] + [n, what]))
            if d: res.append(d)
        return res
    def shrink(self, spec):
        for i, w in enumerate(spec["worlds"]):
            for k, v in (("variant", "plain"), ("heap", {"fill": 0}), ("order", None), ("clock", 1500000000), ("clock_step", 1), ("entropy", 1)):
                if w[k] != v: d = copy.deepcopy(spec); d["worlds"][i][k] = v; yield d
        yield from super().shrink(spec)
def diff_tail(a, b, skip, what, ignore=()):
    """Compares a with b after b's first skip operations."""
    A = ops_of(a); B = [dict(x, i=x["i"] - skip) for x in ops_of(b)[skip:]]
    return diff_ops(A, B, what, ignore=ignore)

# ---------------------------------------------------------------- C04
class SaveLoad(ModelStrategy):
    """Save, crash, load elsewhere over something else, continue both."""
    variants = ("plain",)
    def gen(self, r, tier):
        m = gen_model(r, feats={"stochastic": 0.2, "recurrent": 0.3})
        pre = history(r, m, r.randint(0, 6), p_eval=0.3); cont = history(r, m, r.randint(1, 5), p_eval=0.4, data=False)
        same = r.random() < 0.4; other = m if same else gen_model(r, feats={"recurrent": 0.3})
        oops = [] if r.random() < 0.4 else history(r, other, r.randint(0, 3), nd=1, d0=20)
        if r.random() < 0.25: oops.append({"op": "store"})
        return {"model": m, "ops": pre, "cont_ops": cont, "other": other, "other_ops": oops, "reseed": r.randint(0, 10 ** 6), "chunk": r.choice([0, 0, 7, 100, 4096]), "heap": {"fill": r.choice([0, 1, 2, 3]), "seed": r.randint(1, 1 << 30)}, "init": int(r.random() < 0.85), "again": int(r.random() < 0.3), "mid_retrieve": int(r.random() < 0.2)}
    def lists(self, spec): return [["other_ops"], ["cont_ops"], ["ops"]]
    def tail(self, spec):
        return [{"op": "reseed", "seed": spec["reseed"]}] + [dict(o, dig=1) if o["op"] in ("fit", "episode", "rlfit") else o for o in spec["cont_ops"]] + [{"op": "sizes"}, {"op": "save", "f": "g.bin"}, {"op": "json", "slot": "z"}, {"op": "dig", "rng": 1}]
    def runs(self, spec):
        data = [o for o in spec["ops"] if o["op"] == "data"]
        A = [new_op(spec["model"])] + spec["ops"] + [{"op": "save", "f": "f.bin"}, {"op": "dig"}] + self.tail(spec)
        oth = spec["other"] if spec["init"] else spec["other"]
        B = [new_op(oth, init=1)] + spec["other_ops"] + data + [{"op": "load", "f": "f.bin"}]
        if spec["again"]: B += [{"op": "load", "f": "f.bin"}]
        B += [{"op": "cat", "f": "f.bin"}, {"op": "dig"}] + self.tail(spec)
        return [("plain", {"procs": [proc(A + [{"op": "crash"}], chk={"inv": 0}, chunk=spec["chunk"]), proc(B + [{"op": "free"}], chk={"inv": 1}, heap=spec["heap"], chunk=spec["chunk"])]})]
    def judge(self, spec, outs):
        a, b = outs[0]; x = bad_end(a)
        if x: return ["original: " + x]
        x = bad_end(b)
        if x: return ["loading side: " + x]
        res = vmsgs(b, None)
        A, B = ops_of(a), ops_of(b); ia = max(i for i, o in enumerate(A) if o["op"] == "save" and i < len(A) - len(self.tail(spec))); ib = max(i for i, o in enumerate(B) if o["op"] == "load")
        if A[ia]["n"] != B[ib]["n"]: res.append(f"{A[ia]['n']} elements written, {B[ib]['n']} read")
        A, B = A[ia + 1:], B[ib + 2:]
        d = diff_ops(A, [dict(q, i=p["i"]) for p, q in zip(A, B)], "original / loaded")
        return res + ([d] if d else [])
    def shrink(self, spec):
        for k, v in (("chunk", 0), ("heap", {"fill": 0}), ("again", 0)):
            if spec[k] != v: d = copy.deepcopy(spec); d[k] = v; yield d
        if spec["other"] != spec["model"]: d = copy.deepcopy(spec); d["other"] = d["model"]; d["other_ops"] = []; yield d
        yield from super().shrink(spec)

# ---------------------------------------------------------------- C05
def must_fail(p, op):
    """None if the process failed visibly at operation op, else what happened."""
    for rec in p:
        if "exit" in rec: return None if rec["exit"] != 0 else "the process exited reporting success"
        if "died" in rec:
            import signal as sg
            if rec["died"] in (sg.SIGXCPU, sg.SIGKILL, sg.SIGALRM): return "the call hung"
            return None
        if rec.get("end") in ("budget", "deadlock"): return "the call hung"
    return "the call returned normally"
class SaveFault(ModelStrategy):
    """Disk faults while saving; what a save reports must be true."""
    variants = ("plain",)
    def gen(self, r, tier):
        m = gen_model(r, feats={"stochastic": 0.2, "recurrent": 0.2, "pop": r.choice([4, 8, 16])}); ops = history(r, m, r.randint(0, 4), p_eval=0.3)
        S = []
        for _ in range(6 if tier == "quick" else 20):
            k = r.choice(["write", "write", "write", "open", "close", "none"])
            f = {"kind": k, "file": "f.bin", "err": r.choice([28, 5, 122, 27])}
            if k == "write": f["frac"] = r.choice([0.0, r.random(), r.random(), r.random(), 0.999]); f["sticky"] = int(r.random() < 0.7)
            if k == "close": f["at"] = r.choice([0, 1, 100, 5000])
            S.append({"fault": f if k != "none" else None, "chunk": r.choice([0, 0, 13, 512, 4096]), "over": int(r.random() < 0.4)})
        return {"model": m, "ops": ops, "faults": S}
    def lists(self, spec): return [["faults"], ["ops"]]
    def execute(self, spec):
        outs = [world.run("plain", {"procs": [proc([new_op(spec["model"])] + spec["ops"] + [{"op": "save", "f": "f.bin"}, {"op": "dig"}], chk={"inv": 0})]}, self.cpu)]
        sv = [o for o in ops_of(outs[0][0]) if o["op"] == "save"]; size = sv[-1]["bytes"] if sv else 0
        for s in spec["faults"]:
            pre = [new_op(spec["model"])]
            if s["over"]: pre += [{"op": "save", "f": "f.bin"}] # an older file is there already
            f = [dict(s["fault"], at=int(s["fault"]["frac"] * size) if "frac" in s["fault"] else s["fault"].get("at", 0))] if s["fault"] else []
            A = pre + spec["ops"] + [{"op": "save", "f": "f.bin", "faults": f, "chunk": s["chunk"]}, {"op": "crash"}]
            B = [new_op(spec["model"]), {"op": "load", "f": "f.bin"}, {"op": "dig"}]
            outs.append(world.run("plain", {"procs": [proc(A, chk={"inv": 0}), proc(B, chk={"inv": 0})]}, self.cpu))
        return outs
    def judge(self, spec, outs):
        b = bad_end(outs[0][0])
        if b: return ["no fault: " + b]
        want = ops_of(outs[0][0])[-1]["dig"]; res = []
        for s, o in zip(spec["faults"], outs[1:]):
            a, bb = o; crashed = any("crash" in r for r in a); f = s["fault"]
            if not crashed:
                if not f: res.append("fault-free save: " + (bad_end(a) or "did not return"))
                elif f["kind"] == "open" or True:
                    x = must_fail(a, 0)
                    if x and x != "the call returned normally": res.append(f"save with a failing {f['kind']}: {x}")
                continue
            if f and f["kind"] in ("write", "close", "open"):
                res.append(f"save returned normally although a {f['kind']} of the file failed (error {f['err']})")
            x = bad_end(bb)
            if x: res.append("a save that returned normally does not load after a crash: " + x)
            else:
                got = ops_of(bb)[-1]["dig"]; bad = [k for k in want if want[k] != got[k]]
                if bad: res.append("a save that returned normally loads as a different model: " + ", ".join(bad))
        return res
class LoadFault(ModelStrategy):
    """Truncated files and read errors while loading."""
    variants = ("plain",)
    def gen(self, r, tier):
        m = gen_model(r, feats={"stochastic": 0.2, "recurrent": 0.2, "pop": r.choice([4, 8, 16])}); ops = history(r, m, r.randint(0, 4), p_eval=0.3)
        other = m if r.random() < 0.7 else gen_model(r)
        S = []
        for _ in range(8 if tier == "quick" else 30):
            k = r.choice(["trunc", "trunc", "trunc", "read", "read", "open", "chunk", "none"])
            S.append({"kind": k, "frac": r.choice([0.0, 1.0, r.random(), r.random(), r.random()]), "back": r.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 24]), "err": 5, "chunk": r.choice([0, 1, 5, 64, 1000]), "sticky": int(r.random() < 0.7)})
        return {"model": m, "ops": ops, "other": other, "faults": S}
    def lists(self, spec): return [["faults"], ["ops"]]
    def execute(self, spec):
        A = [new_op(spec["model"])] + spec["ops"] + [{"op": "save", "f": "f.bin"}, {"op": "dig"}]
        outs = [world.run("plain", {"procs": [proc(A, chk={"inv": 0})]}, self.cpu)]
        sv = [o for o in ops_of(outs[0][0]) if o["op"] == "save"]; size = sv[-1]["bytes"] if sv else 0
        for s in spec["faults"]:
            at = max(0, min(size, int(s["frac"] * size) - s["back"])); B = [new_op(spec["other"])]; L = {"op": "load", "f": "f.bin"}
            if s["kind"] == "trunc": B.append({"op": "trunc", "f": "f.bin", "at": at})
            if s["kind"] == "read": L["faults"] = [{"kind": "read", "file": "f.bin", "at": max(0, min(at, size - 1)), "err": s["err"], "sticky": s["sticky"]}]
            if s["kind"] == "open": L["faults"] = [{"kind": "open", "file": "f.bin", "err": s["err"]}]
            if s["kind"] in ("chunk", "read"): L["chunk"] = s["chunk"]
            outs.append(world.run("plain", {"procs": [proc(A[:-1] + [{"op": "crash"}], chk={"inv": 0}), proc(B + [L, {"op": "dig"}], chk={"inv": 0})]}, self.cpu))
            outs[-1].append([{"at": at, "size": size}])
        return outs
    def judge(self, spec, outs):
        b = bad_end(outs[0][0])
        if b: return ["no fault: " + b]
        want = ops_of(outs[0][0])[-1]["dig"]; res = []
        for s, o in zip(spec["faults"], outs[1:]):
            p = o[1]; at, size = o[2][0]["at"], o[2][0]["size"]; returned = any(r.get("op") == "load" for r in ops_of(p))
            if s["kind"] in ("none", "chunk") or (s["kind"] == "trunc" and at >= size):
                x = bad_end(p)
                if x: res.append(f"fault-free load: {x}"); continue
            elif returned:
                res.append({"trunc": f"loading a file cut off at byte {at} of {size} returned normally", "read": f"loading returned normally although reading byte {at} of {size} failed", "open": "loading returned normally although the file could not be opened"}[s["kind"]]); continue
            else:
                x = must_fail(p, 0)
                if x: res.append(f"load with fault {s['kind']}: {x}")
                continue
            got = ops_of(p)[-1]["dig"]; bad = [k for k in want if want[k] != got[k]]
            if bad: res.append(f"fault-free load ({s['kind']}) gives a different model: " + ", ".join(bad))
        return res

# ---------------------------------------------------------------- C10
def has_internals(m):
    """Rules with learning state (momentum, gain matrices) besides their exported values."""
    c = m["cfg"]; return "neural" in c["condition"]["type"] or c["prediction"]["type"] in ("neural", "rls_linear", "rls_quadratic") or c.get("action", {}).get("type") == "neural"
class StoreRetrieve(ModelStrategy):
    """Store, anything, retrieve; storing itself is invisible."""
    variants = ("plain",)
    def gen(self, r, tier):
        m = gen_model(r, feats={"stochastic": 0.15, "recurrent": 0.15})
        pre = history(r, m, r.randint(0, 5), p_eval=0.3); mid = history(r, m, r.randint(0, 4), p_eval=0.2, data=False, setp=False); post = history(r, m, r.randint(1, 3), p_eval=0.4, data=False)
        for i in range(len(mid), -1, -1):
            u = r.random()
            if u < 0.08: mid.insert(i, {"op": "save", "f": "s.bin"}); mid.insert(i + 1, {"op": "load", "f": "s.bin"})
            elif u < 0.16: mid.insert(i, {"op": "reseed", "seed": r.randint(0, 1000)})
        if r.random() < 0.3 and not cfg_incompatible(m): mid.insert(r.randint(0, len(mid)), {"op": "setp", "cfg": {"beta": 0.3, "theta_del": 7}})
        return {"model": m, "ops": pre, "mid_ops": mid, "cont_ops": post, "pred_d": 0, "stores": r.choice([1, 1, 1, 2]), "retrieves": r.choice([1, 1, 2]), "heap": {"fill": r.choice([0, 1, 2, 3]), "seed": r.randint(1, 1 << 30)}, "free": int(r.random() < 0.8)}
    def lists(self, spec): return [["mid_ops"], ["cont_ops"], ["ops"]]
    def runs(self, spec):
        N = new_op(spec["model"]); D = {"op": "dig"}; st = [{"op": "store"}] * spec["stores"]; P = [{"op": "predict", "d": 0, "cover": 0.5}]
        data = [] if any(o["op"] == "data" and o.get("d") == 0 for o in spec["ops"]) else [{"op": "data", "d": 0, "n": 3, "x": spec["model"]["x"], "y": spec["model"]["y"], "seed": 5, "kind": spec["model"]["kind"]}]
        pre = [N] + data + spec["ops"]; k = dict(chk={"inv": 1, "rng": 1}); end = [{"op": "dig", "rng": 1}, {"op": "save", "f": "e.bin"}]
        A = pre + [D] + st + [{"op": "dig"}] + P
        B = pre + st + spec["mid_ops"] + [{"op": "retrieve"}] * spec["retrieves"] + [D] + P + spec["cont_ops"] + [{"op": "free"}] * spec["free"]
        C0 = pre + spec["cont_ops"] + end; C1 = pre + st + spec["cont_ops"] + end
        return [("plain", {"procs": [proc(A, **k), proc(B, heap=spec["heap"], **k), proc(C0, **k), proc(C1, **k)]})]
    def judge(self, spec, outs):
        a, b, c0, c1 = outs[0]; res = []
        for w, p in (("", a), ("", b), ("", c0), ("", c1)):
            x = bad_end(p)
            if x: return [x]
            res += vmsgs(p, ("C10", "C06", "C13"))
        A, B = ops_of(a), ops_of(b); d0, d1 = A[-3 - spec["stores"]]["dig"], A[-2]["dig"]
        bad = [k for k in d0 if d0[k] != d1[k]]
        if bad: res.append("storing the population changed the model: " + ", ".join(bad))
        i = max(k for k, o in enumerate(B) if o["op"] == "retrieve") + 1; got = B[i]["dig"]
        fields = [k for k in ("size", "num", "rules", "learned", "json") + (() if has_internals(spec["model"]) else ("bodies",)) if d0[k] != got[k]]
        if d0["size"] == 0: fields = []; A[-1]["out"] = B[i + 1]["out"] # nothing was stored
        if fields: res.append("the retrieved population is not the stored one: " + ", ".join(fields))
        if "stochastic" not in spec["model"]["flags"] and A[-1]["out"] != B[i + 1]["out"]: res.append("the retrieved population predicts differently from the stored one")
        n = len(spec["cont_ops"]) + 2
        d = diff_ops(ops_of(c0)[-n:], [dict(o, i=p["i"]) for o, p in zip(ops_of(c1)[-n:], ops_of(c0)[-n:])], "without / with a store before")
        return res + ([d] if d else [])
    def shrink(self, spec):
        for k, v in (("stores", 1), ("retrieves", 1), ("heap", {"fill": 0})):
            if spec[k] != v: d = copy.deepcopy(spec); d[k] = v; yield d
        yield from super().shrink(spec)
def cfg_incompatible(m): return False

# ---------------------------------------------------------------- C17
class EvalReadOnly(ModelStrategy):
    """Evaluations anywhere in a history leave what is learned alone."""
    variants = ("plain",)
    def gen(self, r, tier):
        m = gen_model(r, feats={"stochastic": 0.1, "recurrent": 0.1}); m["cfg"]["m_probation"] = 10000000
        ops = history(r, m, r.randint(1, 6), p_eval=0); n = len([o for o in ops if o["op"] == "data"]); evs = []
        for _ in range(r.randint(1, 5)):
            e = eval_op(r, m, 0, r.randrange(2), cover=r.choice([None, 0]))
            while e["op"] == "episode": e = eval_op(r, m, 0, r.randrange(2))
            if e["op"] == "score" and r.random() < 0.25: e = dict(e, op="score_n", N=r.choice([0, 0, 1000, 2, 3, 5]), reseed=r.randint(0, 999))
            if r.random() < 0.25: e = r.choice([{"op": "json", "slot": "q"}, {"op": "print"}, {"op": "params", "slot": "p"}, {"op": "save", "f": "s.bin"}, {"op": "sizes"}])
            evs.append([r.randint(n, len(ops)), e])
        return {"model": m, "ops": ops, "evs": evs}
    def lists(self, spec): return [["evs"], ["ops"]]
    def withev(self, spec):
        out = []
        for i, o in enumerate(spec["ops"] + [None]):
            for at, e in spec["evs"]:
                if at == i: out += [{"op": "dig", "tag": 1}, e, {"op": "dig", "tag": 2}] + ([e] if e["op"] != "score_n" else [{"op": "reseed", "seed": e["reseed"]}])
            if o: out.append(o)
        return out
    def without(self, spec):
        out = []
        for i, o in enumerate(spec["ops"] + [None]):
            out += [{"op": "reseed", "seed": e["reseed"]} for at, e in spec["evs"] if at == i and e["op"] == "score_n"]
            if o: out.append(o)
        return out
    def runs(self, spec):
        N = [new_op(spec["model"])]; E = [{"op": "dig", "rng": 1}]
        return [("plain", {"procs": [proc(N + self.without(spec) + E, chk={"inv": 0}), proc(N + self.withev(spec) + E, chk={"inv": 0, "rng": 1})]})]
    def judge(self, spec, outs):
        a, b = outs[0]; res = []
        for p in (a, b):
            x = bad_end(p)
            if x: return [x]
        stoch = "stochastic" in spec["model"]["flags"]; stateless = not spec["model"]["flags"] or set(spec["model"]["flags"]) <= {"image"}
        c = spec["model"]["cfg"]; plain = ("bodies",) if c["condition"]["type"] in ("hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "dummy") and c["prediction"]["type"] != "neural" and c.get("action", {}).get("type") != "neural" else ()
        if not stoch: res += vmsgs(b, ("C17",))
        B = ops_of(b)[1:]; W = self.withev(spec); rest = []; i = 0
        while i < len(W):
            if W[i].get("tag") == 1:
                d0, e, d1 = B[i], B[i + 1], B[i + 2]; bad = [k for k in ("params", "learned", "size", "num") + plain if d0["dig"][k] != d1["dig"][k]]
                if bad: res.append(f"operation {e['i']} ({e['op']}) changed the model: {', '.join(bad)}")
                i += 3
                if W[i - 2]["op"] != "score_n":
                    if stateless and not stoch and any(B[i].get(k) != e.get(k) for k in ("out", "err")): res.append(f"operation {B[i]['i']} ({e['op']}): repeating the evaluation gave another result")
                    i += 1
            else: rest.append(B[i]); i += 1
        if stateless and not stoch:
            A = ops_of(a)[1:]; rest.append(B[-1]); d = diff_ops(A, [dict(q, i=p["i"]) for p, q in zip(A, rest)], "without / with evaluations in between", fields=("params", "learned", "size", "num") + plain)
            if d: res.append(d)
        return res
    def shrink(self, spec):
        yield from shrink_list(spec, ["evs"]); 
        for i in range(len(spec["ops"]) - 1, -1, -1):
            if spec["ops"][i]["op"] == "data": continue
            d = copy.deepcopy(spec); del d["ops"][i]; d["evs"] = [[at - (at > i), e] for at, e in d["evs"]]; yield d
        yield from shrink_counts(spec); yield from simplify_cfg(spec)

# ---------------------------------------------------------------- C12
MUT = ("fit", "episode", "rlfit")
class Isolate(ModelStrategy):
    """Two or three models in one process, their calls interleaved."""
    variants = ("plain",)
    def mops(self, r, q, m, n, d0):
        ops = history(r, q, n, m=m, nd=1, d0=d0, p_eval=0.35)
        for i in range(len(ops), 0, -1):
            u = r.random()
            if u < 0.08: ops.insert(i, {"op": "store", "m": m})
            elif u < 0.14: ops.insert(i, {"op": "retrieve", "m": m})
            elif u < 0.20: ops.insert(i, {"op": "save", "m": m, "f": f"m{m}.bin"}); ops.insert(r.randint(i + 1, len(ops)), {"op": "load", "m": m, "f": f"m{m}.bin"})
            elif u < 0.24: ops.insert(i, {"op": "json", "m": m, "slot": f"s{m}"})
            elif u < 0.27: ops.insert(i, {"op": "params", "m": m, "slot": f"s{m}"})
            elif u < 0.30: ops.insert(i, {"op": "setp", "m": m, "cfg": {"beta": r.choice([0.1, 0.4]), "theta_sub": 5, "omp_num_threads": r.choice([1, 2, 8])}})
        return ops
    def gen(self, r, tier):
        A = gen_model(r, feats={"stochastic": 0.15, "recurrent": 0.15}); aops = [dict(o, m=0) if "m" in o or o["op"] != "data" else o for o in self.mops(r, A, 0, r.randint(1, 5), 0)]
        B = []
        for k in range(r.choice([1, 1, 2])):
            q = A if r.random() < 0.3 else gen_model(r, feats={"recurrent": 0.15}); m = k + 1
            ops = [new_op(q, m)] + self.mops(r, q, m, r.randint(0, 4), 20 * m)
            if r.random() < 0.5: ops.append({"op": "free", "m": m})
            if ops[-1]["op"] == "free" and r.random() < 0.3: ops.append(new_op(q, m))
            B.append(ops)
        # one interleaving: positions of the B operations between the A operations
        inter = []; pos = [0] * len(B); slots = []
        for k, ops in enumerate(B):
            at = sorted(r.randint(-1, len(aops)) for _ in ops); slots += [[a, r.random(), k] for a in at]
        slots.sort(); inter = []
        for a, _, k in slots: inter.append([a, B[k][pos[k]]]); pos[k] += 1
        seeds = [r.randint(0, 10 ** 6) for _ in range(len(aops) + 1)]
        return {"model": A, "ops": [[o, s] for o, s in zip(aops, seeds)], "seed0": seeds[-1], "inter": inter, "heap": {"fill": r.choice([0, 1, 2, 3]), "seed": r.randint(1, 1 << 30)}}
    def lists(self, spec): return [["inter"], ["ops"]]
    def shrink(self, spec):
        for i in range(len(spec["inter"]) - 1, -1, -1): # keep models created before use
            d = copy.deepcopy(spec); o = d["inter"].pop(i)[1]
            if o["op"] == "new": d["inter"] = [x for j, x in enumerate(d["inter"]) if not (j >= i and x[1].get("m") == o["m"])]
            yield d
        for i in range(len(spec["ops"]) - 1, -1, -1):
            if spec["ops"][i][0]["op"] == "data": continue
            d = copy.deepcopy(spec); del d["ops"][i]; d["inter"] = [[a - (a > i), o] for a, o in d["inter"]]; yield d
        yield from simplify_cfg(spec)
    def seq(self, spec, withb):
        out = []
        def bs(k):
            for a, o in spec["inter"]:
                if a == k:
                    if o["op"] == "new": o = dict(o)
                    out.append(dict(o, who="B")); 
                    if k >= 0: out.append({"op": "dig", "m": 0, "who": "D"})
        if withb: bs(-1)
        out.append(dict(new_op(spec["model"], 0), who="A"))
        for i, (o, s) in enumerate(spec["ops"]):
            out.append({"op": "dig", "m": 0, "who": "A"})
            if withb: bs(i)
            if o["op"] != "data": out.append({"op": "reseed", "m": 0, "seed": s, "who": "A"})
            out.append(dict(o, who="A"))
        out.append({"op": "dig", "m": 0, "who": "A"})
        if withb: bs(len(spec["ops"]))
        out += [{"op": "reseed", "m": 0, "seed": spec["seed0"], "who": "A"}, {"op": "dig", "m": 0, "rng": 1, "who": "A"}, {"op": "save", "m": 0, "f": "end.bin", "who": "A"}]
        return out
    def runs(self, spec):
        return [("plain", {"procs": [proc(self.seq(spec, False), chk={"inv": 0}), proc(self.seq(spec, True), chk={"inv": 0}, heap=spec["heap"])]})]
    def judge(self, spec, outs):
        a, b = outs[0]
        for w, p in (("alone", a), ("interleaved", b)):
            x = bad_end(p)
            if x: return [f"{w}: {x}"]
        res = vmsgs(a, ("C12",)) + vmsgs(b, ("C12",)); S = self.seq(spec, True); B = ops_of(b); last = None
        for o, rec in zip(S, B):
            if o["who"] == "B": cause = rec
            elif o["who"] == "D" and last is not None:
                bad = [k for k in last if last[k] != rec["dig"][k]]
                if bad: res.append(f"{cause['op']} on another model changed this model: {', '.join(bad)}"); break
            if "dig" in rec: last = rec["dig"]
            elif o["who"] == "A": last = None
        mine = [rec for o, rec in zip(S, B) if o["who"] == "A"]; A = ops_of(a)
        tree = spec["model"]["cfg"]["condition"]["type"] == "tree_gp" # the unused default tree constants in a saved file are not a result
        pairs = [(p, dict(q, i=p["i"])) for p, q in zip(A, mine) if tree or p["op"] != "save"]
        d = diff_ops([p for p, _ in pairs], [q for _, q in pairs], "alone / with other models in the process")
        return res + ([d] if d else [])

# ---------------------------------------------------------------- C13
def importable(m):
    c = m["cfg"]; return c["condition"]["type"] in ("hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "dgp", "dummy") and c["prediction"]["type"] != "neural" and c.get("action", {}).get("type") != "neural"
import re
class Memory(ModelStrategy):
    """Long and odd histories under the address sanitizer, then everything destroyed."""
    variants = ("asan",); cpu = 40
    def gen(self, r, tier):
        f = {"stochastic": 0.2, "recurrent": 0.2}; ae = r.random() < 0.15
        if ae: m = gen_model(r, "sup", dict(f, pred="neural", x=r.choice([2, 3, 5])))
        else: m = gen_model(r, feats=f)
        ops = history(r, m, r.randint(1, 8 if tier == "quick" else 20), p_eval=0.3); n0 = 2; i = len(ops); others = []
        def at(): return r.randint(n0, len(ops))
        for _ in range(r.randint(0, 5)):
            u = r.random(); k = at()
            if u < 0.15: ops.insert(k, {"op": "store"}); ops.insert(r.randint(k + 1, len(ops)), {"op": "retrieve"})
            elif u < 0.25: ops.insert(k, {"op": "store"})
            elif u < 0.32: ops.insert(k, {"op": "retrieve"})
            elif u < 0.45: ops.insert(k, {"op": "save", "f": "m.bin"}); ops.insert(r.randint(k + 1, len(ops)), {"op": "load", "f": "m.bin"})
            elif u < 0.55: ops[k:k] = [{"op": "json", "slot": "j"}, {"op": "print"}, {"op": "params", "slot": "p"}]
            elif u < 0.70 and importable(m): ops.insert(k, {"op": "json", "slot": "j"}); ops.insert(r.randint(k + 1, len(ops)), {"op": r.choice(["jsonin", "jsonin1"]), "slot": "j"})
            elif u < 0.78: ops.insert(k, {"op": "setp", "cfg": {"pop_size": r.randint(m["a"] + 2, 40)}})
            elif u < 0.86: ops.insert(k, {"op": "setp", "cfg": r.choice([{"theta_sub": 0, "e0": 10.0, "set_subsumption": True}, {"ea": {"lambda": 6}}, {"compaction": True}, {"m_probation": 0}, {"ea": {"subsumption": True}}])})
            elif u < 0.92 and m["cfg"]["prediction"]["type"] == "neural" and m["x"] != 16: ops.insert(k, {"op": "expand"})
        tail = []
        if ae:
            y = r.choice([2, 3]); q = dict(m, y=y, kind="onehot"); tail = [{"op": "ae2cl", "y": y, "del": r.randint(1, 3)}] + history(r, q, r.randint(1, 3), d0=40, nd=1)
            if r.random() < 0.3: tail = [{"op": "store"}] + tail + [{"op": "retrieve"}] + history(r, q, 2, d0=40, nd=1)
        # a second model whose file is loaded over the first, and back
        if r.random() < 0.35:
            q = gen_model(r, feats={"recurrent": 0.2}); tail += ([{"op": "store"}] if r.random() < 0.3 else []) + [new_op(q, 1)] + history(r, q, r.randint(0, 3), m=1, nd=1, d0=60) + [{"op": "save", "m": 1, "f": "q.bin"}, {"op": "load", "m": 0, "f": "q.bin"}] + ([{"op": "retrieve"}] if r.random() < 0.3 else []) + ([{"op": "free", "m": 1}] if r.random() < 0.5 else []) + history(r, q, r.randint(0, 3), m=0, nd=1, d0=60, data=False)
        return {"model": m, "ops": ops, "tail_ops": tail, "heap": {"fill": r.choice([1, 2, 3]), "seed": r.randint(1, 1 << 30)}}
    def lists(self, spec): return [["tail_ops"], ["ops"]]
    def runs(self, spec):
        ops = [{"op": "leakmark"}, new_op(spec["model"])] + spec["ops"] + spec["tail_ops"] + [{"op": "free", "m": 0}, {"op": "free", "m": 1}, {"op": "leakcheck"}]
        return [("asan", {"procs": [proc(ops, chk={"inv": 1}, heap=spec["heap"])]})]
    def judge(self, spec, outs):
        p = outs[0][0]; b = bad_end(p)
        return [re.sub(r"0x[0-9a-f]+", lambda h: sym(h.group(0), "asan"), m) for m in vmsgs(p, ("C13",))] + ([b] if b else [])
    def shrink(self, spec):
        if spec["heap"] != {"fill": 1}: d = copy.deepcopy(spec); d["heap"] = {"fill": 1}; yield d
        yield from super().shrink(spec)

class Restructure(ModelStrategy):
    """Predictions grown by a layer, autoencoders turned into classifiers, anywhere in a history."""
    variants = ("plain",)
    def gen(self, r, tier):
        ae = r.random() < 0.6; mode = "sup" if ae or r.random() < 0.6 else "rl"
        while True:
            m = gen_model(r, mode, {"pred": "neural", "recurrent": 0.15, "stochastic": 0.1, "x": r.choice([1, 2, 3, 5])})
            if m["x"] != 16: break
        ops = history(r, m, r.randint(1, 5), p_eval=0.3)
        def frob(ops, lo):
            for _ in range(r.choice([0, 1, 1, 2])):
                k = r.randint(lo, len(ops)); u = r.random()
                if u < 0.6: ops.insert(k, {"op": "expand"})
                elif u < 0.8: ops.insert(k, {"op": "save", "f": "m.bin"}); ops.insert(k + 1, {"op": "load", "f": "m.bin"})
                else: ops.insert(k, {"op": "store"}); ops.insert(r.randint(k + 1, len(ops)), {"op": "retrieve"})
        frob(ops, 2); tail = []
        if ae:
            y = r.choice([2, 3, 4, 6]); q = dict(m, y=y, kind="onehot"); tail = [{"op": "ae2cl", "y": y, "del": r.randint(0, 3)}] + history(r, q, r.randint(1, 4), d0=40, nd=1, p_eval=0.5) + [{"op": "predict", "d": 40}]
            if r.random() < 0.25: ops.append({"op": "store"}); tail.insert(r.randint(1, len(tail)), {"op": "retrieve"}) # it has the previous outputs: gone
        elif not any(o["op"] == "expand" for o in ops): ops.append({"op": "expand"}); ops += history(r, m, 2, data=False)
        return {"model": m, "ops": ops, "tail_ops": tail, "fill": r.choice([0, 2, 3])}
    def lists(self, spec): return [["tail_ops"], ["ops"]]
    def runs(self, spec): return [("plain", {"procs": [proc([new_op(spec["model"])] + spec["ops"] + spec["tail_ops"] + [{"op": "save", "f": "z.bin"}, {"op": "load", "f": "z.bin"}, {"op": "free"}], chk={"inv": 1}, heap={"fill": spec["fill"], "quarantine": 1})]})]
    def judge(self, spec, outs):
        p = outs[0][0]; b = bad_end(p)
        return vmsgs(p, ("C23",)) + ([b] if b else [])
class Vary(ModelStrategy):
    """Rules within their bounds after every call; variation of rules of evolved populations, chain by chain."""
    variants = ("plain",)
    def gen(self, r, tier):
        f = {"recurrent": 0.25, "stochastic": 0.1}; u = r.random()
        if u < 0.2: f["pred"] = "neural"
        elif u < 0.4: f["cond"] = r.choice(["neural", "rule_neural"])
        elif u < 0.55: f["cond"] = r.choice(["hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "tree_gp", "dgp"])
        if r.random() < 0.1: f["x"] = 16
        m = gen_model(r, feats=f); c = m["cfg"]; c["ea"]["theta_ea"] = r.choice([0, 0, 1, 2, 10]); c["ea"]["subsumption"] = r.random() < 0.2; c["set_subsumption"] = r.random() < 0.2
        for w in ("condition", "prediction", "action"): # every combination of what may evolve
            L = [l for l in c.get(w, {}).get("args", {}).values() if isinstance(l, dict)]
            for i, l in enumerate(L):
                if l["type"] in ("connected", "recurrent", "lstm", "convolutional") and r.random() < 0.6:
                    for k in ("evolve_weights", "evolve_functions", "evolve_eta", "evolve_connect"): l[k] = r.random() < 0.5
                    l["eta_min"] = l["eta"] * r.choice([0, 0.01, 0.5, 1])
                    if i < len(L) - 1 and L[i + 1]["type"] != "softmax" and r.random() < 0.6: l.update({"evolve_neurons": True, "n_max": l["n_init"] + r.choice([0, 1, 2, 6]), "max_neuron_grow": r.choice([1, 2, 5])})
                    if l["sgd_weights"] and r.random() < 0.1: l["eta"] = 1.0
        ops = history(r, m, r.randint(2, 7 if tier == "quick" else 20), p_eval=0.1, expand=False)
        for i in range(len(ops) - 1, 1, -1):
            u = r.random()
            if u < 0.05: ops.insert(i, {"op": "store"}); ops.insert(r.randint(i + 1, len(ops)), {"op": "retrieve"})
            elif u < 0.10: ops.insert(i, {"op": "save", "f": "m.bin"}); ops.insert(i + 1, {"op": "load", "f": "m.bin"})
            elif u < 0.3: ops.insert(i, {"op": "vary", "seed": r.randint(1, 1 << 30), "k": r.randint(2, 8)})
        ops.append({"op": "vary", "seed": r.randint(1, 1 << 30), "k": r.randint(4, 16)})
        return {"model": m, "ops": ops, "fill": r.choice([0, 2, 3])}
    def lists(self, spec): return [["ops"]]
    def runs(self, spec): return [("plain", {"procs": [proc([new_op(spec["model"])] + spec["ops"] + [{"op": "free"}], chk={"inv": 1, "bnd": 1}, heap={"fill": spec["fill"], "quarantine": 1})]})]
    def judge(self, spec, outs):
        p = outs[0][0]; b = bad_end(p)
        return vmsgs(p, ("C24",)) + ([b] if b else [])
class VaryStats(Vary):
    """Population statistics of evolving networks."""
    weight = 0.6
    def gen(self, r, tier):
        while True:
            s = super().gen(r, tier)
            if s["model"]["cfg"]["condition"]["type"] in ("neural", "rule_neural", "tree_gp", "dgp", "rule_dgp") or s["model"]["cfg"]["prediction"]["type"] == "neural": break
        s["ops"] = [{"op": "stats"} if o["op"] == "vary" else o for o in s["ops"]]; return s
    def runs(self, spec): return [("plain", {"procs": [proc([new_op(spec["model"])] + spec["ops"] + [{"op": "free"}], chk={"inv": 0}, heap={"fill": spec["fill"], "quarantine": 1})]})]
    def judge(self, spec, outs):
        p = outs[0][0]; b = bad_end(p)
        return vmsgs(p, ("C22",)) + ([b] if b else [])
# ---------------------------------------------------------------- C14
def cfg_text(cfg): return json.dumps(cfg, indent=1) + "\n"
def rows_text(rows): return "".join(",".join(r) + "\n" for r in rows)
def gen_maze(r):
    H, W = (r.randint(2, 9), r.randint(2, 9)) if r.random() < 0.92 else (r.choice([1, 17, 33, 50]), r.choice([1, 3, 26, 50])); g = [[r.choice("***********OOQFG") for _ in range(W)] for _ in range(H)]
    g[r.randrange(H)][r.randrange(W)] = "*"; return ["".join(x) for x in g]
def gen_csv(r, x, y, kind):
    def num(): return r.choice([f"{r.random():.4f}", repr(r.random()), str(r.randint(0, 1)), f"{r.uniform(-2, 2):.6e}"])
    def tgt():
        if kind == "onehot": k = r.randrange(y); return [str(int(i == k)) for i in range(y)]
        return [str(r.randint(0, 1)) if kind == "bin" else f"{r.random():.4f}" for _ in range(y)]
    def part():
        n = r.randint(1, 9) if r.random() < 0.94 else r.choice([33, 70, 130, 300]); X = [[num() for _ in range(x)] for _ in range(n)]; Y = [tgt() for _ in range(n)]; return X, Y
    (a, b), (c, d) = part(), part(); return {"train_x": a, "train_y": b, "test_x": c, "test_y": d}
def gen_env_model(r, kind, bits=None):
    """A model for a built-in problem, without the dimensions the problem itself decides."""
    while True:
        if kind == "maze": m = gen_model(r, "rl", {"x": 8, "a": 8, "recurrent": 0.05})
        elif kind == "mp": m = gen_model(r, "rl", {"x": bits, "a": 2, "recurrent": 0.05})
        else: m = gen_model(r, "sup", {"recurrent": 0.05, "x": r.randint(1, 5)})
        if m["x"] == 16: continue
        if kind == "maze" and m["a"] != 8: continue
        m["cfg"]["max_trials"] = r.randint(1, 6); m["cfg"]["perf_trials"] = r.choice([1, 1, 2, 3])
        if r.random() < 0.06 and m["cfg"]["condition"]["type"] in ("dummy", "ternary", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid") and m["cfg"]["prediction"]["type"] in ("constant", "nlms_linear"): m["cfg"]["max_trials"] = r.choice([40, 75, 120]); m["cfg"]["pop_size"] = min(m["cfg"]["pop_size"], 40); m["cfg"]["teletransportation"] = min(m["cfg"].get("teletransportation", 10), 10)
        return m
class Builtin(ModelStrategy):
    """The built-in problems and the program, with a spy between the learner and the problem."""
    variants = ("plain",)
    def gen(self, r, tier):
        kind = r.choice(["maze", "maze", "mp", "csv"]); spec = {"kind": kind, "via": r.choice(["main", "main", "lib"]), "chunk": r.choice([0, 0, 1, 7]), "resume": int(r.random() < 0.3), "again": r.randint(0, 2)}
        if kind == "maze": spec["maze"] = gen_maze(r)
        bits = r.choice([3, 6, 6, 11, 11, 20, 37] if kind == "mp" else [3]); ask = {3: r.choice([3, 4, 5]), 6: r.choice([6, 7, 10]), 11: r.choice([11, 12, 19]), 20: r.choice([20, 21, 36]), 37: r.choice([37, 69])}[bits]; spec["bits"] = ask
        spec["model"] = gen_env_model(r, kind, bits)
        if kind == "csv": spec["csv"] = gen_csv(r, spec["model"]["x"], spec["model"]["y"], spec["model"]["kind"])
        return spec
    def lists(self, spec): return []
    def files(self, spec):
        f = {"c.json": cfg_text(spec["model"]["cfg"])}
        if spec["kind"] == "maze": f["p"] = "".join(l + "\n" for l in spec["maze"])
        if spec["kind"] == "csv": f.update({f"p_{k}.csv": rows_text(v) for k, v in spec["csv"].items()})
        return f
    def arg(self, spec): return str(spec["bits"]) if spec["kind"] == "mp" else "p"
    twin = True
    def runs(self, spec):
        env = {"type": spec["kind"], "arg": self.arg(spec)}; new = new_op(spec["model"], env=env); k = {"chk": {"inv": 1}, "chunk": spec["chunk"]}; do = {"op": "envfit" if spec["kind"] == "csv" else "exp"}
        first = [proc([new] + [do] * spec["again"] + [{"op": "save", "f": "m.bin"}, {"op": "crash"}], **k)] if spec["resume"] else []
        load = [{"op": "load", "f": "m.bin"}] if spec["resume"] else []
        if spec["via"] == "main": run = [proc([{"op": "main", "argv": ["xcsf", spec["kind"], self.arg(spec), "c.json"] + (["m.bin"] if spec["resume"] else [])}], chunk=spec["chunk"]), proc([new] + load + [do, {"op": "free"}], **k)]
        else:
            d = {"op": "dig", "rng": 1}; run = [proc([new] + load + [do, d] * (1 + spec["again"]) + [{"op": "free"}], **k)]
            if self.twin and spec["kind"] != "csv": run.append(proc([new] + load + [{"op": "exptwin"}, d] * (1 + spec["again"]) + [{"op": "free"}], **k))
        return [("plain", {"files": self.files(spec), "procs": first + run})]
    def judge(self, spec, outs):
        res = []
        for p in outs[0]:
            b = bad_end(p)
            if b: return [b]
            res += vmsgs(p, ("C14",))
            for rec in ops_of(p):
                n = spec["model"]["cfg"]["max_trials"]
                if rec["op"] == "main":
                    if rec["rc"] != 0: res.append(f"the program ended with status {rec['rc']}")
                    if spec["kind"] != "csv" and rec["episodes"] != "Ex" * n: res.append(f"the program ran episodes {rec['episodes'][:40]} for {n} trials")
                if rec["op"] == "envfit" and rec["trials"] != n: res.append(f"{rec['trials']} learning trials were run, {n} are configured")
        if self.twin and spec["via"] == "lib" and spec["kind"] != "csv" and not res:
            a, b = ([dict(r, op="exp") if r["op"] == "exptwin" else r for r in ops_of(p)] for p in outs[0][-2:])
            x = diff_ops(a, b, "the experiment / its episodes run one by one")
            if x: res.append(x)
        if spec["via"] == "main" and spec["kind"] == "csv":
            o = [r for p in outs[0][-2:] for r in ops_of(p) if r["op"] in ("main", "envfit")]; t = [perf_lines(x["stdout"]) for x in o]
            if t[0] != t[1]: res.append(f"the program reported {t[0][-3:]} over its trials, the library {t[1][-3:]}")
        return res
    def shrink(self, spec):
        for k, v in (("chunk", 0), ("resume", 0), ("again", 0), ("via", "lib")):
            if spec[k] != v: d = copy.deepcopy(spec); d[k] = v; yield d
        if spec["kind"] == "maze":
            for i in range(len(spec["maze"])):
                if len(spec["maze"]) > 2: d = copy.deepcopy(spec); del d["maze"][i]; yield d
        if spec["model"]["cfg"]["max_trials"] > 1: d = copy.deepcopy(spec); d["model"]["cfg"]["max_trials"] -= 1; yield d
        yield from simplify_cfg(spec)
class Lines22(Builtin):
    """The performance an experiment prints, against its episodes run one by one."""
    def gen(self, r, tier):
        while True:
            spec = super().gen(r, tier)
            if spec["kind"] != "csv": break
        spec["via"] = "lib"; c = spec["model"]["cfg"]; c["max_trials"] = max(c["max_trials"], r.randint(2, 9)); return spec
    def runs(self, spec):
        (v, c), = super().runs(spec)
        for p in c["procs"]: p["ops"] = [dict(o, lines=1) if o["op"] in ("exp", "exptwin") else o for o in p["ops"]]
        return [(v, c)]
    def judge(self, spec, outs):
        for p in outs[0]:
            b = bad_end(p)
            if b: return [b]
        A, B = ([q for q in ops_of(p) if q["op"] in ("exp", "exptwin")] for p in outs[0][-2:])
        for a, b in zip(A, B):
            if abs(a["perf"] - b["perf"]) > 1e-9: return [f"the experiment reports a performance of {a['perf']}, its episodes give {b['perf']}"]
            if len(a["lines"]) != len(b["lines"]): return [f"{len(a['lines'])} performance lines were printed, {len(b['lines'])} are due"]
            for x, y in zip(a["lines"], b["lines"]):
                if x[0] != y[0] or x[3] != y[3] or any(isinstance(u, float) and isinstance(w, float) and abs(u - w) > 1.1e-5 + 1e-9 * abs(w) for u, w in zip(map(num_, x[1:3]), map(num_, y[1:3]))): return [f"performance line {x}, the episodes give {y}"]
        return []
    def shrink(self, spec):
        for c in super().shrink(spec):
            if c["via"] == "lib": yield c
def num_(v): return float(v) if not isinstance(v, str) else None
def perf_lines(t): return [l for l in t.split("\n") if re.match(r"^\d+ \S+ \S+ \d+$", l)]

# ---------------------------------------------------------------- C15
def must_refuse(p, what):
    """None if the process stopped with an error, else what it did."""
    for rec in p:
        if "exit" in rec: return None if rec["exit"] != 0 else f"{what}: the program ended reporting success"
        if "died" in rec or rec.get("end") in ("budget", "deadlock"): return f"{what}: {bad_end(p)}"
    return f"{what}: it was accepted"
def messy_json(r, cfg):
    """The same configuration, written the way people write configuration files."""
    t = json.dumps(cfg, indent=r.choice([None, 0, 1, 4])); out = []
    for l in t.split("\n"):
        if r.random() < 0.2: out.append(r.choice(["", "   ", "# a comment", "#", "\t# " + "long " * r.randint(20, 80) + '"beta": 7', '# "pop_size": 3,']))
        if r.random() < 0.2: l += r.choice(["  ", "\t", " # says why", " #" + "x" * r.randint(100, 300), '# "quoted'])
        if r.random() < 0.1: l = " " * r.randint(1, 200) + l
        out.append(l)
    return ("\r\n" if r.random() < 0.2 else "\n").join(out) + r.choice(["", "\n", "\n\n# end\n", "  \n"])
BAD_PARAM = [("pop_size", 0), ("pop_size", -5), ("beta", 1.5), ("beta", -0.1), ("alpha", -1), ("alpha", 2), ("delta", 3), ("max_trials", 0), ("perf_trials", 0), ("theta_del", -1), ("theta_sub", -1), ("gamma", 1.01), ("p_explore", -0.5), ("teletransportation", 0), ("nu", -1), ("e0", -0.1), ("init_error", -1), ("init_fitness", -1), ("m_probation", -1), ("omp_num_threads", 0), ("loss_func", "nonsense"), ("huber_delta", -1),
    ("pop_size", "100"), ("pop_init", 1), ("beta", "0.1"), ("set_subsumption", "yes"), ("no_such_parameter", 1), ("Pop_Size", 10), ("ea", {"lambda": 1}), ("ea", {"p_crossover": 1.5}), ("ea", {"select_type": "best"}), ("ea", {"theta_ea": -1}), ("ea", {"no_such": 1}), ("ea", {"err_reduc": 2}), ("ea", {"subsumption": 1}), ("condition", {"type": "no_such"}), ("prediction", {"type": "no_such"}), ("action", {"type": "no_such"}), ("condition", {}), ("condition", {"type": "ternary", "args": {"no_such": 1}}), ("prediction", {"type": "nlms_linear", "args": {"no_such": 1}}), ("condition", {"type": "hyperrectangle_csr", "args": {"no_such": 1}})]
BAD_PARAM += [("gamma", -0.1), ("p_explore", 1.5), ("delta", -0.2), ("max_trials", -1), ("perf_trials", -3), ("teletransportation", -1), ("omp_num_threads", -2), ("omp_num_threads", 1001), ("theta_del", -3), ("m_probation", -2),
    ("ea", {"p_crossover": -0.1}), ("ea", {"err_reduc": -0.5}), ("ea", {"fit_reduc": -0.5}), ("ea", {"fit_reduc": 1.5}), ("ea", {"select_type": "tournament", "select_size": 0}), ("ea", {"select_size": 1.5}), ("ea", {"select_size": -1}), ("ea", {"lambda": -2})]
BAD_PARAM += [(k, v) for k in ("max_trials", "perf_trials", "pop_size", "omp_num_threads", "gamma", "teletransportation", "p_explore", "alpha", "beta", "delta", "e0", "init_error", "init_fitness", "nu", "theta_del", "m_probation", "theta_sub") for v in ("1", True, [1], None)]
BAD_PARAM += [(k, v) for k in ("pop_init", "stateful", "compaction", "set_subsumption") for v in (0, "true", None)] + [("loss_func", 1), ("loss_func", "")]
BAD_PARAM += [("ea", {k: v}) for k in ("theta_ea", "lambda", "p_crossover", "err_reduc", "fit_reduc", "select_size") for v in ("1", True)] + [("ea", {k: v}) for k in ("subsumption", "pred_reset") for v in (1, "yes")]
_L = {"type": "connected", "activation": "logistic", "n_inputs": 1, "n_init": 1}
def _net(**k): return {"type": "neural", "args": {"layer_0": {q: v for q, v in dict(_L, **k).items() if v is not None}}}
BAD_PARAM += [(w, n) for w in ("condition", "prediction") for n in (_net(type="no_such"), _net(activation="no_such"), _net(no_such=1), _net(n_init="1"), _net(eta="x"), _net(evolve_neurons=1), _net(evolve_neurons=True, n_max=3, max_neuron_grow=0), _net(type="convolutional", n_inputs=None))]
BAD_PARAM += [("condition", {"type": t, "args": {k: v}}) for t, a in (("tree_gp", ("init_depth", "max_len", "n_constants", "min_constant", "max_constant")), ("dgp", ("max_k", "max_t", "n")), ("ternary", ("bits", "p_dontcare")), ("hyperellipsoid", ("eta", "min", "max", "spread_min")), ("hyperrectangle_ubr", ("eta", "min", "max", "spread_min"))) for k in a for v in ("1", True)]
BAD_PARAM += [("condition", {"type": t, "args": {"no_such": 1}}) for t in ("tree_gp", "dgp", "hyperellipsoid", "hyperrectangle_ubr", "rule_dgp")] + [("prediction", {"type": t, "args": {"no_such": 1}}) for t in ("rls_linear", "rls_quadratic", "nlms_quadratic")]
BAD_PARAM += [("prediction", {"type": t, "args": {k: v}}) for t, a in (("nlms_linear", ("eta", "x0", "eta_min")), ("rls_linear", ("x0", "lambda", "scale_factor"))) for k in a for v in ("1", True)] + [("prediction", {"type": "nlms_linear", "args": {"evolve_eta": 1}}), ("condition", 5), ("prediction", "constant"), ("action", "integer"), ("ea", 3)]
_IMG = {"height": 5, "width": 5, "channels": 1, "n_init": 2, "size": 3, "stride": 1, "pad": 0}
BAD_PARAM += [(w, {"type": "neural", "args": {"layer_0": l, "layer_1": {"type": "connected", "activation": "linear", "n_init": 1}}}) for w in ("condition", "prediction") for l in (dict(_IMG, type="convolutional", activation="relu"), dict(_IMG, type="maxpool"), dict(_IMG, type="avgpool"), dict(_IMG, type="upsample"), {"type": "noise", "probability": 0.5, "scale": 1, "channels": 3, "height": 4, "width": 2}, {"type": "dropout", "probability": 0.5, "channels": 3, "height": 4, "width": 2},
    dict(_IMG, type="maxpool", stride=0), dict(_IMG, type="convolutional", activation="relu", size=0), dict(_IMG, type="upsample", stride=0), 5, "connected")]
BAD_PARAM += [(w, {"type": t, "args": v}) for w, t in (("condition", "tree_gp"), ("condition", "hyperrectangle_csr"), ("condition", "dgp"), ("condition", "ternary"), ("prediction", "nlms_linear"), ("prediction", "rls_linear"), ("prediction", "neural"), ("condition", "neural")) for v in (5, "x", True)]
class Intake(ModelStrategy):
    """Data, maze and configuration files: read exactly or refused."""
    variants = ("asan",); cpu = 30
    def gen(self, r, tier):
        kind = r.choice(["csv", "csv", "csv", "maze", "maze", "config", "config"]); env = "csv" if kind == "csv" else "maze" if kind == "maze" else r.choice(["csv", "maze", "mp"])
        bits = r.choice([3, 6]); m = gen_env_model(r, env, bits); m["cfg"]["max_trials"] = r.randint(1, 3); spec = {"kind": kind, "env": env, "bits": bits, "model": m, "via": r.choice(["main", "lib"]), "fault": None, "expect": "same", "why": "an ordinary file"}
        files = {"c.json": cfg_text(m["cfg"])}; x, y = m["x"], m["y"]
        if env == "csv":
            if kind == "csv" and r.random() < 0.3: # many columns: long lines
                q = gen_model(r, "sup", {"x": r.choice([1, 2]), "pred": r.choice(["constant", "nlms_linear"]), "cond": r.choice(["dummy", "hyperrectangle_csr", "ternary"])}); spec["model"] = m = dict(q, x=r.randint(10, 60)); m["cfg"]["max_trials"] = 2; x, y = m["x"], m["y"]; files["c.json"] = cfg_text(m["cfg"])
            C = gen_csv(r, x, y, m["kind"]); files.update({f"p_{k}.csv": rows_text(v) for k, v in C.items()})
        if env == "maze": g = gen_maze(r); files["p"] = "".join(l + "\n" for l in g)
        u = r.random(); targets = [f for f in files if f != "c.json"] if kind != "config" else ["c.json"]
        if u < 0.2: # read errors
            f = r.choice(targets); spec["fault"] = {"kind": "read", "file": f, "frac": r.choice([0, r.random(), r.random(), 0.999]), "err": 5, "sticky": int(r.random() < 0.6)}; spec["expect"] = "refuse"; spec["why"] = "a read error"
            if kind == "csv" and r.random() < 0.4: # inputs and targets both fail after the same row
                q = r.choice(["train", "test"]); n = len(C[q + "_x"]); i = r.randint(0, n - 1); fs = [{"kind": "read", "file": f"p_{q}_{d}.csv", "at": len(rows_text(C[f"{q}_{d}"][:i])), "err": 5, "sticky": 1} for d in "xy"]; spec["fault"], spec["fault2"] = fs; spec["why"] = "read errors"
        elif u < 0.25 and kind != "config": f = r.choice(targets); spec["fault"] = {"kind": "open", "file": f, "err": r.choice([13, 24, 2])}; spec["expect"] = "refuse"; spec["why"] = "a file that cannot be opened"
        elif u < 0.65: spec["expect"] = "refuse"; spec["why"] = self.spoil(r, kind, files, spec, C if env == "csv" else g if env == "maze" else None)
        else: self.vary(r, kind, files, spec, C if env == "csv" else g if env == "maze" else None)
        spec["files"] = files; spec["chunk"] = r.choice([0, 0, 1, 3, 17, 64]); return spec
    def spoil(self, r, kind, files, spec, C):
        """Makes the contents inconsistent; says how."""
        m = spec["model"]
        if kind == "csv":
            k = r.choice(list(C)); rows = [list(q) for q in C[k]]; i = r.randrange(len(rows)); w = r.choice(["short", "extra", "text", "lessrows", "morerows", "dims", "empty", "blank", "missing", "hole"]); txt = None
            if w in ("short", "extra") and len(rows) < 2: rows += [list(rows[0])] * 1; w = "morerows"
            if w == "short" and len(rows[0]) == 1: w = "extra"
            if w == "short": rows[i] = rows[i][:-1]; why = "a row with too few values"
            elif w == "extra": rows[i].append("0.5"); why = "a row with too many values"
            elif w == "text": rows[i][r.randrange(len(rows[i]))] = r.choice(["abc", "0.5x", "1.2.3", "--1", "?", "1;2", "0.1 0.2", "0x", "e5", "'1'"]); why = "a value that is not a number"
            elif w == "hole": j = r.randrange(len(rows[i])); rows[i][j] = r.choice(["", " "]); why = "a missing value"
            elif w == "lessrows":
                if len(rows) == 1: rows.append(list(rows[0]))
                else: del rows[i]
                why = "differing numbers of rows"
            elif w == "morerows": 
                if len(rows) == len(C[k]): rows.insert(i, list(rows[i]))
                why = "differing numbers of rows"
            elif w == "dims":
                k = r.choice(["test_x", "test_y"]); rows = [list(q) + ["1"] for q in C[k]]
                if len(rows[0]) > 2 and r.random() < 0.5: rows = [q[:-2] for q in rows]
                why = "test data with other dimensions than the training data"
            elif w == "empty": txt = r.choice(["", "\n"]); why = "no data"
            elif w == "blank": t = rows_text(rows).split("\n"); t.insert(r.randint(0, len(t) - 2), ""); txt = "\n".join(t); why = "a blank row"
            else: del files[f"p_{k}.csv"]; return "a missing file"
            if txt is None: txt = rows_text(rows)[:-1 if r.random() < 0.3 else None]
            files[f"p_{k}.csv"] = txt; return why
        if kind == "maze":
            g = list(C); w = r.choice(["ragged", "ragged", "char", "nofree", "wide", "high", "empty", "missing"]); i = r.randrange(len(g))
            if w == "ragged":
                if len(g) == 1: g.append(g[0])
                g[i] = g[i][:-1] if len(g[i]) > 1 and r.random() < 0.5 else g[i] + r.choice("*OF"); why = "rows of differing lengths"
            elif w == "char": j = r.randrange(len(g[i])); g[i] = g[i][:j] + r.choice("x.# o1\t?f") + g[i][j + 1:]; why = "an unknown symbol"
            elif w == "nofree": g = [l.replace("*", r.choice("OFQG")) for l in g]; why = "no free cell"
            elif w == "wide": n = r.choice([51, 52, 60, 300]); g = [(l * 200)[:n] for l in g]; why = "more columns than supported"
            elif w == "high": n = r.choice([51, 52, 60, 300]); g = (g * 200)[:n]; why = "more rows than supported"
            elif w == "empty": files["p"] = ""; return "no cells"
            else: del files["p"]; return "a missing file"
            files["p"] = "\n".join(g) + r.choice(["\n", ""]); return why
        t = files["c.json"]; w = r.choice(["cut", "cut", "param", "param", "param", "param", "tail", "notobject", "empty", "syntax", "dims"])
        if w == "dims": files["c.json"] = cfg_text(dict(m["cfg"], **r.choice([{"x_dim": m["x"] + r.choice([-1, 1, 5])} if m["x"] > 1 else {"x_dim": 3}, {"y_dim": m["y"] + 1}]))); spec["via"] = "main"; return "dimensions other than the problem's"
        if w == "cut": files["c.json"] = t[:r.randint(0, t.rindex("}") - 1)]; return "a configuration cut short"
        if w == "tail": files["c.json"] = t + r.choice(["}", "x", cfg_text({"beta": 0.3}), "]", ","]); return "text after the configuration"
        if w == "notobject": files["c.json"] = r.choice(["[1, 2]", "5", '"beta"', "null", "[]", '[{"beta": 0.1}]']); return "a configuration that is not an object"
        if w == "empty": files["c.json"] = r.choice(["", "\n", "# nothing\n"]); return "an empty configuration"
        if w == "syntax": i = r.choice([k for k, ch in enumerate(t) if ch in ":,{"]); files["c.json"] = t[:i] + r.choice(["", ";", "=", ",,"]) + t[i + 1:]; return "a configuration that is not JSON"
        k, v = r.choice(BAD_PARAM); c = dict(m["cfg"])
        if k == "ea" and isinstance(v, dict): c["ea"] = dict(c["ea"], **v)
        elif k in c and r.random() < 0.7: c[k] = v
        else: c.pop(k, None); c = dict([(k, v)] + list(c.items())) if r.random() < 0.5 else dict(c, **{k: v})
        files["c.json"] = cfg_text(c); return f"parameter {k} = {json.dumps(v)}"
    def vary(self, r, kind, files, spec, C):
        """Other ways of writing the same contents."""
        if kind == "csv":
            for k in C:
                if r.random() < 0.6: continue
                rows = [list(q) for q in C[k]]
                if r.random() < 0.4: rows = [[r.choice(["", "", " ", "  "]) + c + r.choice(["", "", " ", "\t"]) for c in q] for q in rows]; 
                t = rows_text(rows); 
                if r.random() < 0.3: t = t.replace("\n", "\r\n")
                if r.random() < 0.4: t = t.rstrip("\r\n")
                files[f"p_{k}.csv"] = t
            spec["why"] = "another way of writing the data"
        elif kind == "maze":
            g = list(C); w = r.choice(["open", "big", "same"])
            if w == "big": g = [(l * 50)[:r.choice([50])] for l in g]; g = (g * 50)[:r.choice([50, 49])]
            files["p"] = "\n".join(g) + ("" if w == "open" or r.random() < 0.3 else "\n"); spec["why"] = "another way of writing the maze"
        else: files["c.json"] = messy_json(r, spec["model"]["cfg"]); spec["why"] = "another way of writing the configuration"
    def lists(self, spec): return []
    def runs(self, spec):
        env = {"type": spec["env"], "arg": str(spec["bits"]) if spec["env"] == "mp" else "p"}; k = {"chunk": spec["chunk"], "disk_seed": 7, "chk": {"inv": 1}}; do = {"op": "envfit" if spec["env"] == "csv" else "exp"}
        if spec["fault"]:
            f = dict(spec["fault"]); size = len(spec["files"].get(f["file"], "").encode()); f["at"] = min(int(f.pop("frac", 0) * size), size - 1) if "at" not in f else f["at"]; k["faults"] = [f] + ([spec["fault2"]] if spec.get("fault2") else [])
        main = proc([{"op": "main", "argv": ["xcsf", spec["env"], env["arg"], "c.json"]}], **k); lib = proc([new_op(spec["model"], env=env, config="c.json")] + ([{"op": "envdata"}] if spec["env"] == "csv" else []) + [{"op": "params", "slot": "p"}, {"op": "dig"}, do, {"op": "free"}], **k)
        if spec["expect"] == "refuse": P = [main if spec["via"] == "main" else lib]
        else: # the configuration given directly
            P = [lib, proc([new_op(spec["model"], env=env)] + ([{"op": "envdata"}] if spec["env"] == "csv" else []) + [{"op": "params", "slot": "p"}, {"op": "dig"}, do, {"op": "free"}], **dict(k, chunk=0))] + ([main] if spec["via"] == "main" else [])
        return [("asan", {"files": spec["files"], "procs": P})]
    def judge(self, spec, outs):
        P = outs[0]
        if spec["expect"] == "refuse":
            if spec["fault"]:
                fired = next((r["fired"] for r in P[0] if "fired" in r), None)
                if fired is not None and not sum(fired): return []
            x = must_refuse(P[0], f"{spec['env'] if spec['kind'] != 'config' else 'configuration'} file with {spec['why']}"); return [x] if x else []
        for p in P:
            x = bad_end(p)
            if x: return [f"{spec['why']}: {x}"]
        res = [x for p in P for x in vmsgs(p, ("C14", "C15"))]; A = ops_of(P[0])
        if spec["env"] == "csv":
            for part in ("train", "test"):
                want = [[float(c) for q in spec["files"][f"p_{part}_{d}.csv"].split("\n") if q.strip() for c in q.split(",")] for d in "xy"]
                got = [[float(c) for c in t.split()] for t in A[1][part].split("|")]
                if want != got: res.append(f"{spec['why']}: the {part} data read are not those in the files ({sum(map(len, got))} of {sum(map(len, want))} values)")
        d = diff_ops(P[0], P[1], "from files / given directly")
        if d: res.append(f"{spec['why']}: {d}")
        return res
    def shrink(self, spec):
        for k, v in (("chunk", 0), ("via", "lib")):
            if spec[k] != v: d = copy.deepcopy(spec); d[k] = v; yield d
        if spec["model"]["cfg"]["max_trials"] > 1 and "\n" in spec["files"].get("c.json", ""): pass
class BadParams(ModelStrategy):
    """Many configurations, each with one parameter that must be refused."""
    variants = ("asan",); cpu = 60
    def gen(self, r, tier):
        bits = r.choice([3, 6]); m = gen_env_model(r, "mp", bits); m["cfg"]["max_trials"] = 1
        return {"model": m, "bits": bits, "bad": [list(BAD_PARAM[i]) for i in r.sample(range(len(BAD_PARAM)), 16)], "chunk": r.choice([0, 0, 17])}
    def lists(self, spec): return [["bad"]]
    def text(self, spec, k, v):
        c = copy.deepcopy(spec["model"]["cfg"])
        if k == "ea" and isinstance(v, dict): c["ea"].update(v)
        else: c[k] = v
        return cfg_text(c)
    def runs(self, spec):
        if not spec["bad"]: return []
        F = {f"c{i}.json": self.text(spec, k, v) for i, (k, v) in enumerate(spec["bad"])}; do = [{"op": "params", "slot": "p"}, {"op": "exp"}, {"op": "free"}]
        return [("asan", {"files": F, "procs": [proc([new_op(spec["model"], env={"type": "mp", "arg": str(spec["bits"])}, config=f)] + do, chunk=spec["chunk"], disk_seed=7) for f in F]})]
    def judge(self, spec, outs):
        if not outs: return []
        return [x for (k, v), p in zip(spec["bad"], outs[0]) for x in [must_refuse(p, f"configuration file with parameter {k} = {json.dumps(v)}")] if x]
    def shrink(self, spec):
        for p in self.lists(spec): yield from shrink_list(spec, p)
def pop_damage(r, t, m):
    """Spoils an exported population; returns the text and how, or None if nothing was there to spoil."""
    o = json.loads(t); C = o["classifiers"]; w = r.choice(["cut", "cut", "tail", "shape", "num", "num", "action", "len", "len", "symbol", "conn", "func"])
    if w == "cut": return t[:r.randint(0, len(t) - 2)], "cut short"
    if w == "tail": return t + r.choice(["}", "x", "{}"]), "followed by other text"
    if w == "shape": return r.choice(["{}", "[]", json.dumps(C), '{"classifiers": 5}', '{"classifiers": {}}', "5", "null", '"x"']), "that is no list of rules"
    if not C: return None
    c = r.choice(C)
    if w == "num": c["numerosity"] = r.choice([0, -1, -1000]); return json.dumps(o), "with a numerosity below one"
    if w == "action" and c.get("action", {}).get("type") == "integer": c["action"]["action"] = r.choice([-1, m["a"], m["a"] + 100, -2 ** 31]); return json.dumps(o), "with an action that does not exist"
    if w == "symbol" and "string" in c.get("condition", {}): s = c["condition"]["string"]; c["condition"]["string"] = r.choice([s[:-1], s + "#", "x" + s[1:], "2" + s[1:], ""]); return json.dumps(o), "with a damaged ternary string"
    g = c.get("condition", {}).get("graph")
    if w == "conn" and g: g["connectivity"][r.randrange(len(g["connectivity"]))] = r.choice([-1, g["n"] + g["n_inputs"], g["n"] + g["n_inputs"] + 50, 10 ** 6]); return json.dumps(o), "with a connection to a node that does not exist"
    if w == "func" and g: g["functions"][0] = "no such"; return json.dumps(o), "with an unknown function"
    if w == "len":
        L = [(b, k) for b in (c, c.get("condition", {}), c.get("prediction", {}), g or {}, c.get("action", {})) for k, v in b.items() if isinstance(v, list) and v and k != "mutation"]
        if L: b, k = r.choice(L); b[k] = r.choice([b[k][:-1], b[k] + b[k][-1:]]); return json.dumps(o), f"with a {k} of the wrong length"
    return None
class IntakePop(ModelStrategy):
    """Population files: read exactly or refused."""
    variants = ("asan",); cpu = 30; weight = 0.5
    def gen(self, r, tier):
        while True:
            m = gen_model(r, feats={"recurrent": 0, "pop": r.choice([4, 8, 12])})
            if importable(m): break
        m["cfg"]["pop_init"] = r.random() < 0.3; ops = history(r, m, r.randint(1, 5), p_eval=0.1, setp=False)
        how = r.choice(["same", "same", "read", "open", "spoil", "spoil", "spoil", "spoil"])
        return {"model": m, "ops": ops, "how": how, "rs": r.randint(0, 1 << 30), "chunk": r.choice([0, 0, 1, 13, 100, 1000]), "frac": r.choice([0, r.random(), r.random(), 0.9999]), "sticky": int(r.random() < 0.6), "indent": r.choice([None, 1])}
    def execute(self, spec):
        r = random.Random(spec["rs"]); m = spec["model"]; out0 = world.run("asan", {"procs": [proc([new_op(m)] + spec["ops"] + [{"op": "json", "slot": "j", "text": 1}], chk={"inv": 0})]}, self.cpu)
        if bad_end(out0[0]): return [out0]
        t = ops_of(out0[0])[-1]["text"]; note = {"size": 0}
        if spec["how"] == "spoil":
            d = pop_damage(r, t, m)
            if d is None: return [out0]
            t, note["why"] = d
        elif spec["how"] == "same" and spec["indent"]: t = json.dumps(json.loads(t), indent=spec["indent"])
        f = [{"kind": spec["how"], "file": "pop.json", "at": min(int(spec["frac"] * len(t)), len(t) - 1), "err": 5, "sticky": spec["sticky"]}] if spec["how"] in ("read", "open") else []
        q = dict(m, cfg=dict(m["cfg"], population_file="pop.json")); tail = [{"op": "json", "slot": "k"}, {"op": "dig"}] + [o for o in spec["ops"] if o["op"] == "data"] + [learn_op(r, m, 0, 0, n=3), {"op": "free"}]
        P = [proc([{"op": "put", "f": "pop.json", "text": t}, new_op(q, faults=f, chunk=spec["chunk"])] + tail)]
        if spec["how"] == "same": P.append(proc([{"op": "put", "f": "pop.json", "text": t}, new_op(q)] + tail))
        return [out0, world.run("asan", {"procs": P}, self.cpu), [[note]]]
    def judge(self, spec, outs):
        x = bad_end(outs[0][0])
        if x: return ["while exporting: " + x]
        if len(outs) == 1: return []
        P = outs[1]; why = outs[2][0][0].get("why")
        if spec["how"] == "same":
            for p in P:
                x = bad_end(p)
                if x: return ["population file: " + x]
            d = diff_ops(P[0], P[1], "small reads / whole"); return [d] if d else []
        if spec["how"] in ("read", "open") and not sum(next((q["fired"] for q in P[0] if "fired" in q), [1])): return []
        x = must_refuse(P[0], "population file " + (why or f"with a failing {spec['how']}")); return [x] if x else []
    def lists(self, spec): return [["ops"]]
    def key(self, spec, outs): return super().key(spec, outs[:2])

# ---------------------------------------------------------------- C16
def near(a, b):
    """Equal up to the 15 digits cJSON may write."""
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(near(p, q) for p, q in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b or abs(a - b) <= 1e-9 * max(1e-6, abs(a), abs(b))
    return a == b
class JsonTrip(ModelStrategy):
    """Export, import elsewhere, compare rules and predictions."""
    variants = ("plain",)
    def gen(self, r, tier):
        while True:
            m = gen_model(r, feats={"recurrent": 0})
            if importable(m): break
        ops = history(r, m, r.randint(1, 8), p_eval=0.3, setp=False); q = copy.deepcopy(m); q["cfg"]["pop_init"] = False; q["cfg"]["random_state"] = r.randint(0, 1000)
        return {"model": m, "ops": ops, "target": q, "via": r.choice(["insert", "insert", "each", "file", "file", "over"]), "indent": r.choice([None, None, 1]), "resave": int(r.random() < 0.2), "heap": {"fill": r.choice([0, 1, 2, 3]), "seed": r.randint(1, 1 << 30)}, "chunk": r.choice([0, 0, 1, 50])}
    def lists(self, spec): return [["ops"]]
    def execute(self, spec):
        D = [o for o in spec["ops"] if o["op"] == "data"]; E = [{"op": "predict", "d": o["d"], "cover": 0.25, "vals": 1} for o in D]
        look = [{"op": "json", "slot": "z", "text": 1}, {"op": "rules"}] + E
        re_ = [{"op": "save", "f": "t.bin"}, {"op": "load", "f": "t.bin"}] if spec["resave"] else []
        a = world.run("plain", {"procs": [proc([new_op(spec["model"])] + spec["ops"] + re_ + look, chk={"inv": 0})]}, self.cpu)
        if bad_end(a[0]): return [a]
        t = next(o for o in ops_of(a[0])[::-1] if o["op"] == "json")["text"]
        if spec["indent"]: t = json.dumps(json.loads(t), indent=spec["indent"])
        q = spec["target"]; put = [{"op": "put", "f": "pop.json", "text": t}]
        if spec["via"] == "file": B = put + [new_op(dict(q, cfg=dict(q["cfg"], population_file="pop.json")))]
        else: B = put + [new_op(q), {"op": "slotf", "f": "pop.json", "slot": "j"}, {"op": "jsonin1" if spec["via"] == "each" else "jsonin", "slot": "j"}]
        if spec["via"] == "over": B += [{"op": "save", "f": "o.bin"}, new_op(dict(q, cfg=dict(q["cfg"], pop_init=True)), 1), {"op": "load", "f": "o.bin", "m": 1}, {"op": "save", "f": "o2.bin", "m": 1}, {"op": "load", "f": "o2.bin"}]
        return [a, world.run("plain", {"procs": [proc(B + D + look, chk={"inv": 1}, heap=spec["heap"], chunk=spec["chunk"])]}, self.cpu)]
    def judge(self, spec, outs):
        x = bad_end(outs[0][0])
        if x: return ["exporting side: " + x]
        x = bad_end(outs[1][0])
        if x: return ["importing side: " + x]
        A, B = ops_of(outs[0][0]), ops_of(outs[1][0]); n = 2 + len([o for o in spec["ops"] if o["op"] == "data"]); A, B = A[-n:], B[-n:]
        res = vmsgs(outs[1][0], ("C06", "C16"))
        ra, rb = A[1]["rules"], B[1]["rules"]
        if len(ra) != len(rb): res.append(f"{len(ra)} rules exported, {len(rb)} after the import")
        else:
            F = ["error", "fitness", "set size", "numerosity", "experience", "time", "samples seen", "samples matched", "current action", "current match"]
            for p, q in zip(ra, rb):
                bad = [F[i] if i < len(F) else "current prediction" for i in range(len(p)) if not near(p[i], q[i])]
                if bad: res.append("an imported rule differs in its " + ", ".join(sorted(set(bad)))); break
        if A[0]["text"] != B[0]["text"]:
            ja, jb = json.loads(A[0]["text"])["classifiers"], json.loads(B[0]["text"])["classifiers"]
            e0 = spec["model"]["cfg"].get("e0", 0.01)
            for p, q in zip(ja, jb): # accuracy jumps at e0, and the text holds 15 digits of the error
                if all(isinstance(t.get("error"), (int, float)) and near(t["error"], e0) for t in (p, q)): p.pop("accuracy", None); q.pop("accuracy", None)
            d = next((d for p, q in zip(ja, jb) for d in [jdiff(p, q)] if d), None)
            if d: res.append("exporting the imported rules gives another text: " + d)
        for p, q in zip(A[2:], B[2:]):
            if not near(p["vals"], q["vals"]): res.append("the imported population predicts differently"); break
        return res
    def shrink(self, spec):
        for k, v in (("indent", None), ("resave", 0), ("heap", {"fill": 0}), ("chunk", 0), ("via", "insert")):
            if spec[k] != v: d = copy.deepcopy(spec); d[k] = v; yield d
        for p in self.lists(spec): yield from shrink_list(spec, p)
        yield from shrink_counts(spec)
def jdiff(p, q, at=""):
    if isinstance(p, dict) and isinstance(q, dict):
        for k in list(p) + [k for k in q if k not in p]:
            if k not in p or k not in q: return f"{at}.{k} appears in only one"
            d = jdiff(p[k], q[k], at + "." + k)
            if d: return d
        return None
    return None if near(p, q) else f"{at}: {str(p)[:40]} / {str(q)[:40]}"
class ParamTrip(ModelStrategy):
    """Exported parameters imported into a fresh model; both learn alike."""
    variants = ("plain",); weight = 0.6
    def gen(self, r, tier):
        m = gen_model(r, feats={"stochastic": 0.2, "recurrent": 0.2}); ops = history(r, m, r.randint(1, 4), p_eval=0.3, setp=False)
        for sec in ("condition", "prediction", "action"): # settings without effect are not exported
            for l in m["cfg"].get(sec, {}).get("args", {}).values():
                if isinstance(l, dict) and "sgd_weights" in l:
                    if not l["sgd_weights"]: [l.pop(k, None) for k in ("eta", "evolve_eta", "eta_min", "momentum", "decay")]
                    elif not l.get("evolve_eta"): l.pop("eta_min", None)
        return {"model": m, "ops": ops, "dirty": int(r.random() < 0.4), "other": gen_model(r), "pre_ops": history(r, m, r.randint(0, 2), setp=False) if r.random() < 0.4 else [], "heap": {"fill": r.choice([0, 1, 2]), "seed": r.randint(1, 1 << 30)}}
    def lists(self, spec): return [["ops"], ["pre_ops"]]
    def runs(self, spec):
        m = spec["model"]; seed = {"op": "reseed", "seed": 77}; data = [o for o in spec["ops"] if o["op"] == "data"]; run = [o for o in spec["ops"] if o["op"] != "data"]
        # the exported text is put on the disk by the first process and read by the second
        A = [new_op(m)] + spec["pre_ops"] + [{"op": "params", "slot": "p", "f": "p.json", "text": 1}]
        B0 = [new_op(m, init=0), {"op": "params", "slot": "q", "text": 1}, {"op": "init"}] + data + run + [{"op": "dig"}]
        pre = [{"op": "paramsin", "slot": "o"}] if spec["dirty"] else []
        B1 = [dict(new_op(m, init=0), cfg={}), {"op": "slotf", "f": "p.json", "slot": "p"}, {"op": "paramsin", "slot": "p"}, {"op": "params", "slot": "q", "text": 1}, {"op": "init"}] + data + run + [{"op": "dig"}]
        return [("plain", {"procs": [proc(A, chk={"inv": 0}), proc(B0, chk={"inv": 0}), proc(B1, chk={"inv": 0}, heap=spec["heap"])]})]
    def judge(self, spec, outs):
        for p in outs[0]:
            x = bad_end(p)
            if x: return [x]
        a, b0, b1 = map(ops_of, outs[0]); ta, tb = a[-1]["text"], b1[3]["text"]; res = []
        d = jdiff(json.loads(ta), json.loads(tb))
        if d: res.append("exporting the imported parameters gives another text: " + d)
        d = diff_ops(b0[2:], [dict(q, i=p["i"]) for p, q in zip(b0[2:], b1[4:])], "configured / from exported parameters", fields=("params", "rules", "learned", "json", "size", "num"))
        return res + ([d] if d else [])

# ---------------------------------------------------------------- registry
REAL_C = ["the whole xcsf C library and main.c compiled from /repo's working tree", "cJSON and dSFMT as installed"]
STUB_C = ["OpenMP runtime (simulated: worker threads run one at a time under the seeded scheduler)", "heap allocator (controlled contents and placement)", "disk behind fopen (in-memory, with faults)", "clock and entropy", "process exit"]
REAL_PY = ["pybind_wrapper.cpp and the C library as the Python module, the real CPython, numpy and pickle (where the rule says Python)"]
STUB_PY = ["in the Python runs: file system calls pass a seam that injects faults and kills, the order in which processes proceed, contents of fresh memory; one OpenMP worker"]
CHECKS = {}
sys.modules.setdefault("checks", sys.modules[__name__])
import pychecks as py
def W(s, w): s.weight = w; return s
# Most runs of a quick check: about as many seeds as were swept (DESIGN.md; a thorough check has no such limit).
QUICK_N = dict(C01=2500, C02=1750, C03=4400, C04=4400, C06=2200, C07=2700, C08=1940, C09=1890, C10=5100, C11=4800, C12=3600, C14=5200, C15=8400, C17=4050, C22=2700, C24=7500)
def reg(prop, strats, rule, level="exploration", **k):
    k.setdefault("quick_n", QUICK_N.get(prop, 10000))
    if any("py" in s.variants for s in strats): k.setdefault("real", REAL_C + REAL_PY); k.setdefault("stub", STUB_C + STUB_PY)
    CHECKS[prop] = Check(prop, strats, level, k.pop("real", REAL_C), k.pop("stub", STUB_C), rule, **k)
RULE_REF = "A seeded random model (every condition/prediction/action type, loss, parameters) and history of learning trials, reinforcement episodes, evaluations, saves and stores; each trial is judged against an independent account computed from a copy of the process. Non-trivial and distinct: the recorded results of the run differ from those of every other run."
reg("C06", [Ref06()], RULE_REF); TWIN = " A share of the runs drives the Python module and the library through the same history and compares every returned value and population bit for bit."; reg("C07", [Ref07(), W(py.PyTwin(), 0.12)], RULE_REF + TWIN); reg("C08", [Ref08(), W(py.PyTwin(), 0.12)], RULE_REF + TWIN); reg("C09", [Ref09()], RULE_REF)
reg("C22", [Stats22(), VaryStats(), W(Lines22(), 0.3), W(py.PyStats(), 0.3)], RULE_REF + " Training calls that print performance, and experiments in built-in problems, are compared with the same trials run one by one; population averages with the exported rules; in Python the metrics, status lines and statistics with the calls made.")
reg("C23", [Restructure()], "A seeded random model with network predictions and a history of learning, evaluation, saves and stores, in which the predictions are expanded by a layer or the model is turned into a classifier at random places; every rule and every layer is compared before and after, and the predictions of classifiers judged from then on. Distinct: recorded results differ.")
reg("C25", [py.PyRefused()], "A seeded random model and history driven through the Python module twice, once with calls that are refused (arrays of wrong shape, size or type, unusable validation data, callbacks, covers, actions or parameters) or that fail because of injected disk errors inserted between and, in episodes, within the calls; every later result, the population, statistics and parameters are compared bit for bit. Distinct: recorded results differ.")
reg("C24", [Vary()], "A seeded random model and history, every combination of evolvable traits; after every call each rule is compared with the bounds of its configuration, and at random places rules of the population are copied, crossed and mutated repeatedly in a forked copy of the process and each step judged. Distinct: recorded results differ.")
RULE_SCHED = "A seeded random model and history run with one worker and under seeded schedules (random preemption, PCT priorities, thread orders) with 2 to 8 workers, preempted between instrumented memory accesses. Non-trivial: several workers ran in a region; distinct: the sequence of (region, worker, access count) switches differs."
reg("C01", [Sched01()], RULE_SCHED); reg("C02", [Race02()], RULE_SCHED)
reg("C03", [Repro(), W(py.PyOrder(), 0.15)], "A seeded random model and history run in a reference surrounding and in others: heap contents and placement, wall clock, entropy, uninitialised stack contents, parameter order, and earlier activity of the process on other models or the generator; a share of them through the Python module. Distinct: recorded results differ.")
reg("C04", [SaveLoad()], "A seeded random model is trained, saved, and its process crashes; another process loads the file over the same or a different model and both continue under the same seed. Distinct: recorded results differ.")
reg("C05", [SaveFault(), LoadFault(), W(py.PyFiles(), 0.7)], "A seeded random model is saved under disk faults (open, short and failing writes at a chosen byte, failing close, small chunks) and the process killed right after the save returns, or loaded from a file cut off or failing at a chosen byte; from C and from Python, where the population is also written and read as JSON. Distinct: recorded results differ.", level="fault_enumeration")
reg("C10", [StoreRetrieve(), W(py.PyCallbacks(), 0.7)], "A seeded random model is trained, stored, changed by further learning, loading and parameter changes, and retrieved; and the same history with and without a store; Python training with early stopping and checkpoint callbacks (patience, minimum change, start, frequency, best only, kill at a file operation) against runs of the same seed without them. Distinct: recorded results differ.")
reg("C17", [EvalReadOnly()], "A seeded random model and learning history, run with and without predictions and scores inserted at random places; the model is compared before and after each evaluation and at the end. Distinct: recorded results differ.")
reg("C11", [py.PyPickle()], "Up to three simulated Python processes with seeded models of every representation pickle, unpickle, save and export in one directory, interleaved at their file operations by the seeded scheduler, with open, write, read, rename, close and remove faults and kills; each unpickled model, in the same or another process, is compared and continued under one seed, and the directory is inspected for leftovers. Distinct: recorded results or the order of file operations differ.", level="fault_enumeration", real=REAL_PY, stub=STUB_PY)
reg("C12", [Isolate(), W(py.PyArrays(), 0.6)], "A seeded random model's calls, each under its own seed, run alone and interleaved with calls on one or two other models in the same process; every array passed in is checked for modification and destroyed after the call; in Python the arrays are also lists, other types, strided, reversed, read-only, temporary or of wrong shapes. Distinct: recorded results differ.")
reg("C13", [Memory(), W(py.PyLife(), 0.3)], "A seeded random model and history of learning, evaluation, saving, loading over other models, storing, retrieving, JSON insertion, layer growth and autoencoder conversion under the address sanitizer with poisoned fresh memory, after which all models are destroyed and the allocations counted; likewise for Python objects. Distinct: recorded results differ.")

reg("C14", [Builtin()], "A seeded random maze, multiplexer size or data set and configuration, run by the program or the library, resumed from a saved model or not; a spy between learner and problem judges every reset, sensed state, move, reward and episode end. Distinct: recorded results differ.")
reg("C15", [Intake(), IntakePop(), W(BadParams(), 0.08)], "Seeded data, maze, configuration and population files: written in many equivalent ways (compared with the contents given directly), spoiled in one place, or read through small chunks, failing opens and read errors at a chosen byte; under the address sanitizer. Distinct: recorded results differ.", level="fault_enumeration")
# ---------------------------------------------------------------- C18
def extreme(r, m):
    """Accepted parameter values at the ends of their ranges."""
    c = m["cfg"]; ea = c["ea"]; p = 0.15
    def put(d, k, vals):
        if r.random() < p: d[k] = r.choice(vals)
    put(c, "alpha", [0, 1]); put(c, "beta", [0, 1, 1e-9]); put(c, "delta", [0, 1]); put(c, "nu", [0, 1e3, 1e-3]); put(c, "e0", [0, 1e9, 1e-300]); put(c, "theta_del", [0, 1000000])
    put(c, "init_fitness", [0, 1e-300, 1e9]); put(c, "init_error", [0, 1e9]); put(c, "m_probation", [0, 1]); put(c, "theta_sub", [0, 1000000])
    if m["mode"] == "rl": put(c, "gamma", [0, 1]); put(c, "p_explore", [0, 1]); put(c, "teletransportation", [1, 2])
    put(ea, "select_size", [0, 1, 1e-3]); put(ea, "theta_ea", [0]); put(ea, "p_crossover", [0, 1]); put(ea, "err_reduc", [0, 1]); put(ea, "fit_reduc", [0, 1])
    if r.random() < p: ea["select_type"] = "tournament"
    t = c["condition"]["type"]; a = c["condition"].get("args"); p = 0.4
    if a:
        if t.startswith("hyper"): put(a, "spread_min", [0, 1]); put(a, "max", [0, 1e-9, 1e9]); put(a, "eta", [1])
        elif t == "ternary": put(a, "p_dontcare", [0, 1]); put(a, "bits", [1, 8])
        elif t == "tree_gp":
            put(a, "n_constants", [1]); put(a, "init_depth", [1, 2, 8]); put(a, "max_len", [1, 2, 3, 5, 7]); put(a, "min_constant", [1, -1e9])
        elif t in ("dgp", "rule_dgp"): put(a, "n", [1, 2] if t == "dgp" else [3]); put(a, "max_k", [1]); put(a, "max_t", [1])
        else:
            for l in a.values():
                if l["type"] in ("connected", "convolutional"): put(l, "eta", [0, 1]); put(l, "max_neuron_grow", [1, 50]); put(l, "n_max", [1, 1000]); put(l, "decay", [0, 1]); put(l, "momentum", [0, 1])
                if l["type"] == "noise": put(l, "scale", [0]); put(l, "probability", [0, 1])
                if l["type"] == "dropout": put(l, "probability", [0, 1])
class Progress(ModelStrategy):
    """Every operation has a budget of simulated steps."""
    variants = ("tsan",); cpu = 120; BUDGET = 100_000_000
    def gen(self, r, tier):
        m = gen_model(r, feats={"stochastic": 0.15, "pop": r.choice([4, 6, 10, 16])})
        if m["mode"] == "rl" and m["a"] > 4: m["a"] = r.choice([2, 3, 4])
        if "args" in m["cfg"].get("action", {}): m["cfg"]["action"].pop("args")
        if m["cfg"]["condition"]["type"] == "rule_neural": m = gen_model(r, feats={"stochastic": 0.15, "cond": "hyperrectangle_csr", "pop": 10})
        if r.random() < 0.8: extreme(r, m)
        ops = []
        for d in range(2):
            o = data_op(r, m, d); u = r.random()
            if u < 0.15: o["xk"] = "zero"
            elif u < 0.3: o["xk"] = "one"
            elif u < 0.4 and o["kind"] == "reg": o["kind"] = "huge"
            ops.append(o)
        for _ in range(r.randint(2, 6)):
            u = r.random(); d = r.randrange(2)
            if u < 0.6: o = learn_op(r, m, 0, d); o["n"] = min(o.get("n", 8), 8); ops.append(o)
            elif u < 0.8: ops.append(eval_op(r, m, 0, d))
            elif u < 0.9: ops += [{"op": "save", "f": "m.bin"}, {"op": "load", "f": "m.bin"}]
            else: ops += [{"op": "store"}, learn_op(r, m, 0, d, n=3), {"op": "retrieve"}]
        return {"model": m, "ops": ops}
    def runs(self, spec):
        return [("tsan", {"procs": [proc([new_op(spec["model"])] + spec["ops"] + [{"op": "json", "slot": "j"}, {"op": "free"}], budget=self.BUDGET, sched={"mode": 0, "team": 1}, heap={"fill": 2, "seed": 5})]})]
    def judge(self, spec, outs):
        p = outs[0][0]; e = p[-1] if p else {}
        if e.get("end") in ("budget", "deadlock"):
            done = [q for q in p if "op" in q]; k = len(done); ops = ["new"] + [o["op"] for o in spec["ops"]] + ["json", "free"]
            return [f"operation {k} ({ops[k] if k < len(ops) else '?'}) did not finish within {self.BUDGET} steps"]
        b = bad_end(p)
        return [b] if b and "exit" not in b else []

class ProgressEnv(Builtin):
    """Episodes of the built-in problems, including mazes without food, with step budgets."""
    variants = ("tsan",); cpu = 400; BUDGET = 2_000_000_000; twin = False
    def gen(self, r, tier):
        spec = super().gen(r, tier); spec["via"] = "lib"; m = spec["model"]; m["cfg"]["max_trials"] = r.randint(1, 3); m["cfg"]["perf_trials"] = 1
        if m["cfg"]["condition"]["type"] in ("rule_neural", "rule_dgp"): m["cfg"]["condition"] = {"type": "ternary", "args": {"p_dontcare": 0.5, "bits": 1}}
        m["cfg"].pop("action", None) if spec["kind"] == "csv" else m["cfg"].update(action={"type": "integer"})
        m["cfg"]["pop_size"] = max(m["cfg"]["pop_size"], 3 * m["a"])
        if m["x"] > 4 and m["cfg"]["prediction"]["type"] == "rls_quadratic": m["cfg"]["prediction"]["type"] = "rls_linear" # 45 x 45 matrices in every rule
        if spec["kind"] == "maze" and r.random() < 0.3: spec["maze"] = [re.sub("[FG]", r.choice("*OQ"), l) for l in spec["maze"]]; spec["maze"][0] = "*" + spec["maze"][0][1:]
        if r.random() < 0.6: extreme(r, m)
        return spec
    def runs(self, spec):
        out = []
        for v, c in super().runs(spec):
            for p in c["procs"]: p.update(budget=self.BUDGET, sched={"mode": 0, "team": 1}); p.pop("chk", None)
            out.append(("tsan", c))
        return out
    def judge(self, spec, outs):
        res = []
        for p in outs[0]:
            e = p[-1] if p else {}
            if e.get("end") in ("budget", "deadlock"): res.append(f"operation {e.get('at')} of the {spec['kind']} problem did not finish within {self.BUDGET} steps")
            else:
                b = bad_end(p)
                if b and "exit" not in b: res.append(b)
        return res
reg("C16", [JsonTrip(), ParamTrip(), W(py.PyParams(), 0.15)], "A seeded random population (every importable representation) reached by a history is exported and imported into another process by insertion, rule by rule, or as the initial population file; rules, re-export and predictions are compared. Exported parameters configure a fresh model and both learn alike. Distinct: recorded results differ.")
reg("C18", [Progress(), ProgressEnv()], "A seeded random model with parameters at the ends of their accepted ranges (every representation) and a history of learning, deciding, evaluation, store, save and load on ordinary, constant and huge inputs; each operation may take 100 million simulated steps, each run of a built-in problem 2 billion (ordinary ones take under 3 million). Distinct: recorded results differ.")
