"""Strategies in the Python world: the extension module under the real interpreter."""
import copy, hashlib, json, os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
import pydata, world
from gen import *
from driver import Strategy, bad_end, ops_of, shrink_list, getp
import checks as cb

def py_model(r, mode=None, **feats):
    feats.setdefault("threads", 1); feats.setdefault("pop", r.choice([4, 8, 12, 20]))
    m = gen_model(r, mode=mode, feats=feats); return m
def pnew(mod, **k): return dict({"op": "new", "x": mod["x"], "y": mod["y"], "a": mod["a"], "cfg": mod["cfg"]}, **k)
def pdata(r, m, d=0, n=None):
    return {"op": "data", "d": d, "n": n or r.choice([1, 2, 5, 9]), "x": m["x"], "y": m["y"], "seed": r.randint(1, 10 ** 6), "kind": "onehot" if m["kind"] == "onehot" else ("const" if m["kind"] == "const" else "reg"), "grid": "int" if m["bin"] else ""}
def plearn(r, m, i=0, d=0):
    if m["mode"] == "rl":
        if r.random() < 0.3: return {"op": "rlfit", "m": i, "d": d, "i": r.randrange(9), "action": r.randrange(m["a"]), "reward": r.choice([0, 0.5, 1])}
        return {"op": "episode", "m": i, "d": d, "rows": [r.randrange(9) for _ in range(r.randint(1, 6))], "explore": int(r.random() < 0.7), "a": m["a"]}
    p = r.choice([1, 2, 5, 8]); return {"op": "fit", "m": i, "d": d, "trials": p * r.randint(1, 3), "perf": p, "shuffle": int(r.random() < 0.5)}
def pcover(r, m): return [r.choice([0, 0.5, -3, 0.25]) + j * 0.125 for j in range(m["a"] * m["y"])]
def peval(r, m, i=0, d=0):
    o = {"op": "predict" if m["mode"] == "rl" or r.random() < 0.6 else "score", "m": i, "d": d}
    if r.random() < 0.5: o["cover"] = pcover(r, m)
    return o
def phist(r, m, n, i=0, p_eval=0.3, nd=2): return [peval(r, m, i, r.randrange(nd)) if r.random() < p_eval else plearn(r, m, i, r.randrange(nd)) for _ in range(n)]
def meta(run): return run[-1][0]["pw"]
def failed(p):
    """The first failure of a process: (operation, what) or None."""
    for q in p:
        if "raised" in q: return q["i"], f"operation {q['i']} ({q['op']}) raised {q['raised']}: {q['msg'][:80]}"
        if "crash" in q: return len(ops_of(p)), "killed"
        if "exit" in q or "died" in q or "stuck" in q: return len(ops_of(p)), bad_end(p)
    if not any(q.get("end") == "done" for q in p): return len(ops_of(p)), "the process vanished"
    return None
def bad_py(p):
    f = failed(p); return f[1] if f else None
def at(p, i):
    for q in p:
        if q.get("i") == i: return q
    return None
def strip(q): return {k: v for k, v in q.items() if k not in ("i", "modified", "n")}
def same(a, b, what):
    for k in a:
        if a[k] != b.get(k): return f"{a['op']}: {k} is {str(a[k])[:70]} / {str(b.get(k))[:70]} ({what})"
    return None
class PyStrategy(cb.ModelStrategy):
    variants = ("py",); cpu = 40
    def key(self, spec, outs):
        return hashlib.sha1(json.dumps([[[strip(q) for q in p if "pw" not in q] for p in run] for run in outs] + [meta(run)["trace"] for run in outs if "pw" in run[-1][0]]).encode()).hexdigest()[:16]

# ---------------------------------------------------------------- C12
KINDS = ["c", "f32", "list", "fortran", "strided", "rows", "reverse", "readonly", "temp", "spoil", "int"]
SHAPES = ["flatx", "flatfit", "flaty", "wide", "rows", "score", "cover", "state", "scalar", "action", "three", "empty", "cold", "coldval"]
class PyArrays(PyStrategy):
    """The caller's arrays in every form, short-lived, spoiled afterwards, among calls on other models."""
    def gen(self, r, tier):
        m = py_model(r); o = py_model(r) if r.random() < 0.5 else m
        data = [pdata(r, m, d) for d in (0, 1)]; ops = []
        for q in phist(r, m, r.randint(2, 8)):
            if q["op"] == "fit" and r.random() < 0.4: q["val"] = 1
            ops.append(q)
        oth = [[] for _ in ops]
        if r.random() < 0.7:
            for L in oth:
                if r.random() < 0.5: L += phist(r, o, r.randint(1, 2), 1, nd=1)
                for q in L: q["d"] = 5
        kinds = [{k: r.choice(KINDS) for k in ("kx", "ky", "kv", "kc")} for _ in ops]
        S = [b for b in SHAPES if not (b in ("flatx", "flatfit") and m["x"] == 1) and not (b == "flaty" and m["y"] == 1)]
        shapes = [([r.choice(S)] if r.random() < 0.3 else []) for _ in ops]
        return {"model": m, "other": o, "data": data, "odata": pdata(r, o, 5), "ops": [{"o": q, "k": k, "oth": L, "sh": s, "seed": r.randint(0, 10 ** 6)} for q, k, L, s in zip(ops, kinds, oth, shapes)], "fill": r.choice([0, 0xA5, 0xFF, 0x3F])}
    def shrink(self, spec):
        yield from shrink_list(spec, ["ops"])
        for i, e in enumerate(spec["ops"]):
            for k, v in (("oth", []), ("sh", [])):
                if e[k]: c = copy.deepcopy(spec); c["ops"][i][k] = v; yield c
            for k, v in e["k"].items():
                if v != "c": c = copy.deepcopy(spec); c["ops"][i]["k"][k] = "c"; yield c
        yield from cb.simplify_cfg(spec)
    def runs(self, spec):
        A = [pnew(spec["model"])] + spec["data"]; B = [pnew(spec["other"], m=1), pnew(spec["model"])] + spec["data"] + [spec["odata"]]; ia, ib, sh = [], [], []
        for e in spec["ops"]:
            seed = {"op": "seed", "seed": e["seed"]}; A += [seed, e["o"], {"op": "dig"}, {"op": "stats"}]; ia.append(len(A) - 3)
            B += e["oth"]
            for b in e["sh"]: B.append({"op": "shape", "bad": b, "d": 0, "pa": spec["model"]["a"] * spec["model"]["y"]}); sh.append(len(B) - 1)
            B += [seed, dict(e["o"], **e["k"])] + [{"op": "dig"}, {"op": "stats"}]; ib.append(len(B) - 3)
        spec["_ix"] = [ia, ib, sh]
        return [("py", {"procs": [{"ops": A}]}), ("py", {"procs": [{"ops": B, "fill": spec["fill"]}]})]
    def judge(self, spec, outs):
        a, b = outs[0][0], outs[1][0]; x = bad_py(a)
        if x: return ["plain arrays, one model: " + x]
        x = bad_py(b)
        if x: return ["other forms of arrays: " + x]
        ia, ib, sh = spec["_ix"]; res = []; X, Y = spec["model"]["x"], spec["model"]["y"]
        for i, j in zip(ia, ib):
            for t in range(3):
                d = same(strip(at(a, i + t)), strip(at(b, j + t)), "plain contiguous arrays / " + ", ".join(sorted(set(spec["ops"][ib.index(j)]["k"].values()))) + " arrays")
                if d: res.append(d); break
        for q in ops_of(b):
            if q.get("modified"): res.append(f"{q['op']} modified an array of the caller")
        for k in sh:
            q = at(b, k); bad = None
        n = 0
        for e in spec["ops"]:
            for bad in e["sh"]:
                q = at(b, sh[n]); n += 1
                if q["took"]: res.append(f"arrays of the wrong shape were accepted ({bad})")
                if not q["took"] and not q["same"]: res.append(f"a refused call changed the model ({bad})")
        return res

# ---------------------------------------------------------------- C25
REFUSE_ANY = ["wide", "three", "cover", "cover2", "state", "scalar", "state2", "rlx", "action", "neg", "setp", "setp", "setnp", "jread", "jdir", "jwrite", "pickle"]
REFUSE_SUP = ["scorey", "scorex", "scorecover", "scorerows", "fitx", "fity", "rows", "empty", "text", "valx", "valy", "valrows", "valone", "valtype", "cb", "cb", "cbmix"]
class PyRefused(PyStrategy):
    """A history with refused and failing calls against the same history without them."""
    def gen(self, r, tier):
        m = py_model(r, mode="rl" if r.random() < 0.35 else None); pa = m["a"] * m["y"]
        def bad():
            b = {"op": "refuse", "d": r.randint(0, 1), "bad": r.choice(REFUSE_ANY + REFUSE_SUP * (m["mode"] != "rl")), "pa": pa, "na": m["a"], "e": r.randint(0, 1), "warm": int(r.random() < 0.6), "sh": r.randint(0, 1)}
            if b["bad"].startswith("score"): b["N"] = r.choice([0, 3])
            if b["bad"].startswith("set"): b["cfg"] = {k: v for k, v in {"beta": 0.77, "theta_del": 3, "e0": 0.4, "perf_trials": 3, "max_trials": 11, "random_state": 4}.items() if r.random() < 0.4}; b["last"] = r.choice(["alpha", "theta_del", "nu", "random_state", "condition", "nonsense"])
            return b
        ops = []
        for q in phist(r, m, r.randint(2, 7)):
            if q["op"] == "fit" and r.random() < 0.3: q["val"] = 1
            if q["op"] == "episode": q["bad"] = {str(i): [b for b in (bad() for _ in range(r.randint(1, 2))) if b["bad"] not in ("pickle", "jwrite", "wide", "three", "cover", "cover2")] for i in range(len(q["rows"])) if r.random() < 0.4}
            ops.append({"bad": [bad() for _ in range(r.choice([0, 1, 1, 2]))], "o": q})
        F = [{"p": 0, "op": r.choice(["openw", "write", "write", "close", "read"]), "nth": r.randint(1, 3), "err": r.choice([5, 28]), "sticky": int(r.random() < 0.5)} for _ in range(r.choice([0, 1, 2]))]
        return {"model": m, "data": [pdata(r, m, d) for d in (0, 1)], "ops": ops, "faults": F, "fill": r.choice([0, 0xA5, 0xFF])}
    def shrink(self, spec):
        yield from shrink_list(spec, ["ops"])
        for i, e in enumerate(spec["ops"]):
            for k in range(len(e["bad"])): c = copy.deepcopy(spec); del c["ops"][i]["bad"][k]; yield c
            for k in e["o"].get("bad", {}): c = copy.deepcopy(spec); del c["ops"][i]["o"]["bad"][k]; yield c
        if spec["faults"]: yield dict(copy.deepcopy(spec), faults=[])
        yield from cb.simplify_cfg(spec)
    def runs(self, spec):
        A, B = [pnew(spec["model"])] + spec["data"], [pnew(spec["model"])] + spec["data"]; ix = []
        for e in spec["ops"]:
            A.append({k: v for k, v in e["o"].items() if k != "bad"}); A += [{"op": "dig"}, {"op": "stats"}, {"op": "getp"}]
            B += e["bad"] + [e["o"], {"op": "dig"}, {"op": "stats"}, {"op": "getp"}]; ix += [(len(A) - 4 + t, len(B) - 4 + t) for t in range(4)]
        spec["_ix"] = ix
        return [("py", {"procs": [{"ops": A}]}), ("py", {"procs": [{"ops": B, "fill": spec["fill"]}], "faults": spec["faults"]})]
    def judge(self, spec, outs):
        a, b = outs[0][0], outs[1][0]; x = bad_py(a)
        if x: return ["without refused calls: " + x]
        x = bad_py(b)
        if x: return ["with refused calls: " + x]
        for i, j in spec["_ix"]:
            p, q = strip(at(a, i)), strip(at(b, j)); d = same(p, {k: v for k, v in q.items() if k not in ("took", "why")}, "without / with refused calls before")
            if d:
                n = next(k for k, e in enumerate(spec["ops"]) if 4 * (k + 1) > spec["_ix"].index((i, j)))
                return [d + "; refused so far: " + ", ".join(sorted({t[0] for z in ops_of(b) if z["i"] <= j for t in z.get("took", []) if not t[1]}))]
        return [f"a call that must be refused was accepted ({t[0]})" for z in ops_of(b) for t in z.get("took", []) if t[1] and t[0] not in ("pickle", "jwrite")][:1]

# ---------------------------------------------------------------- C10
def cb_model(epochs, cbs, perf, E):
    """What callbacks do: returns (epochs run, epoch of the final population, [(file, epoch)] in order of saving)."""
    st = [dict(c, best=float("inf"), best_t=0, best_e=None, saved=0, pend=False) for c in cbs]; pop = None; saves = []; stored = None; back = False
    for e in range(1, E + 1):
        pop = e; t = e * perf; stop = False
        for c in st:
            err = epochs[c["monitor"]][e - 1]
            if c["type"] == "es":
                if t < c["start_from"]: continue
                if err < c["best"] - c["min_delta"]:
                    c["best"] = err; c["best_t"] = t; c["best_e"] = e
                    if c["restore_best"]: c["pend"] = True; stored = pop
                if t - c["patience"] > c["best_t"]:
                    stop = True
                    if c["restore_best"]: c["pend"] = False; back = back or stored is not None; pop = stored if stored is not None else pop; stored = None
            elif t >= c["saved"] + c["save_freq"]:
                if not c["save_best_only"] or err < c["best"]: c["saved"] = t; saves.append((c["filename"], pop))
                if err < c["best"]: c["best"] = err
        if stop: break
    for c in st:
        if c["type"] == "es" and c["restore_best"] and c["pend"]: back = back or stored is not None; pop = stored if stored is not None else pop; stored = None
        if c["type"] == "cp" and not c["save_best_only"]: saves.append((c["filename"], pop))
    return e, pop, saves, back
class PyCallbacks(PyStrategy):
    """Early stopping and checkpoints against runs of the same seed without callbacks."""
    def gen(self, r, tier):
        m = py_model(r, mode="sup", stochastic=0.0); perf = r.choice([1, 3, 5, 10]); E = r.randint(2, 10); cbs = []
        if r.random() < 0.75: cbs.append({"type": "es", "monitor": r.choice(["train", "val"]), "patience": r.choice([0, 1, perf, 2 * perf, 3 * perf, perf + 1]), "restore_best": r.random() < 0.7, "min_delta": r.choice([0, 0, 0.001, 0.02]), "start_from": r.choice([0, 0, perf, 2 * perf + 1])})
        if not cbs or r.random() < 0.5: cbs.append({"type": "cp", "monitor": r.choice(["train", "val"]), "filename": "c.bin", "save_best_only": r.random() < 0.5, "save_freq": r.choice([0, 0, perf, 2 * perf, 2 * perf + 1])})
        r.shuffle(cbs)
        return {"model": m, "data": [pdata(r, m, 0), pdata(r, m, 1)], "perf": perf, "E": E, "cbs": cbs, "val": int(any(c["monitor"] == "val" for c in cbs) or r.random() < 0.3), "shuffle": int(r.random() < 0.5), "seed": r.randint(0, 10 ** 6), "pre": phist(r, m, r.choice([0, 0, 1, 2]), p_eval=1.0), "kill": r.choice([0, 0, 0, r.randint(1, 30)]), "cont": r.randint(0, 10 ** 6), "ops": []}
    def shrink(self, spec):
        for k, v in (("kill", 0), ("shuffle", 0), ("pre", [])):
            if spec[k] != v: c = copy.deepcopy(spec); c[k] = v; yield c
        if len(spec["cbs"]) > 1:
            for i in range(2): c = copy.deepcopy(spec); del c["cbs"][i]; yield c
        if spec["E"] > 1: c = copy.deepcopy(spec); c["E"] -= 1; yield c
        if spec["perf"] > 1: c = copy.deepcopy(spec); c["perf"] = 1; yield c
        yield from cb.simplify_cfg(spec)
    def start(self, spec): return [pnew(spec["model"])] + spec["data"] + spec["pre"] + [{"op": "seed", "seed": spec["seed"]}]
    def fit(self, spec, e, **k):
        o = {"op": "fit", "d": 0, "trials": e * spec["perf"], "perf": spec["perf"], "shuffle": spec["shuffle"]}
        if spec["val"]: o["val"] = 1
        return dict(o, **k)
    LOOK = [{"op": "json"}, {"op": "predict", "d": 0}, {"op": "json", "slot": "k"}]
    def tail(self, spec): return [{"op": "seed", "seed": spec["cont"]}, self.fit(spec, 2), {"op": "dig"}, {"op": "predict", "d": 1}]
    def execute(self, spec):
        S = self.start(spec); n0 = len(S)
        outs = [world.run("py", {"procs": [{"ops": S + [self.fit(spec, spec["E"])]}]}, self.cpu)]
        p = outs[0][0]
        if bad_py(p): return outs
        mt = at(p, n0)["metrics"]; ep = {k: [float.fromhex(v) for v in mt[k]] for k in ("train", "val")}
        e, pop, saves, back = cb_model(ep, spec["cbs"], spec["perf"], spec["E"])
        outs.append([[{"plan": [e, pop, saves]}]])
        faults = [{"p": 0, "kill": spec["kill"]}] if spec["kill"] else []; files = sorted({c["filename"] for c in spec["cbs"] if c["type"] == "cp"})
        outs.append(world.run("py", {"procs": [{"ops": S + [self.fit(spec, spec["E"], cb=spec["cbs"])] + self.LOOK + self.tail(spec)}] + [{"group": 1, "ops": [pnew(dict(spec["model"], cfg=dict(spec["model"]["cfg"], random_state=3)))] + spec["data"] + [{"op": "load", "f": f}] + self.LOOK} for f in files], "faults": faults}, self.cpu))
        need = sorted({pop} | {k for _, k in saves}); rs = back
        procs = [{"ops": S + [self.fit(spec, k)] + self.LOOK} for k in need]
        # the same stop without callbacks, continued
        if not rs: procs.append({"ops": S + [self.fit(spec, e)] + self.LOOK + self.tail(spec)})
        elif spec["shuffle"] and pop is not None and pop <= e: procs.append({"ops": S + [self.fit(spec, pop), {"op": "store"}] + ([self.fit(spec, e - pop)] if e > pop else []) + [{"op": "retrieve"}] + self.LOOK + self.tail(spec)})
        outs.append(world.run("py", {"procs": procs, "sched": {"seed": 1, "stay": 1.0}}, self.cpu)); outs[-1].append([{"need": need}])
        return outs
    def key(self, spec, outs): return hashlib.sha1(json.dumps([[strip(q) for q in p if "pw" not in q] for run in outs for p in run]).encode()).hexdigest()[:16]
    def judge(self, spec, outs):
        x = bad_py(outs[0][0])
        if x: return ["no callbacks: " + x]
        e, pop, saves = outs[1][0][0]["plan"]; run = outs[2]; ref = outs[3]; need = ref[-1][0]["need"]; n0 = len(self.start(spec)); res = []
        for p in ref[:-2]:
            x = bad_py(p)
            if x: return ["no callbacks: " + x]
        look = {k: [strip(at(ref[i], n0 + 1 + t)) for t in range(3)] for i, k in enumerate(need)}
        p = run[0]; f = failed(p); m = meta([r for r in run])
        if f and f[1] != "killed": return ["with callbacks: " + f[1]]
        def cmp(q, i0, k, what):
            for t in range(3):
                d = same(look[k][t], strip(at(q, i0 + t)), f"the model of epoch {k} / {what}")
                if d: res.append(d); return
        if not f:
            g = at(p, n0)["metrics"]
            if len(g["train"]) != e: res.append(f"{len(g['train'])} epochs were run, {e} expected")
            want = {k: v[:e] for k, v in at(outs[0][0], n0)["metrics"].items()}
            if not res:
                d = same({"op": "fit", **want}, {"op": "fit", **g}, "metrics without / with callbacks")
                if d: res.append(d)
            if not res: cmp(p, n0 + 1, pop, f"the final population after {e} epochs with callbacks")
            if not res and len(ref) - 2 > len(need):
                q = ref[len(need)]; k = len(ops_of(q)) - len(ops_of(p))
                for t in range(1, 5):
                    A, B = ops_of(q)[-t], ops_of(p)[-t]; d = same(strip(A), strip(B), "continued without / with callbacks")
                    if d: res.append(d); break
        # checkpoint files
        tr = [t for t in m["trace"] if t[0] == 0]
        if f: tr = tr[:-1] # the operation it was killed at did not happen
        for i, fn in enumerate(sorted({c["filename"] for c in spec["cbs"] if c["type"] == "cp"})):
            due = [k for n, k in saves if n == fn]; q = run[1 + i]
            if f:
                op = sum(t[1] == "openw" and t[2] == fn for t in tr); cl = sum(t[1] in ("close", "rename") and t[2] == fn for t in tr)
                if op > cl or cl > len(due): continue # killed while writing
                due = due[:cl]
            if not due:
                if fn in m["files"]: res.append("a checkpoint was written although none was due")
                continue
            x = bad_py(q)
            if x: res.append(f"the checkpoint of epoch {due[-1]} does not load: " + x)
            else: cmp(q, 2 + len(spec["data"]), due[-1], "its checkpoint" + (" after a crash" if f else ""))
        return res

# ---------------------------------------------------------------- C11
def gen_faults(r, P, n, ops=("openw", "openr", "open", "write", "read", "close", "remove", "rename", "fsync", "mkstemp")):
    F = []
    for _ in range(n):
        u = r.random(); f = {"p": r.randrange(P)}
        if u < 0.2: f["kill"] = r.randint(1, 12)
        elif u < 0.45: f.update(op=r.choice(["write", "read"]), nth=r.randint(1, 4), lim=r.choice([1, 7, 100, 1000]))
        else: f.update(op=r.choices(ops, [4, 3, 1, 5, 5, 4, 1, 1, 1, 1][:len(ops)])[0], nth=r.randint(1, 4), err=r.choice([28, 5, 13, 122]), sticky=int(r.random() < 0.4))
        F.append(f)
    return F
def untimed(q):
    """An object's record of past epochs is not part of the model."""
    q = strip(q)
    if "metrics" in q: q["metrics"] = {k: v for k, v in q["metrics"].items() if k != "trials"}
    return q
class PyPickle(PyStrategy):
    """Several processes pickle, unpickle and save in one directory, interleaved at their file operations."""
    def gen(self, r, tier):
        P = r.choice([1, 2, 2, 3]); procs = []
        for p in range(P):
            m = py_model(r, recurrent=0.2); L = []
            for _ in range(r.randint(1, 2)):
                L.append({"hist": phist(r, m, r.randint(0, 3)), "extra": r.choice([None, None, {"op": "save", "f": f"f{p}.bin"}, {"op": "json_write", "f": f"j{p}"}]), "cont": phist(r, m, r.randint(1, 3)), "seed": r.randint(0, 10 ** 6), "far": int(r.random() < 0.4)})
            procs.append({"model": m, "data": [pdata(r, m, d) for d in (0, 1)], "rounds": L})
        return {"procs": procs, "sched": {"seed": r.randint(1, 1 << 30), "stay": r.choice([0.0, 0.3, 0.6, 0.9])}, "faults": gen_faults(r, P, r.choice([0, 0, 1, 1, 2])), "fill": r.choice([0, 0xA5, 0x3F]), "ops": []}
    def shrink(self, spec):
        yield from shrink_list(spec, ["faults"])
        if len(spec["procs"]) > 1:
            for i in range(len(spec["procs"])):
                if not any(f["p"] == i for f in spec["faults"]):
                    c = copy.deepcopy(spec); del c["procs"][i]
                    for f in c["faults"]: f["p"] -= f["p"] > i
                    yield c
        for i, p in enumerate(spec["procs"]):
            if len(p["rounds"]) > 1:
                for j in range(len(p["rounds"])): c = copy.deepcopy(spec); del c["procs"][i]["rounds"][j]; yield c
            for j, q in enumerate(p["rounds"]):
                for k in ("hist", "cont"): yield from shrink_list(spec, ["procs", i, "rounds", j, k])
                if q["extra"]: c = copy.deepcopy(spec); c["procs"][i]["rounds"][j]["extra"] = None; yield c
                if q["far"]: c = copy.deepcopy(spec); c["procs"][i]["rounds"][j]["far"] = 0; yield c
            yield from cb.simplify_cfg(spec, ("procs", i, "model"))
    def plan(self, spec):
        """Per process its operations and the pairs of operations that must agree."""
        procs, pairs = [], []
        for i, p in enumerate(spec["procs"]):
            ops = [pnew(p["model"])] + p["data"]; pr = []; far = []
            for j, q in enumerate(p["rounds"]):
                ops += q["hist"]; s = f"{i}_{j}"
                look = [{"op": "dig"}, {"op": "params"}]; a = len(ops); ops += look + [{"op": "pickle", "slot": s}]
                if q["far"]: ops += [{"op": "put", "slot": s}]
                if q["extra"]: ops.append(q["extra"])
                ops.append({"op": "unpickle", "slot": s, "m": 1}); b = len(ops); ops += [dict(o, m=1) for o in look] + [{"op": "getp", "m": 1}]
                pr += [(a + t, b + t, "pickled / unpickled") for t in range(len(look))]
                cont = [{"op": "seed", "seed": q["seed"]}] + q["cont"] + [{"op": "dig"}, {"op": "stats"}]
                a2 = len(ops); ops += cont; b2 = len(ops); ops += [dict(o, m=1) for o in cont]
                pr += [(a2 + t, b2 + t, "original / unpickled, continued under one seed") for t in range(len(cont))]
                if q["far"]: far.append((s, a, a2, q, look, cont))
            procs.append({"ops": ops, "fill": spec["fill"]}); pairs.append((pr, far))
        n = len(procs)
        for i, p in enumerate(spec["procs"]):
            for s, a, a2, q, look, cont in pairs[i][1]:
                o = [pnew(p["model"], m=5)] + p["data"] + [{"op": "get", "slot": s}, {"op": "unpickle", "slot": s, "m": 1}]; b = len(o); o += [dict(t, m=1) for t in look]; b2 = len(o); o += [dict(t, m=1) for t in cont]
                procs.append({"group": 1, "ops": o}); pairs.append((i, s, [(a + t, b + t) for t in range(len(look))] + [(a2 + t, b2 + t) for t in range(len(cont))]))
        return procs, pairs, n
    def runs(self, spec):
        procs, pairs, n = self.plan(spec); return [("py", {"procs": procs, "sched": spec["sched"], "faults": spec["faults"]})]
    def explicit(self, spec, cls, msg_class):
        out = self.execute(spec)[0]; c = copy.deepcopy(spec); c["sched"] = {"expl": meta(out)["choices"]}
        return c
    def judge(self, spec, outs):
        procs, pairs, n = self.plan(spec); run = outs[0]; res = []; m = meta(run); clean = True
        for i in range(n):
            p = run[i]; f = failed(p); mine = [g for g in spec["faults"] if g["p"] == i]; hard = [g for g in mine if "kill" in g or g.get("err")]
            if f and f[1] != "killed" and not hard: res.append(f"process {i} failed without a fault of its own: {f[1]}")
            if f and f[1] and "signal" in f[1]: res.append(f"process {i}: {f[1]}")
            clean = clean and not (f and f[1] == "killed")
            end = f[0] if f else 10 ** 9
            for g in [q for q in range(1, len(procs[i]["ops"])) if procs[i]["ops"][q]["op"] == "getp" and q < end]:
                u, v = (json.loads(at(p, t)["params"]) for t in (g - 1, g)); w = [k for k in u if k in v and v[k] is not None and u[k] != v[k]]
                if w: res.append(f"process {i}: the unpickled model reports parameter {w[0]} = {str(v[w[0]])[:60]}, it is {str(u[w[0]])[:60]}")
            for a, b, what in pairs[i][0]:
                if b >= end: break
                d = same(untimed(at(p, a)), untimed(at(p, b)), what)
                if d: res.append(f"process {i}: " + d); break
        for k in range(n, len(procs)):
            i, s, L = pairs[k]; p = run[k]; src = run[i]; f = failed(p)
            if "slot_" + s not in m["files"]: continue # its process ended before handing it over
            if f: res.append(f"another process cannot unpickle it: {f[1]}"); continue
            for a, b in L:
                if at(src, a) is None or "raised" in at(src, a): break
                d = same(untimed(at(src, a)), untimed(at(p, b)), "original / unpickled in another process")
                if d: res.append(d); break
        if clean and not any(g.get("op") in ("remove", "rename") for g in spec["faults"]):
            own = {f"{k}{i}{e}" for i in range(n) for k, e in (("f", ".bin"), ("j", ""))}
            left = [x for x in m["files"] if x not in own and not x.startswith("slot_")]
            if left: res.append("files were left behind: " + ", ".join(left))
        return res

# ---------------------------------------------------------------- C05
class PyFiles(PyStrategy):
    """json_write, json_read, save and load of the module under disk faults and kills."""
    def gen(self, r, tier):
        m = py_model(r); how = r.choice(["json", "json", "save"])
        if how == "json" and not cb.importable(m): how = "jsonw"
        return {"model": m, "data": [pdata(r, m, d) for d in (0, 1)], "ops": phist(r, m, r.randint(0, 4)), "how": how, "over": int(r.random() < 0.4), "wf": gen_faults(r, 1, r.choice([0, 1, 1])), "rf": [dict(f, p=1) for f in gen_faults(r, 1, r.choice([0, 0, 1]))], "trunc": r.choice([None, None, None, r.random()])}
    def shrink(self, spec):
        yield from shrink_list(spec, ["wf"]); yield from shrink_list(spec, ["rf"]); yield from super().shrink(spec)
    def runs(self, spec):
        w = {"op": "save", "f": "m"} if spec["how"] == "save" else {"op": "json_write", "f": "m"}; rd = {"op": "load", "f": "m"} if spec["how"] == "save" else {"op": "json_read", "f": "m"}
        A = [pnew(spec["model"])] + spec["data"] + ([{"op": "json_write", "f": "m"}] if spec["over"] else []) + spec["ops"] + [{"op": "json"}, {"op": "dig"}, w]
        c = dict(spec["model"]["cfg"], pop_init=False) if spec["how"] == "json" else spec["model"]["cfg"]
        B = [pnew(dict(spec["model"], cfg=c))]
        if spec["trunc"] is not None: B.append({"op": "cut", "f": "m", "frac": spec["trunc"]})
        B += [rd, {"op": "dig"}]
        return [("py", {"procs": [{"ops": A}] + ([{"group": 1, "ops": B}] if spec["how"] != "jsonw" else []), "faults": spec["wf"] + spec["rf"], "want": ["m"]})]
    def judge(self, spec, outs):
        run = outs[0]; m = meta(run); a = run[0]; f = failed(a); res = []; hard = [g for g in spec["wf"] if "kill" in g or g.get("err")]
        over = 1 if spec["over"] else 0
        if f:
            if f[1] != "killed" and not hard: res.append("writing failed without an error of the disk: " + f[1])
            return res
        if len(run) < 3 or spec["how"] == "jsonw":
            t = bytes.fromhex(m["texts"].get("m", ""))
            want = [q for q in ops_of(a) if q["op"] == "json"][-1]["sha"]
            if hashlib.sha1(t).hexdigest() != want: res.append(f"json_write returned normally but the file ({len(t)} bytes) is not the population")
            return res
        b = run[1]; fb = failed(b); cut = next((q for q in ops_of(b) if q["op"] == "cut"), None)
        size = cut["size"] if cut else m["files"].get("m"); whole = not cut or cut["at"] >= size or (spec["how"] == "json" and cut["lost"].strip() == "")
        if spec["how"] == "json" and not cut:
            t = bytes.fromhex(m["texts"].get("m", "")); want = [q for q in ops_of(a) if q["op"] == "json"][-1]["sha"]
            if hashlib.sha1(t).hexdigest() != want: return [f"json_write returned normally but the file ({len(t)} bytes) is not the population"]
        rhard = [g for g in spec["rf"] if "kill" in g or g.get("err")]
        if fb:
            if fb[1] == "killed" or rhard or not whole: return []
            return ["a file written without error does not read back: " + fb[1]]
        if not whole: return [f"reading a file cut off at byte {cut['at']} of {size} returned normally"]
        fired = any(g.get("err") for g in spec["rf"]) and any(k in m["fired"] for k in ("read", "openr"))
        d0 = [q for q in ops_of(a) if q["op"] == "dig"][-1]["dig"]; d1 = ops_of(b)[-1]["dig"]
        for k in (("pop", "params", "size", "num", "time") if spec["how"] == "save" else ("size", "num")):
            if d0[k] != d1[k]: res.append(f"reading returned normally with another model: {k} is {d0[k]} / {d1[k]}" + (" (a read failed)" if fired else "")); break
        return res

# ---------------------------------------------------------------- C13
class PyLife(PyStrategy):
    """Objects come and go; what the module allocated goes with them and no file stays open."""
    def gen(self, r, tier):
        m = py_model(r, recurrent=0.2); o = py_model(r); ops = []
        for _ in range(r.randint(2, 8)):
            u = r.random()
            if u < 0.5: ops += phist(r, m, 1)
            else: ops += r.choice([[{"op": "json"}], [{"op": "pickle", "slot": "a"}, {"op": "unpickle", "slot": "a", "m": 2}], [{"op": "pickle", "slot": "a"}, {"op": "unpickle", "slot": "a", "m": 2}, {"op": "del", "m": 2}], [{"op": "save", "f": "s.bin"}, {"op": "load", "f": "s.bin"}], [{"op": "store"}, {"op": "retrieve"}], [{"op": "store"}], [{"op": "json_write", "f": "j"}], [{"op": "params"}, {"op": "getp"}, {"op": "stats"}], [{"op": "new", "m": 3, "x": o["x"], "y": o["y"], "a": o["a"], "cfg": o["cfg"]}], [{"op": "save", "f": "s.bin"}, {"op": "new", "m": 3, "x": o["x"], "y": o["y"], "a": o["a"], "cfg": o["cfg"]}, {"op": "load", "f": "s.bin", "m": 3}], [{"op": "shape", "bad": r.choice(SHAPES), "d": 0, "pa": m["a"] * m["y"]}], [{"op": "clone", "to": 3}], [{"op": "print"}]])
            if m["mode"] == "sup" and r.random() < 0.2: ops.append({"op": "fit", "d": 0, "trials": 6, "perf": 2, "warm": int(r.random() < 0.5), "cb": [{"type": "es", "monitor": "train", "restore_best": True, "patience": r.choice([0, 2])}]})
        return {"model": m, "data": [pdata(r, m, d) for d in (0, 1)], "ops": ops, "fill": r.choice([0, 0xA5, 0xFF])}
    def runs(self, spec):
        return [("py", {"procs": [{"ops": [{"op": "live"}, pnew(spec["model"])] + spec["data"] + spec["ops"] + [{"op": "delall"}, {"op": "live"}], "fill": spec["fill"]}]})]
    def judge(self, spec, outs):
        p = outs[0][0]; x = bad_py(p)
        if x: return [x]
        L = [q for q in ops_of(p) if q["op"] == "live"]; res = []
        if L[-1]["live"] != L[0]["live"]: res.append(f"{L[-1]['live'] - L[0]['live']} blocks are still allocated after every model was destroyed")
        if L[-1]["files"]: res.append(f"{L[-1]['files']} files are still open")
        return res

# ---------------------------------------------------------------- C16
class PyParams(PyStrategy):
    """Parameters out of one model and into another through the module."""
    def gen(self, r, tier):
        m = py_model(r); cfg = m["cfg"]; ks = [k for k in ("beta", "alpha", "delta", "e0", "nu", "theta_del", "init_fitness", "m_probation", "theta_sub") if r.random() < 0.4]
        o = py_model(r)["cfg"]
        return {"model": m, "data": [pdata(r, m, d) for d in (0, 1)], "set": {k: o[k] for k in ks}, "late": int(r.random() < 0.5), "ops": phist(r, m, r.choice([0, 0, 2])), "cont": phist(r, m, r.randint(1, 4)), "seed": r.randint(0, 10 ** 6), "way": r.choice(["clone", "clone", "pickle"]), "trained": int(r.random() < 0.5)}
    def lists(self, spec): return [["ops"], ["cont"]]
    def runs(self, spec):
        A = [pnew(spec["model"])] + spec["data"] + ([{"op": "setp", "cfg": spec["set"]}] if spec["set"] else []) + (spec["ops"] if spec["trained"] else [])
        A += [{"op": "params"}, {"op": "getp"}] + ([{"op": "clone", "to": 1}] if spec["way"] == "clone" else [{"op": "pickle", "slot": "a"}, {"op": "unpickle", "slot": "a", "m": 1}]) + [{"op": "params", "m": 1}, {"op": "getp", "m": 1}]
        return [("py", {"procs": [{"ops": A}]})]
    def judge(self, spec, outs):
        p = outs[0][0]; x = bad_py(p)
        if x: return [x]
        P = [json.loads(q["params"]) for q in ops_of(p) if q["op"] == "params"]; G = [json.loads(q["params"]) for q in ops_of(p) if q["op"] == "getp"]; res = []
        def sub(a, b, w):
            for k, v in a.items():
                if isinstance(v, dict) and isinstance(b.get(k), dict): yield from sub(v, b[k], w + k + ".")
                elif k not in b: yield f"{w}{k} is missing"
                elif v != b[k] and not (isinstance(v, (int, float)) and isinstance(b[k], (int, float)) and abs(v - b[k]) <= 1e-12 * max(1, abs(v))) and not (v is None and b[k] == -1): yield f"{w}{k} is {v} / {b[k]}"
        for d in list(sub(P[0], P[1], ""))[:2]: res.append(f"parameters of the original / of the {spec['way']}d model: {d}")
        for d in list(sub(spec["set"], P[0], ""))[:2]: res.append(f"parameter set / in the model: {d}")
        for d in list(sub(spec["set"], G[0], ""))[:2]: res.append(f"parameter set / reported by get_params: {d}")
        for d in list(sub({k: v for k, v in G[0].items() if k not in ("condition", "prediction", "action", "ea")}, P[0], ""))[:2]: res.append(f"get_params / internal parameters: {d}")
        return res

# ---------------------------------------------------------------- C03
def defaults(r, m):
    """Leaves some of the representation's arguments to the defaults."""
    for k in ("condition", "prediction", "action"):
        c = m["cfg"].get(k)
        if c and "args" in c and not c["type"].startswith("rule") and r.random() < 0.3: c.pop("args")
class PyOrder(PyStrategy):
    """The same seeded history with the parameters listed in another order, after other models, with other fresh memory."""
    def gen(self, r, tier):
        m = py_model(r); o = py_model(r); defaults(r, m)
        return {"model": m, "other": o, "data": [pdata(r, m, d) for d in (0, 1)], "odata": pdata(r, o, 5), "pre": [dict(q, d=5) for q in phist(r, o, r.choice([0, 1, 3]), 9, nd=1)], "gone": int(r.random() < 0.5), "ops": phist(r, m, r.randint(2, 8)), "order": r.randint(0, 10 ** 6), "fill": r.choice([0, 0xA5, 0xFF, 0x3F])}
    def lists(self, spec): return [["ops"], ["pre"]]
    def runs(self, spec):
        tail = spec["data"] + [q for o in spec["ops"] for q in (o, {"op": "dig"}, {"op": "stats"})] + [{"op": "json"}, {"op": "params"}]
        B = ([pnew(spec["other"], m=9), spec["odata"]] + spec["pre"] + ([{"op": "del", "m": 9}] if spec["gone"] else [])) if spec["pre"] else []
        return [("py", {"procs": [{"ops": [pnew(spec["model"])] + tail}]}), ("py", {"procs": [{"ops": B + [pnew(spec["model"], order=spec["order"])] + tail, "fill": spec["fill"]}]})]
    def judge(self, spec, outs):
        a, b = outs[0][0], outs[1][0]; x = bad_py(a) or bad_py(b); res = []
        if x: return [x]
        A, B = ops_of(a), ops_of(b); B = B[len(B) - len(A):]
        for u, v in zip(A, B):
            d = same(strip(u), strip(v), f"operation {u['i']}, the same seed twice")
            if d: return [d]
        return []

# ---------------------------------------------------------------- C07, C08, C17: the module is the library
def fx(v): return [float("nan") if t == "nan" else float("inf") if t == "inf" else float("-inf") if t == "-inf" else float(t) for t in v]
def bits(v): return [struct.pack("<d", t) if t == t else b"nan" for t in v]
class PyTwin(PyStrategy):
    """The same history through the Python module and through the library (whose every trial is judged elsewhere)."""
    variants = ("py", "plain")
    def gen(self, r, tier):
        m = py_model(r, stochastic=0.0); defaults(r, m); ops = []
        for q in phist(r, m, r.randint(2, 9), p_eval=0.45):
            if q["op"] == "fit" and r.random() < 0.4: q["val"] = 1
            if q["op"] == "score" and r.random() < 0.3: q["N"] = r.choice([0, 2, 5, 20])
            q["seed"] = r.randint(0, 10 ** 6); ops.append(q)
        return {"model": m, "data": [pdata(r, m, d) for d in (0, 1)], "ops": ops}
    def runs(self, spec):
        m = spec["model"]; pa = m["a"] * m["y"]; A = [pnew(m)] + spec["data"]; B = [new_op(m)]
        for d in spec["data"]:
            X, Y = pydata.rows(d); B.append({"op": "data", "d": d["d"], "n": d["n"], "x": d["x"], "y": d["y"], "X": X, "Y": Y})
        ix = []
        for q in spec["ops"]:
            q = dict(q); seed = q.pop("seed"); A += [{"op": "seed", "seed": seed}, q, {"op": "json"}]; B.append({"op": "reseed", "seed": seed}); b0 = len(B)
            if q["op"] == "fit":
                for e in range(q["trials"] // q["perf"]):
                    B.append({"op": "fit", "d": q["d"], "n": q["perf"], "start": e * q["perf"], "shuffle": q["shuffle"], "met": 1})
                    if "val" in q: B.append({"op": "score", "d": q["val"], "cover": [0] * pa})
            elif q["op"] in ("predict", "score"):
                o = {"op": q["op"], "d": q["d"], "cover": q.get("cover", [0] * pa), "vals": 1}
                if q.get("N", 0) > 1: o.update(op="score_n", N=q["N"])
                B.append(o)
            elif q["op"] == "episode": B.append({"op": "walk", "d": q["d"], "rows": q["rows"], "explore": q["explore"]})
            else: B.append({"op": "rlrow", "d": q["d"], "i": q["i"], "action": q["action"], "reward": q["reward"]})
            b1 = len(B); B.append({"op": "json", "slot": "j", "text": 1}); ix.append((len(A) - 2, b0, b1))
        spec["_ix"] = ix
        return [("py", {"procs": [{"ops": A}]}), ("plain", {"procs": [cb.proc(B, chk={"inv": 0})]})]
    def judge(self, spec, outs):
        a, b = outs[0][0], outs[1][0]; x = bad_end(b)
        if x: return ["library: " + x]
        x = bad_py(a)
        if x: return ["module: " + x]
        B = {q["i"]: q for q in ops_of(b)}; res = []
        for (i, b0, b1), q in zip(spec["_ix"], spec["ops"]):
            A = at(a, i); op = q["op"]; L = [B[k] for k in range(b0, b1)]; pairs = []
            if op == "fit":
                F = [t for t in L if t["op"] == "fit"]; V = [t for t in L if t["op"] == "score"]; M = A["metrics"]
                pairs = [("train error", M["train"], [t["err"] for t in F]), ("population size", M["psize"], [t["psize"] for t in F])]
                if not V: pairs += [("match set size", M["msize"], [t["msize"] for t in F]), ("matched fraction", M["mfrac"], [t["mfrac"] for t in F])]
                else: pairs += [("validation error", M["val"], [t["err"] for t in V])]
            elif op in ("predict", "episode"): pairs = [(op, A["out"], L[0]["vals"])]
            else: pairs = [(op, A["out"], [L[0]["err"]])]
            for w, u, v in pairs:
                if bits([float.fromhex(t) for t in u]) != bits(fx(v)): res.append(f"operation {i}: {w} of the module {[float.fromhex(t) for t in u][:3]}, of the library {v[:3]}"); break
            if res: break
            if at(a, i + 1)["sha"] != hashlib.sha1(B[b1]["text"].encode()).hexdigest(): res.append(f"operation {i} ({op}): the population of the module differs from that of the library"); break
        return res

class PyStats(PyStrategy):
    """Metrics, status lines and statistics of the module, against the calls made and the rules it has."""
    variants = ("py",)
    def gen(self, r, tier):
        m = py_model(r); defaults(r, m); ops = []
        if m["a"] == 1:
            for _ in range(r.randint(1, 5)):
                p = r.choice([1, 2, 3, 5]); t = r.randint(1, 12); q = {"op": "fit", "d": r.randint(0, 1), "trials": t, "perf": p, "shuffle": r.random() < 0.5, "warm": r.random() < 0.8, "verbose": 1}
                if r.random() < 0.4: q["val"] = 1
                ops.append(q)
                if r.random() < 0.3: ops.append({"op": r.choice(["predict", "score"]), "d": 1})
        else: ops = phist(r, m, r.randint(2, 8), p_eval=0.3)
        return {"model": m, "data": [pdata(r, m, d) for d in (0, 1)], "ops": ops}
    def lists(self, spec): return [["ops"]]
    def runs(self, spec):
        A = [pnew(spec["model"])] + spec["data"] + [{"op": "stats"}]
        for q in spec["ops"]: A += [q, {"op": "stats"}, {"op": "json", "text": 1}]
        return [("py", {"procs": [{"ops": A}]})]
    def judge(self, spec, outs):
        p = outs[0][0]; x = bad_py(p)
        if x: return [x]
        base = 1 + len(spec["data"]); res = []; t0 = None; hist = {k: [] for k in ("train", "val", "trials", "psize", "msize", "mfrac")}
        prev = [float.fromhex(t) for t in at(p, base)["out"]]
        for k, q in enumerate(spec["ops"]):
            i = base + 1 + 3 * k; A, S, J = at(p, i), [float.fromhex(t) for t in at(p, i + 1)["out"]], json.loads(at(p, i + 2)["text"])["classifiers"]
            err, size, num, time, ms, as_, mf, mc, mp = S
            if size != len(J): res.append(f"operation {k}: population size {size}, {len(J)} rules are exported")
            if num != sum(c["numerosity"] for c in J): res.append(f"operation {k}: total numerosity {num}, the rules have {sum(c['numerosity'] for c in J)}")
            if q["op"] == "fit":
                M = {a: [float.fromhex(t) for t in b] for a, b in A["metrics"].items()}; n = [min(q["perf"], q["trials"] - s) for s in range(0, q["trials"], q["perf"])]; done = (hist["trials"] or [0])[-1]; want = []
                for c in n: done += c; want.append(done)
                want = hist["trials"] + want; hist["trials"] = want
                if time - (prev[3] if q["warm"] else 0) != q["trials"]: res.append(f"operation {k}: {time - (prev[3] if q['warm'] else 0):g} learning trials were run, {q['trials']} were asked for")
                if M["trials"] != want: res.append(f"operation {k}: the metrics count trials {M['trials'][-4:]}, expected {want[-4:]}")
                for a in ("train", "val", "psize", "msize", "mfrac"):
                    if len(M[a]) != len(want): res.append(f"operation {k}: {len(M[a])} values of {a} for {len(want)} periods")
                    elif M[a][:len(hist[a])] != hist[a] and all(v == v for v in M[a]): res.append(f"operation {k}: earlier values of {a} changed")
                    hist[a] = M[a]
                if M["psize"][-1] != size: res.append(f"operation {k}: the metrics give population size {M['psize'][-1]}, it is {size}")
                if "val" not in q and (M["msize"][-1] != ms or M["mfrac"][-1] != mf): res.append(f"operation {k}: the metrics give match set size {M['msize'][-1]} and matched fraction {M['mfrac'][-1]}, they are {ms} and {mf}")
                L = [l for l in A["said"].split("\n") if "trials=" in l]
                if len(L) != len(n): res.append(f"operation {k}: {len(L)} status lines for {len(n)} periods")
                else:
                    for l, j in zip(L, range(len(want) - len(n), len(want))):
                        f = dict(t.split("=") for t in l.split() if "=" in t); w = {"trials": (want[j], 0), "train": (M["train"][j], 6e-6), "pset": (M["psize"][j], .06), "mset": (M["msize"][j], .06), "mfrac": (M["mfrac"][j], .006)}
                        if "val" in q: w["val"] = (M["val"][j], 6e-6)
                        for a, (v, tol) in w.items():
                            if a not in f or (v == v and abs(float(f[a]) - v) > tol + 1e-9 * abs(v)): res.append(f"operation {k}: status line says {a}={f.get(a)}, the metrics {v}"); break
            prev = S
            if res: return res[:2]
        return res
