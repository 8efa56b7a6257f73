"""The Python world: the real extension module under a real interpreter, with the
caller's arrays, the file system and the other processes simulated. Reads one case
per line, forks the processes of the case and lets exactly one of them run at a time,
from one file operation to the next."""
import ctypes, gc, hashlib, io, json, os, pickle, random, resource, select, shutil, signal, socket, sys, tempfile, warnings
sys.path.insert(0, os.environ["PYWORLD_MODULE"])
import numpy as np
import xcsf
sys.path.append(os.path.dirname(os.path.abspath(__file__)))
import pydata
shim = ctypes.CDLL(None); mod = ctypes.CDLL(xcsf.__file__)
shim.sim_activate.argtypes = [ctypes.c_int, ctypes.c_char_p]; mod.simpy_live.restype = ctypes.c_long

# ------------------------------------------------------------------ arrays
def make_data(o): return tuple(np.array(t, dtype=np.float64) for t in pydata.rows(o))
KINDS = ["c", "f32", "list", "fortran", "strided", "rows", "reverse", "readonly", "temp", "spoil", "int"]
class Lent:
    """An array handed to the module in some form the caller may choose."""
    def __init__(self, a, kind):
        self.kind = kind; self.ref = a; self.base = None
        if kind == "int" and not (a == a.astype(np.int64)).all(): kind = self.kind = "f32"
        if kind == "f32": v = a.astype(np.float32)
        elif kind == "int": v = a.astype(np.int64)
        elif kind == "list": v = a.tolist()
        elif kind == "fortran": v = np.asfortranarray(a.copy())
        elif kind == "strided":
            w = np.full(a.shape[:-1] + (a.shape[-1] * 2 + 1,), 7.5); w[..., 1::2] = a; v = w[..., 1::2]
        elif kind == "rows": w = np.full((a.shape[0] * 3,) + a.shape[1:], -3.25); w[::3] = a; v = w[::3]
        elif kind == "reverse": w = a[::-1].copy(); v = w[::-1]
        else: v = a.copy()
        if kind == "readonly": v.setflags(write=False)
        self.v = v
    def done(self):
        """After the call: the array is unchanged; then it is spoiled or released."""
        bad = not np.array_equal(np.asarray(self.v, dtype=np.float64), self.ref)
        if self.kind == "spoil": self.v.fill(np.nan)
        self.v = None
        return bad
def churn(shapes):
    for s in shapes:
        L = [np.full(s, 1e9 * (i + 1)) for i in range(4)] + [np.full(s, 3, dtype=np.float32) for i in range(4)]; del L

# ------------------------------------------------------------------ operations
def hexs(a): return [float(t).hex() for t in np.asarray(a, dtype=np.float64).ravel()]
def digest(m):
    j = m.json(True, True, True); p = json.dumps(m.internal_params(), sort_keys=True)
    return {"pop": hashlib.sha1(j.encode()).hexdigest()[:16], "params": hashlib.sha1(p.encode()).hexdigest()[:16], "size": m.pset_size(), "num": m.pset_num(), "time": m.time()}
class Proc:
    def __init__(self, spec): self.spec = spec; self.m = {}; self.d = {}; self.slots = {}; self.keep = []
    def lend(self, a, o, k): return Lent(a, o.get(k, o.get("k", "c")))
    def call(self, f, *lent, **kw):
        """One call of the module with lent arrays."""
        try: return f(*[x.v if isinstance(x, Lent) else x for x in lent], **kw)
        finally:
            for x in lent:
                if isinstance(x, Lent) and x.done(): self.mod = True
            gc.collect(); churn({x.ref.shape for x in lent if isinstance(x, Lent)})
    def run(self, o):
        op = o["op"]; m = self.m.get(o.get("m", 0)); self.mod = False; rec = {}
        if op == "new":
            kw = dict(x_dim=o["x"], y_dim=o["y"], n_actions=o["a"], **o["cfg"])
            if "order" in o: ks = list(kw); random.Random(o["order"]).shuffle(ks); kw = {k: kw[k] for k in ks}
            self.m[o.get("m", 0)] = xcsf.XCS(**kw)
        elif op == "data": self.d[o["d"]] = make_data(o)
        elif op == "fit":
            X, Y = self.d[o["d"]]; kw = {}; cbs = None; lent = [self.lend(X, o, "kx"), self.lend(Y, o, "ky")]
            if o.get("trials"): m.set_params(max_trials=o["trials"], perf_trials=o["perf"])
            if "val" in o:
                VX, VY = self.d[o["val"]]; self.vl = [Lent(VX, o.get("kv", "c")), Lent(VY, o.get("kv", "c"))]; kw["validation_data"] = (self.vl[0].v, self.vl[1].v)
            if "cb" in o:
                cbs = []
                for c in o["cb"]:
                    c = dict(c); t = c.pop("type"); cbs.append((xcsf.EarlyStoppingCallback if t == "es" else xcsf.CheckpointCallback)(verbose=False, **c))
            n0 = len(m.get_metrics()["train"])
            said, keep = io.StringIO(), sys.stdout
            if o.get("verbose"): sys.stdout = said
            try: self.call(m.fit, *lent, shuffle=bool(o.get("shuffle", 0)), warm_start=bool(o.get("warm", 1)), verbose=bool(o.get("verbose", 0)), callbacks=cbs, **kw)
            finally:
                sys.stdout = keep
                if "val" in o:
                    for l in self.vl: self.mod |= l.done()
                    self.vl = None; gc.collect()
            g = m.get_metrics(); rec["metrics"] = {k: hexs(g[k][n0 if not o.get("verbose") else 0:]) for k in g}
            if o.get("verbose"): rec["said"] = said.getvalue()
        elif op == "predict":
            X, Y = self.d[o["d"]]; kw = {}
            if "cover" in o: kw["cover"] = Lent(np.array(o["cover"], dtype=np.float64), o.get("kc", "c")).v
            rec["out"] = hexs(self.call(m.predict, self.lend(X, o, "kx"), **kw))
        elif op == "score":
            X, Y = self.d[o["d"]]; kw = {"cover": Lent(np.array(o["cover"], dtype=np.float64), o.get("kc", "c")).v} if "cover" in o else {}
            rec["out"] = hexs([self.call(m.score, self.lend(X, o, "kx"), self.lend(Y, o, "ky"), N=o.get("N", 0), **kw)])
        elif op == "episode":
            X = self.d[o["d"]][0]; out = []; m.init_trial(); n = len(o["rows"])
            for s, row in enumerate(o["rows"]):
                x = X[row % len(X)]; m.init_step(); bad = o.get("bad", {}).get(str(s), []); k = len(bad) // 2
                for b in bad[:k]: self.refuse(m, b, rec)
                a = self.call(m.decision, self.lend(x, o, "kx"), bool(o.get("explore", 1))); done = s == n - 1
                for b in bad[k:]: self.refuse(m, b, rec)
                rew = float(a == int(sum(x) * 3) % o["a"]); m.update(rew, done); e = m.error(rew, done, 1.0); m.end_step(); out += [a, e]
            m.end_trial(); rec["out"] = hexs(out + [m.error()])
        elif op == "rlfit":
            X = self.d[o["d"]][0]; rec["out"] = hexs([self.call(m.fit, self.lend(X[o["i"] % len(X)], o, "kx"), o["action"], o["reward"])])
        elif op == "save": rec["n"] = m.save(o["f"])
        elif op == "load": rec["n"] = m.load(o["f"])
        elif op == "store": m.store()
        elif op == "retrieve": m.retrieve()
        elif op == "json": self.slots[o.get("slot", "j")] = t = m.json(True, True, True); rec["sha"] = hashlib.sha1(t.encode()).hexdigest(); rec.update({"text": t} if o.get("text") else {})
        elif op == "jsonin": m.json_insert(self.slots[o.get("slot", "j")])
        elif op == "json_write": m.json_write(o["f"])
        elif op == "json_read": m.json_read(o["f"])
        elif op == "pickle": self.slots[o["slot"]] = pickle.dumps(m); rec["n"] = len(self.slots[o["slot"]])
        elif op == "unpickle": self.m[o["m"]] = pickle.loads(self.slots[o["slot"]])
        elif op == "put": self.write(o["slot"])
        elif op == "get": self.slots[o["slot"]] = self.read(o["slot"])
        elif op == "seed": m.set_params(random_state=o["seed"])
        elif op == "setp": m.set_params(**o["cfg"])
        elif op == "dig": rec["dig"] = digest(m)
        elif op == "params": rec["params"] = json.dumps(m.internal_params(), sort_keys=True)
        elif op == "getp": rec["params"] = json.dumps(m.get_params(), sort_keys=True)
        elif op == "clone": self.m[o["to"]] = xcsf.XCS(**m.get_params())
        elif op == "expand": m.pred_expand()
        elif op == "ae2cl": m.ae_to_classifier(o["y"], o["del"])
        elif op == "print": m.print_params(); m.print_pset(True, True, True)
        elif op == "stats": rec["out"] = hexs([m.error(), m.pset_size(), m.pset_num(), m.time(), m.mset_size(), m.aset_size(), m.mfrac(), m.pset_mean_cond_size(), m.pset_mean_pred_size()])
        elif op == "shape":
            # arrays of the wrong shape are refused and change nothing
            X, Y = self.d[o["d"]]; b = digest(m); bad = o["bad"]; xd, yd = X.shape[1], Y.shape[1]
            try:
                if bad == "flatx": m.predict(X[0].copy())
                elif bad == "flatfit": m.fit(X[:, 0].copy(), Y, True, True, False, None)
                elif bad == "flaty": m.fit(X, Y[:, 0].copy(), True, True, False, None)
                elif bad == "wide": m.predict(np.hstack([X, X]))
                elif bad == "rows": m.fit(X, Y[:-1] if len(Y) > 1 else np.vstack([Y, Y]), True, True, False, None)
                elif bad == "score": m.score(X, np.hstack([Y, Y]))
                elif bad == "cover": m.predict(X, cover=np.zeros(o["pa"] + 1))
                elif bad == "state": m.decision(np.zeros(xd + 1), True)
                elif bad == "scalar": m.decision(np.array(0.5), True)
                elif bad == "empty": m.fit(X[:0], Y[:0], True, True, False, None)
                elif bad == "cold": m.fit(np.hstack([X, X]), Y, True, False, False, None)
                elif bad == "coldval": m.fit(X, Y, True, False, False, None, validation_data=(X, np.hstack([Y, Y])))
                elif bad == "action": m.fit(X[0], o["pa"], 1.0)
                elif bad == "three": m.predict(X.reshape(1, *X.shape))
                rec["took"] = 1
            except (ValueError, TypeError, IndexError): rec["took"] = 0
            rec["same"] = digest(m) == b
        elif op == "refuse": self.refuse(m, o, rec)
        elif op == "del": self.m.pop(o.get("m", 0)); m = None; gc.collect()
        elif op == "delall": self.m.clear(); m = None; self.vl = None; gc.collect()
        elif op == "cut":
            shim.sim_off(); n = os.path.getsize(o["f"]); k = int(o["frac"] * n)
            with open(o["f"], "rb") as f: rec["lost"] = f.read()[k:][:200].decode("latin1")
            os.truncate(o["f"], k); rec["at"] = k; rec["size"] = n; shim.sim_activate(self.fd, self.dir.encode())
        elif op == "live": gc.collect(); rec["live"] = mod.simpy_live(); rec["files"] = shim.sim_open_files()
        elif op == "pause": shim.sim_pause()
        else: raise RuntimeError("bad op " + op)
        if self.mod: rec["modified"] = 1
        return rec
    def refuse(self, m, o, rec):
        """A call that is to be refused, or that fails because of the disk."""
        X, Y = self.d[o["d"]]; bad = o["bad"]; e = bool(o.get("e", 0)); XX, YY = np.hstack([X, X]), np.hstack([Y, Y])
        fit = lambda *a, cb=None, **k: m.fit(*a, bool(o.get("sh", 0)), bool(o.get("warm", 1)), False, cb, **k)
        try:
            if bad == "wide": m.predict(XX)
            elif bad == "three": m.predict(X.reshape(1, *X.shape))
            elif bad == "cover": m.predict(X, cover=np.zeros(o["pa"] + 1))
            elif bad == "cover2": m.predict(X, cover=np.zeros((1, o["pa"])))
            elif bad == "scorey": m.score(X, YY, N=o.get("N", 0))
            elif bad == "scorex": m.score(XX, Y, N=o.get("N", 0), cover=np.full(o["pa"], 3.5))
            elif bad == "scorecover": m.score(X, Y, N=o.get("N", 0), cover=np.zeros(o["pa"] + 1))
            elif bad == "scorerows": m.score(X, np.vstack([Y, Y]), N=o.get("N", 0))
            elif bad == "fitx": fit(XX, Y)
            elif bad == "fity": fit(X, YY)
            elif bad == "rows": fit(X, np.vstack([Y, Y]))
            elif bad == "empty": fit(X[:0], Y[:0])
            elif bad == "text": fit([["a"] * X.shape[1]] * len(X), Y)
            elif bad == "valx": fit(X, Y, validation_data=(XX, Y))
            elif bad == "valy": fit(X, Y, validation_data=(X, YY))
            elif bad == "valrows": fit(X, Y, validation_data=(X, np.vstack([Y, Y])))
            elif bad == "valone": fit(X, Y, validation_data=(X,))
            elif bad == "valtype": fit(X, Y, validation_data=3)
            elif bad == "cb": fit(X, Y, cb=[object()])
            elif bad == "cbmix": fit(X, Y, cb=[xcsf.EarlyStoppingCallback(monitor="train", patience=1, verbose=False), 5], validation_data=(X, Y))
            elif bad == "state": m.decision(np.zeros(X.shape[1] + 1), e)
            elif bad == "scalar": m.decision(np.array(0.5), e)
            elif bad == "state2": m.decision(np.zeros((2, X.shape[1])), e)
            elif bad == "action": m.fit(X[0], o["na"], 1.0)
            elif bad == "neg": m.fit(X[0], -1, 1.0)
            elif bad == "rlx": m.fit(np.zeros(X.shape[1] + 1), 0, 1.0)
            elif bad == "setp": m.set_params(**dict(o["cfg"], **{o["last"]: object()}))
            elif bad == "setnp": m.set_params(**dict(o["cfg"], **{o["last"]: np.int64(3)}))
            elif bad == "jread": m.json_read("missing.json")
            elif bad == "jdir": m.json_write("missing/p.json")
            elif bad == "jwrite": m.json_write("p.json")
            elif bad == "pickle": pickle.dumps(m)
            else: raise SystemError("bad kind " + bad)
            took = 1
        except SystemError: raise
        except Exception as ex: took = 0; rec.setdefault("why", []).append(type(ex).__name__)
        rec.setdefault("took", []).append([bad, took])
    # the simulated caller's own files do not go through the seam
    def write(self, s):
        b = self.slots[s]; shim.sim_off()
        with open(self.dir + "/slot_" + s, "wb") as f: f.write(b)
        shim.sim_activate(self.fd, self.dir.encode())
    def read(self, s):
        shim.sim_off()
        with open(self.dir + "/slot_" + s, "rb") as f: b = f.read()
        shim.sim_activate(self.fd, self.dir.encode())
        return b
def child(spec, i, fd, out, d):
    signal.signal(signal.SIGINT, signal.SIG_DFL); resource.setrlimit(resource.RLIMIT_CPU, (spec.get("cpu", 40), spec.get("cpu", 40) + 5)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.chdir(d); p = Proc(spec); p.fd = fd; p.dir = d; mod.simpy_fill(spec.get("fill", 0xA5)); np.random.seed(1)
    sys.stdout = io.StringIO(); nul = os.open("/dev/null", os.O_WRONLY); os.dup2(nul, 1); os.dup2(nul, 2)
    os.read(fd, 1) # the controller says start
    shim.sim_activate(fd, d.encode())
    for k, o in enumerate(spec["ops"]):
        try: rec = dict({"i": k, "op": o["op"]}, **p.run(o))
        except (Exception,) as e: rec = {"i": k, "op": o["op"], "raised": type(e).__name__, "msg": str(e)[:200]}
        os.write(out, (json.dumps(rec) + "\n").encode())
    shim.sim_off(); os.write(out, b'{"end":"done"}\n'); os._exit(0)

# ------------------------------------------------------------------ controller
def run_case(case):
    d = tempfile.mkdtemp(prefix="pyw", dir=os.environ.get("PYWORLD_TMP", "/tmp")); P = case["procs"]; res = [[] for _ in P]; trace = []; choices = []; fired = {}
    sc = case.get("sched", {}); rng = random.Random(sc.get("seed", 1)); expl = list(sc["expl"]) if "expl" in sc else None; faults = [dict(f) for f in case.get("faults", [])]; counts = {}
    for n, t in case.get("files", {}).items(): open(d + "/" + n, "w").write(t)
    if case.get("readonly"): pass
    try:
        for g in sorted({p.get("group", 0) for p in P}):
            live = {}
            for i, p in enumerate(P):
                if p.get("group", 0) != g: continue
                a, b = socket.socketpair(); r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    try:
                        a.close(); os.close(r)
                        for q in live.values(): q["s"].close(); os.close(q["r"])
                        child(p, i, b.fileno(), w, d)
                    finally: os._exit(96)
                b.close(); os.close(w); live[i] = {"pid": pid, "s": a, "r": r, "buf": b"", "req": None, "out": b"", "op": ("start",), "f": a.makefile("rb", 0)}
            def drain(q):
                while select.select([q["r"]], [], [], 0)[0]:
                    b = os.read(q["r"], 65536)
                    if not b: break
                    q["out"] += b
            while live:
                # choose who runs
                ids = sorted(live)
                if expl is not None:
                    c = None
                    while expl:
                        c = expl.pop(0)
                        if c in live: break
                        c = None
                    if c is None: c = choices[-1] if choices and choices[-1] in live else ids[0]
                else: c = choices[-1] if choices and choices[-1] in live and rng.random() < sc.get("stay", 0.5) else rng.choice(ids)
                choices.append(c); q = live[c]; kill = False
                if q["op"][0] == "start": q["s"].sendall(b"s")
                else:
                    op, name, n = q["op"]; k = (c, op); counts[k] = counts.get(k, 0) + 1; allk = (c, "*"); counts[allk] = counts.get(allk, 0) + 1; reply = "0 -1\n"
                    trace.append([c, op, name])
                    for f in faults:
                        if f["p"] != c: continue
                        if "kill" in f:
                            if counts[allk] == f["kill"]: kill = True; fired["kill"] = fired.get("kill", 0) + 1
                        elif f["op"] == op and (counts[k] == f["nth"] or (f.get("sticky") and counts[k] > f["nth"])):
                            reply = f"{f.get('err', 0)} {f.get('lim', -1)}\n"; fired[op] = fired.get(op, 0) + 1
                    if kill: os.kill(q["pid"], signal.SIGKILL)
                    else: q["s"].sendall(reply.encode())
                # run it to its next file operation or its end
                line = b""; ended = False
                while True:
                    rs = select.select([q["s"], q["r"]], [], [], 120)[0]
                    if not rs: os.kill(q["pid"], signal.SIGKILL); ended = True; res[c].append({"stuck": 1}); break
                    if q["r"] in rs:
                        b = os.read(q["r"], 65536)
                        if b: q["out"] += b
                    if q["s"] in rs:
                        try: b = q["f"].readline()
                        except ConnectionError: b = b""
                        if not b: ended = True; break
                        op, name, n = b.decode().split(" ")[:3]; q["op"] = (op, name, int(n)); break
                if ended:
                    _, st = os.waitpid(q["pid"], 0)
                    while True:
                        b = os.read(q["r"], 65536)
                        if not b: break
                        q["out"] += b
                    res[c] += [json.loads(l) for l in q["out"].decode().split("\n") if l.strip().endswith("}")]
                    if not (res[c] and res[c][-1].get("end") == "done"):
                        if os.WIFSIGNALED(st): res[c].append({"killed": 1} if kill else {"died": os.WTERMSIG(st)})
                        else: res[c].append({"exit": os.WEXITSTATUS(st)})
                    os.close(q["r"]); q["f"].close(); q["s"].close(); del live[c]
        left = {n: os.path.getsize(d + "/" + n) for n in sorted(os.listdir(d))}
        texts = {n: open(d + "/" + n, "rb").read().hex() for n in case.get("want", []) if n in left}
        return {"procs": res, "trace": trace[:400], "choices": choices[:2000], "files": left, "texts": texts, "fired": fired}
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    warnings.simplefilter("ignore"); out = os.fdopen(os.dup(1), "w"); gc.collect(); gc.freeze()
    for line in sys.stdin:
        try: r = run_case(json.loads(line))
        except Exception as e: r = {"error": repr(e)}
        out.write(json.dumps(r) + "\n"); out.flush()
if __name__ == "__main__": main()
