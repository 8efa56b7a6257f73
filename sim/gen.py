"""Seeded generators: model configurations and histories of operations."""
import math, random

ACT = ["logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy"]

def pick(r, d):
    """Weighted choice from {value: weight}."""
    ks = list(d); return r.choices(ks, [d[k] for k in ks])[0]

def layer(r, kind, n, last=False, evolve=None, act=None):
    ev = r.random() < 0.6 if evolve is None else evolve
    d = {"type": kind}
    if kind in ("connected", "recurrent", "lstm", "convolutional"):
        d.update({"activation": act or ("linear" if last and r.random() < 0.5 else r.choice(ACT)), "n_init": n, "eta": r.choice([0.1, 0.01, 0.001]),
                  "sgd_weights": r.random() < 0.7, "evolve_weights": ev, "evolve_functions": ev and r.random() < 0.5,
                  "evolve_eta": ev and r.random() < 0.6, "evolve_connect": ev and r.random() < 0.5,
                  "momentum": r.choice([0, 0.9]), "decay": r.choice([0, 0, 0.001]), "eta_min": 0.00001})
        if kind == "lstm": d.update({"activation": act or "tanh", "recurrent_activation": "logistic", "evolve_functions": False})
        if kind == "recurrent" and r.random() < 0.5: pass
        if not last and ev and r.random() < 0.5: d.update({"evolve_neurons": True, "n_max": n + r.choice([0, 1, 2, 3, 4, 9]), "max_neuron_grow": r.choice([1, 1, 2, 2, 4, 7])})
    return d

def net(r, x, out, feats, hidden_stoch=None, out_act=None, softmax_ok=False):
    """A network: list of layers as JSON args, plus flags."""
    L, flags = [], set()
    stoch = feats.get("stochastic", 0.0) if hidden_stoch is None else hidden_stoch
    rec = feats.get("recurrent", 0.15)
    if x == 16 and r.random() < 0.7: # images
        shape = r.choice(["conv", "convpool", "pool", "up", "avg", "convavg"])
        base = {"height": 4, "width": 4, "channels": 1}
        if shape in ("conv", "convpool", "convavg"):
            d = layer(r, "convolutional", r.randint(1, 2)); d.update({"size": r.choice([2, 3]), "stride": 1, "pad": r.choice([0, 1])}); d.update(base); base = {}; L.append(d)
        if shape in ("convpool", "pool"): L.append(dict(base, type="maxpool", size=2, stride=r.choice([1, 2]), pad=r.choice([0, 0, 1]))); base = {}
        if shape == "up": L.append(dict(base, type="upsample", stride=2)); base = {}
        if shape in ("avg", "convavg"): L.append(dict(base, type="avgpool")); base = {}
        flags.add("image")
    n_h = r.choice([0, 1, 1, 1, 2])
    for _ in range(n_h):
        k = "connected"
        u = r.random()
        if u < rec: k = r.choice(["recurrent", "lstm"]); flags.add("stateful")
        L.append(layer(r, k, r.randint(1, 4) if r.random() < 0.94 else r.choice([9, 17])))
    if r.random() < stoch:
        k = r.choice(["dropout", "noise"]); flags.add("stochastic")
        d = {"type": k, "probability": r.choice([0.1, 0.5]), "scale": r.choice([0.05, 0.5])}
        if not L and x == 16: d.update({"height": 4, "width": 4, "channels": 1})
        if k == "dropout": d.pop("scale")
        L.insert(r.randint(0, len(L)) if "image" not in flags else len(L), d)
    if softmax_ok and r.random() < 0.25:
        L.append(layer(r, "connected", out, last=True)); L.append({"type": "softmax", "scale": 1})
    else:
        k = "connected"
        if r.random() < rec * 0.5: k = r.choice(["recurrent", "lstm"]); flags.add("stateful")
        L.append(layer(r, k, out, last=True, act=out_act))
    return {f"layer_{i}": l for i, l in enumerate(L)}, flags

CONDS_SUP = {"hyperrectangle_csr": 3, "hyperrectangle_ubr": 3, "hyperellipsoid": 3, "neural": 2, "tree_gp": 2, "dgp": 2, "ternary": 2, "dummy": 1, "rule_dgp": 1, "rule_neural": 1}
CONDS_RL = {"hyperrectangle_csr": 3, "hyperrectangle_ubr": 3, "hyperellipsoid": 3, "neural": 2, "tree_gp": 2, "dgp": 2, "ternary": 3, "dummy": 1, "rule_dgp": 1, "rule_neural": 2}
PREDS = {"constant": 2, "nlms_linear": 3, "nlms_quadratic": 2, "rls_linear": 2, "rls_quadratic": 1, "neural": 3}

def gen_model(r, mode=None, feats=None):
    """mode: sup | rl. feats: probabilities of optional features.
    Returns a spec: x, y, a, cfg, flags (set of str), kind (data kind), bin."""
    feats = feats or {}
    mode = mode or r.choice(["sup", "sup", "rl"])
    rl = mode == "rl"
    x = feats.get("x") or r.choice([1, 2, 2, 3, 4, 5, 16 if r.random() < 0.4 else 2])
    y = 1 if rl else (feats.get("y") or r.choice([1, 1, 2, 3, 7]))
    a = (feats.get("a") or r.choice([2, 2, 3, 4, 8])) if rl else 1
    cond = feats.get("cond") or pick(r, CONDS_RL if rl else CONDS_SUP)
    predk = feats.get("pred") or pick(r, PREDS)
    if cond == "rule_neural" and a > 3: a = r.choice([2, 3]) # covering draws networks until one advocates the action
    if x >= 16 and "quadratic" in predk: predk = predk.replace("quadratic", "linear")
    flags = set(); cfg = {}
    cfg["omp_num_threads"] = feats.get("threads", 8)
    cfg["random_state"] = r.randint(0, 2 ** 31 - 1) if r.random() < 0.5 else r.randint(0, 100)
    pop = r.choice([4, 6, 10, 16, 25, 40, 60]) if not feats.get("pop") else feats["pop"]
    if cond in ("neural", "rule_neural", "rule_network") or predk == "neural" or x >= 16: pop = min(pop, 25)
    elif not feats.get("pop") and cond in ("dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary") and "rls" not in predk and r.random() < 0.05: pop = r.choice([150, 300, 600])
    pop = max(pop, a + 2)
    cfg["pop_size"] = pop; cfg["pop_init"] = r.random() < 0.5
    cfg["max_trials"] = 10; cfg["perf_trials"] = 5
    kind = "reg"
    loss = r.choice(["mae", "mse", "rmse", "huber", "mae"])
    if not rl and r.random() < 0.15:
        loss = r.choice(["log", "binary_log", "onehot"])
        kind = {"log": "onehot", "binary_log": "bin", "onehot": "onehot"}[loss]
        if loss in ("log", "onehot") and y == 1: y = 2
    if not rl and kind == "reg" and r.random() < 0.15: kind = r.choice(["unit", "const", "bin"])
    if loss == "huber": cfg["huber_delta"] = r.choice([0.5, 1.0])
    cfg["loss_func"] = loss
    if rl: cfg.update({"gamma": r.choice([0, 0.5, 0.71, 0.95, 1]), "teletransportation": r.randint(3, 50), "p_explore": r.choice([0, 0.2, 0.5, 0.9, 1.0])})
    cfg["set_subsumption"] = r.random() < feats.get("set_sub", 0.35); cfg["theta_sub"] = r.choice([0, 1, 3, 10, 50])
    cfg["e0"] = r.choice([0.001, 0.01, 0.05, 0.2, 0.5]); cfg["alpha"] = r.choice([0.05, 0.1, 1.0]); cfg["nu"] = r.choice([1, 5, 5, 10, 2.5, 0])
    cfg["beta"] = r.choice([0.05, 0.1, 0.2, 0.34, 0.5, 1.0]) if r.random() < 0.85 else r.choice([0.01, 0.001, 1e-6, 0]); cfg["delta"] = r.choice([0.05, 0.1, 0.5, 1.0, 0.1, 0]); cfg["theta_del"] = r.choice([0, 5, 20, 100])
    cfg["init_fitness"] = r.choice([0.01, 0.1, 1.0]) if r.random() < 0.8 else r.choice([0, 1e-9, 1e-5, 20]); cfg["init_error"] = r.choice([0, 0.1, 1.0])
    cfg["m_probation"] = r.choice([2, 10, 50, 10000]) if r.random() < feats.get("short_probation", 0.6) else 10000000
    cfg["stateful"] = r.random() < 0.7; cfg["compaction"] = r.random() < 0.15
    ea = {"select_type": r.choice(["roulette", "tournament"]), "theta_ea": r.choice([0, 1, 2, 5, 10, 25]), "lambda": r.choice([2, 2, 2, 4, 6, 3, 9]), "p_crossover": r.choice([0, 0.5, 0.8, 1.0]), "err_reduc": r.choice([1, 0.5, 0.25, 1, 0]), "fit_reduc": r.choice([0.1, 0.5, 1, 0.1, 0]), "subsumption": r.random() < 0.5, "pred_reset": r.random() < 0.3}
    if ea["select_type"] == "tournament": ea["select_size"] = r.choice([0.2, 0.4, 0.5, 0.8, 1.0])
    cfg["ea"] = ea
    if rl or (y and a == 1):
        if rl:
            if cond.startswith("rule_"): cfg["action"] = {"type": "integer"}
            elif r.random() < 0.2:
                n, f = net(r, x, a, dict(feats, recurrent=feats.get("recurrent", 0.1)), softmax_ok=True); cfg["action"] = {"type": "neural", "args": n}; flags |= f
            else: cfg["action"] = {"type": "integer"}
    binary = False; args = {}
    if cond.startswith("hyper"): 
        lo, hi = r.choice([(0, 1), (0, 1), (0, 1), (-1, 1), (-2, 0.5), (0.2, 0.7), (0, 3)])
        args = {"eta": r.choice([0, 0, 0.1, 0.5]), "min": lo, "max": hi, "spread_min": r.choice([0.05, 0.1, 0.3, 0.8])}
    elif cond in ("neural", "rule_network"):
        args, f = net(r, x, 1 if cond == "neural" else y, feats); flags |= f
    elif cond == "rule_neural":
        na = max(1, math.ceil(math.log2(a))) if a > 1 else 1
        args, f = net(r, x, na + 1, feats, out_act=r.choice(["logistic", "tanh", "linear"]) if a > 1 else None); flags |= f
    elif cond == "tree_gp": args = {"min_constant": 0, "max_constant": 1, "n_constants": r.choice([1, 4, 100]), "init_depth": r.randint(2, 5), "max_len": r.choice([100, 10000])}
    elif cond in ("dgp", "rule_dgp"):
        args = {"max_k": r.randint(1, 3), "max_t": r.randint(1, 10), "n": r.choice([5, 10, 20]), "evolve_cycles": r.random() < 0.5}; flags.add("stateful")
    elif cond == "ternary": args = {"p_dontcare": r.choice([0.2, 0.5, 0.9]), "bits": r.choice([1, 2, 3]) if cfg["random_state"] % 7 else 6}; binary = r.random() < 0.5
    cfg["condition"] = {"type": cond}
    if cond in ("tree_gp", "dgp", "ternary") and r.random() < 0.15: args = {}
    if args: cfg["condition"]["args"] = args
    if predk.startswith("nlms"): pargs = {"x0": r.choice([0.5, 1, 1, 2, -1]), "eta": r.choice([0.1, 0.5, 1]), "evolve_eta": r.random() < 0.6, "eta_min": r.choice([0.0001, 0.1])}
    elif predk.startswith("rls"): pargs = {"x0": r.choice([1, 1, 0.5, 3]), "lambda": r.choice([1, 0.99, 0.9]), "scale_factor": r.choice([100, 1000, 10])}
    elif predk == "neural":
        pargs, f = net(r, x, y, feats, softmax_ok=kind == "onehot", out_act="softplus" if loss == "binary_log" else None); flags |= f
    else: pargs = {}
    cfg["prediction"] = {"type": predk}
    if pargs: cfg["prediction"]["args"] = pargs
    if cond in ("rule_dgp",): flags.add("stateful")
    return {"x": x, "y": y, "a": a, "mode": mode, "cfg": cfg, "flags": sorted(flags), "kind": kind, "bin": binary}

def new_op(spec, m=0, **kw):
    o = {"op": "new", "m": m, "x": spec["x"], "y": spec["y"], "a": spec["a"], "cfg": spec["cfg"]}
    if "stochastic" in spec["flags"]: o["noref"] = 1
    if "stateful" in spec["flags"]: o["stateful_rules"] = 1
    o.update(kw); return o

def data_op(r, spec, d=0, n=None, seed=None, **kw):
    o = {"op": "data", "d": d, "n": n or r.choice([1, 2, 5, 8, 12]), "x": spec["x"], "y": spec["y"], "seed": seed if seed is not None else r.randint(1, 10 ** 6), "kind": spec["kind"]}
    if spec.get("bin"): o["kind"] = "bin" if spec["kind"] in ("reg", "bin") else spec["kind"]
    if r.random() < 0.15: o["distinct"] = r.choice([1, 2])
    o.update(kw); return o

def cover_val(r): return r.choice([0, 0, 0.5, -3])

def big_ok(spec): return spec["cfg"]["prediction"]["type"] in ("constant", "nlms_linear") and not spec["cfg"]["condition"]["type"].startswith("rule_") # learners that stay stable with payoffs of a thousand

def learn_op(r, spec, m=0, d=0, n=None, shuffle=None):
    """One operation of learning."""
    if spec["mode"] == "rl":
        u = r.random()
        if u < 0.25: return {"op": "rlfit", "m": m, "seed": r.randint(1, 10 ** 6), "action": r.randint(0, 7), "reward": r.choice([0, 0.3, 1, 1, -0.5, 1000 if big_ok(spec) else 2]), "bin": int(spec["bin"])}
        return {"op": "episode", "m": m, "seed": r.randint(1, 8), "steps": n or r.randint(1, 10), "explore": int(r.random() < 0.7), "states": r.choice([1, 2, 4, 8]), "bin": int(spec["bin"]), "pother": r.choice([0, 0, 0.3]), "terminal": int(r.random() < 0.8), "pay": r.choice([0, 0, 0, 1, 1, 2, 3 if big_ok(spec) else 0])}
    o = {"op": "fit", "m": m, "d": d, "n": n or r.choice([1, 3, 8, 15])}
    if r.random() < 0.3 if shuffle is None else shuffle: o["shuffle"] = 1
    else: o["start"] = r.randint(0, 20)
    return o

def eval_op(r, spec, m=0, d=0, cover=None):
    """One evaluation through the interface with a substitute for unmatched inputs."""
    u = r.random(); c = cover_val(r) if cover is None else cover
    if spec["mode"] == "rl" and u < 0.3: return {"op": "episode", "m": m, "seed": r.randint(1, 8), "steps": r.randint(1, 6), "explore": 0, "states": r.choice([1, 2, 4, 8]), "bin": int(spec["bin"]), "terminal": 1}
    if spec["mode"] == "rl" or u < 0.6: return {"op": "predict", "m": m, "d": d, "cover": c}
    return {"op": "score", "m": m, "d": d, "cover": c}

def some_params(r):
    """Parameters that may be changed at any time."""
    P = {"beta": [0.05, 0.1, 0.2, 0.34, 0.5, 1.0, 0], "alpha": [0.05, 0.1, 1.0], "e0": [0.001, 0.01, 0.05, 0.2, 0.5], "nu": [1, 5, 10, 2.5, 0], "delta": [0.05, 0.1, 0.5, 1.0, 0], "theta_del": [0, 5, 20, 100], "theta_sub": [0, 1, 3, 10, 50],
         "set_subsumption": [True, False], "gamma": [0, 0.5, 0.95, 1], "p_explore": [0, 0.2, 0.9, 1.0], "init_fitness": [0.01, 0.1, 1.0], "init_error": [0, 0.1, 1.0], "compaction": [True, False], "population_file": ["", "some.json"], "stateful": [True, False],
         "ea": [{"theta_ea": 0}, {"theta_ea": 5}, {"theta_ea": 25}, {"lambda": 2}, {"lambda": 4}, {"p_crossover": 0}, {"p_crossover": 1.0}, {"err_reduc": 0.25}, {"fit_reduc": 0.5}, {"subsumption": True}, {"subsumption": False}, {"pred_reset": True}, {"pred_reset": False}, {"select_type": "roulette"}, {"select_type": "tournament", "select_size": 0.5}]}
    return {k: r.choice(P[k]) for k in r.sample(sorted(P), r.randint(1, 4))}

def history(r, spec, n, m=0, nd=2, p_eval=0.3, d0=0, data=True, shuffle=None, setp=True, expand=True):
    ops = [data_op(r, spec, d0 + i) for i in range(nd)] if data else []
    for _ in range(n):
        d = d0 + r.randrange(nd)
        ops.append(eval_op(r, spec, m, d) if r.random() < p_eval else learn_op(r, spec, m, d, shuffle=shuffle))
    if n and setp and r.random() < 0.12: ops.insert(len(ops) - r.randrange(n), {"op": "setp", "m": m, "cfg": some_params(r)}) # parameters changed on the way
    if n and setp and expand and spec["cfg"]["prediction"]["type"] == "neural" and r.random() < 0.06: ops.insert(len(ops) - r.randrange(n), {"op": "expand", "m": m})
    if n and r.random() < 0.12: ops.insert(len(ops) - r.randrange(n), {"op": "age", "m": m, "seed": r.randint(1, 10 ** 6)}) # a model with a long life behind it
    return ops
