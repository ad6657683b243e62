"""C05 the iteration history is complete and immutable."""
import copy

import dill
import numpy as np

from simvbmc import sim
from simvbmc import world as W
from simvbmc.canon import digest
from simvbmc.runner import Skip

RULE = (
    "unit plans: histories of 10-60 record/record_iteration/reject/mutate/copy operations against a model; run plans: whole runs with target failures, retries and "
    "a continuation, the recorded entries compared at every target call and at the end, then the caller modifies every live object. Distinct by event trace"
)
TIERS = {"quick": {"n": 130}, "thorough": {"n": 5000, "cap": 2400}}

KEYS = (
    "r_index elcbo_impro stable elbo vp warmup iter elbo_sd lcb_max gp gp_hyp_full Ns_gp timer optim_state sKL "
    "pruned var_ss func_count n_eff logging_action function_logger random_state"
).split()


def gen(rng, tier, i):
    if i % 3 == 2:
        return {"mode": "unit", "hist": [{"ops": gen_ops(rng)} for _ in range(40)]}
    p = W.gen_problem(rng, max_iter=rng.choice([4, 6, 8, 10]), integer=rng.random() < 0.1)
    return {
        "mode": "run",
        "p": p,
        "faults": sim.gen_faults(rng, 0, 40, noise=p["noise"]) if rng.random() < 0.4 else {},
        "more": rng.choice([0, 0, 1, 3]),
        "mutate": rng.random() < 0.8,
    }


def gen_ops(rng):
    ops = []
    for _ in range(rng.choice([10, 25, 60])):
        r = rng.random()
        if r < 0.45:
            ops.append(["rec", rng.choice("abcd"), rng.choice([0, 0, 1, 2, 3, 7]), rng.choice(["arr", "list", "dict", "num", "none", "obj", "str"]), rng.randrange(1000)])
        elif r < 0.65:
            n = rng.choice([1, 2, 4])
            ks = rng.sample("abcd", n)
            if rng.random() < 0.35:
                ks.insert(rng.randrange(n + 1), "zz")
            ops.append(["iter", ks, rng.choice([0, 1, 2, 5, 5, -1]), rng.randrange(1000)])
        elif r < 0.72:
            ops.append(["badkey", rng.randrange(6)])
        elif r < 0.78:
            ops.append(["neg", rng.choice("abcd"), -rng.randrange(1, 5)])
        elif r < 0.92:
            ops.append(["mutate", rng.randrange(100)])
        elif r < 0.96:
            ops.append(["copy"])
        else:
            ops.append(["dill"])
    return ops


class Thing:
    def __init__(self, k):
        self.a = np.arange(4.0) + k
        self.d = {"x": [k, k + 1]}


def value(kind, k):
    return {"arr": np.arange(3.0) + k, "list": [k, [k + 1]], "dict": {"q": np.ones(2) * k, "r": [k]}, "num": float(k), "none": None, "obj": Thing(k), "str": f"s{k}"}[kind]


def scribble(v):
    if isinstance(v, np.ndarray):
        v += 17.0
    elif isinstance(v, list):
        v.append(-1)
        if isinstance(v[1], list):
            v[1].append("x")
    elif isinstance(v, dict):
        v["new"] = 1
        if "q" in v:
            v["q"] *= -2.0
            v["r"].append(5)
    elif isinstance(v, Thing):
        v.a[:] = 0
        v.d["x"].append("y")


def run_unit(h, rep):
    from pyvbmc.vbmc.iteration_history import IterationHistory

    H = IterationHistory(list("abcd"))
    model = {k: None for k in "abcd"}
    live = []
    frozen = []

    def put(k, it, v):
        a = model[k]
        a = [] if a is None else a
        while len(a) <= it:
            a.append(digest(None))
        a[it] = digest(v)
        model[k] = a

    for i, op in enumerate(h["ops"]):
        err = None
        try:
            if op[0] == "rec":
                v = value(op[3], op[4])
                H.record(op[1], v, op[2])
                put(op[1], op[2], v)
                live.append(v)
            elif op[0] == "iter":
                vals = {k: value(["arr", "dict", "obj"][j % 3], op[3] + j) for j, k in enumerate(op[1])}
                ok = op[2] >= 0 and "zz" not in vals
                try:
                    H.record_iteration(vals, op[2])
                    rep.check(ok, "invalid-record-accepted", f"op {i} {op}")
                except ValueError:
                    rep.check(not ok, "record-rejected", f"op {i} {op}")
                if ok:
                    for k, v in vals.items():
                        put(k, op[2], v)
                        live.append(v)
            elif op[0] == "badkey":
                try:
                    if op[1] % 2:
                        H.record("nope", 1, 0)
                    else:
                        H["nope"] = 3
                    rep.bad("invalid-record-accepted", f"op {i} {op}")
                except ValueError:
                    rep.count("checks")
            elif op[0] == "neg":
                try:
                    H.record(op[1], 1, op[2])
                    rep.bad("invalid-record-accepted", f"op {i} {op}")
                except ValueError:
                    rep.count("checks")
            elif op[0] == "mutate" and live:
                scribble(live[op[1] % len(live)])
            elif op[0] == "copy":
                frozen.append((H, {k: None if v is None else list(v) for k, v in model.items()}))
                del frozen[:-2]
                H = copy.deepcopy(H)
            elif op[0] == "dill":
                H = dill.loads(dill.dumps(H))
        except Exception as e:
            rep.bad("record-failed", f"op {i} {op}: {type(e).__name__}: {e}")
            return
        for hist, m in [(H, model)] + frozen:
            if sorted(hist) != sorted("abcd"):
                rep.bad("history-differs", f"op {i} {op}: keys {sorted(hist)}")
                return
            for k in "abcd":
                got = None if hist[k] is None else [digest(x) for x in hist[k]]
                if not rep.check(got == m[k], "history-differs", lambda: f"op {i} {op}: key {k} holds {hist[k]}"):
                    return
    rep.trace([len(v or []) for v in model.values()])


def entry_bad(h, k):
    """What is inconsistent about iteration k, if anything."""
    for key in KEYS:
        a = h[key]
        if a is None or len(a) <= k or a[k] is None:
            return "incomplete", f"iteration {k}: no {key}"
    f = lambda key: float(np.ravel(h[key][k])[0])
    vp, fl, gp, os_ = h["vp"][k], h["function_logger"][k], h["gp"][k], h["optim_state"][k]
    if f("iter") != k:
        return "inconsistent", f"iteration {k}: iter {h['iter'][k]}"
    if float(np.ravel(os_["iter"])[0]) != k:
        return "inconsistent", f"iteration {k}: optimization state of iteration {os_['iter']}"
    for key in ("elbo", "elbo_sd"):
        if f(key) != float(np.ravel(vp.stats[key])[0]):
            return "inconsistent", f"iteration {k}: {key} {h[key][k]}, posterior {vp.stats[key]}"
    if int(f("func_count")) != fl.func_count:
        return "inconsistent", f"iteration {k}: func_count {h['func_count'][k]}, record {fl.func_count}"
    if bool(h["warmup"][k]) != bool(os_["warmup"]):
        return "inconsistent", f"iteration {k}: warmup {h['warmup'][k]}, state {os_['warmup']}"
    if f("lcb_max") != float(np.ravel(os_["lcb_max"])[0]):
        return "inconsistent", f"iteration {k}: lcb_max {h['lcb_max'][k]}, state {os_['lcb_max']}"
    if digest(np.asarray(h["gp_hyp_full"][k])) != digest(np.asarray(gp.get_hyperparameters(as_array=True))):
        return "inconsistent", f"iteration {k}: gp_hyp_full differs from the recorded surrogate"
    if int(f("n_eff")) != int(np.ravel(os_["n_eff"])[0]) and k > 0 and not (h["warmup"][k - 1] and True):
        return "inconsistent", f"iteration {k}: n_eff {h['n_eff'][k]}, state {os_['n_eff']}"
    return None


class Watch:
    def __init__(self, s, rep):
        self.s, self.rep = s, rep
        self.seen = []
        self.rs = {}

    def look(self, where, strict=True):
        s, rep = self.s, self.rep
        h = s.v.iteration_history
        n = s.n
        for k in range(len(self.seen)):
            if not rep.check(k < n, "iteration-lost", f"{where}: iteration {k} disappeared"):
                return
            d = sim.hist_digest(h, k)
            bad = [q for q in d if d[q] != self.seen[k].get(q)]
            if not rep.check(not bad, "recorded-entry-changed", f"{where}: iteration {k}: {bad}"):
                return
        for k in range(len(self.seen), n):
            b = entry_bad(h, k)
            if b:
                rep.bad(b[0], f"{where}: {b[1]}")
                return
            self.seen.append(sim.hist_digest(h, k))
        if strict:
            for key in KEYS:
                rep.check(len(h[key]) == n if h[key] is not None else n == 0, "incomplete", lambda: f"{where}: {key} has {0 if h[key] is None else len(h[key])} entries after {n} iterations")


def run(plan, rep):
    if plan["mode"] == "unit":
        for h in plan["hist"]:
            run_unit(h, rep)
            if rep.violations:
                return
        return
    from pyvbmc.vbmc.iteration_history import IterationHistory

    p = plan["p"]
    s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"])))
    s.must_build()
    stored = {}
    real = IterationHistory.record

    def dg(key, value):
        if key == "vp":
            return digest([{q: w for q, w in vars(value).items() if q not in ("stats", "_mode")}, {q: w for q, w in (value.stats or {}).items() if q != "stable"}])
        if key == "timer":
            return digest(W.durations(value))
        return digest(value)

    def record(self, key, value, iteration):
        r = real(self, key, value, iteration)
        if s.v is not None and self is s.v.iteration_history:
            stored[(key, iteration)] = dg(key, value)
        return r

    IterationHistory.record = record
    w = Watch(s, rep)

    def at_call(t, c):
        if not rep.violations:
            w.look(f"at call {c.i}")

    s.target.on_call.append(at_call)

    def attempts():
        for _ in range(8):
            if s.optimize():
                return
            if not s.faulted():
                raise Skip(f"run failed: {type(s.exc).__name__}: {str(s.exc)[:80]}")
            if not rep.violations:
                w.look("after a failure", strict=False)
        raise Skip("too many failures")

    attempts()
    w.look("after optimize")
    for j in range(1 if plan["more"] else 0):
        n0 = s.n
        s.v.options.__setitem__("max_iter", n0 + plan["more"], force=True)
        s.v.options.__setitem__("max_fun_evals", 1000, force=True)
        attempts()
        rep.count("continuations")
        w.look("after a continuation")
    if rep.violations:
        return
    for (key, k), d in stored.items():
        if k < s.n:
            rep.check(dg(key, s.h[key][k]) == d, "recorded-entry-changed", f"{key} of iteration {k} is not what was recorded")
    last = s.n - 1
    rep.check(digest(s.h["vp"][last].stats.get("elbo")) == digest(s.h["elbo"][last]), "inconsistent", "last elbo")
    # the caller holds the live objects
    if plan["mutate"] and not rep.violations:
        rep.fault("caller-writes")
        havoc(s)
        w.look("after the caller modified live objects", strict=False)
    s.done()


def havoc(s):
    objs = [s.vp, s.v.vp, s.v.gp, s.v.function_logger, s.v.optim_state, s.v.hyp_dict, s.results, s.v.parameter_transformer]
    seen = set()

    def walk(o, depth):
        if id(o) in seen or depth > 6 or callable(o) and not hasattr(o, "mu"):
            return
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            if o.dtype.kind == "f" and o.flags.writeable:
                o *= -3.0
                o += 11.0
            elif o.dtype.kind == "b" and o.flags.writeable:
                o[...] = ~o
            elif o.dtype.kind == "i" and o.flags.writeable:
                o += 5
        elif isinstance(o, dict):
            for k in list(o):
                walk(o[k], depth + 1)
                if isinstance(o[k], (float, int)) and not isinstance(o[k], bool):
                    o[k] = o[k] + 3
        elif isinstance(o, list):
            for x in o:
                walk(x, depth + 1)
            o.append("scribble")
        elif hasattr(o, "__dict__") and type(o).__module__.split(".")[0] in ("pyvbmc", "gpyreg"):
            for k in list(vars(o)):
                if k in ("fun", "iteration_history"):
                    continue
                walk(vars(o)[k], depth + 1)

    for o in objs:
        walk(o, 0)
