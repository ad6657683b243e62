"""C13 supplied starting points and values are used first, once, unchanged."""
import os

import numpy as np

from simvbmc import sim
from simvbmc import world as W
from simvbmc.runner import Skip

RULE = (
    "plans: 1..16 starting points (on the bounds, outside the plausible box, repeated, absent, flat or integer arrays), any subset with values, both designs, any design size, bounds, transforms and noise; "
    "the target fails anywhere in the initial design, with retries in memory or through a file. Distinct by event trace"
)
TIERS = {"quick": {"n": 420}, "thorough": {"n": 20000, "cap": 2700}}


def gen(rng, tier, i):
    p = W.gen_problem(rng, max_iter=rng.choice([1, 1, 2, 3]), integer=rng.random() < 0.1)
    D, o = p["D"], p["opts"]
    o["fun_eval_start"] = rng.choice([max(4, D + 2), max(4, D + 2), 6, 7, 10, 14])
    o["init_design"] = rng.choice(["plausible", "narrow"])
    nx = rng.choice([1, 1, 2, 3, 4, o["fun_eval_start"], o["fun_eval_start"] + rng.choice([1, 3])])
    form = rng.choice(["2d", "2d", "2d", "2d", "flat", "none", "int"])
    if form != "2d":
        nx = 1
    x0 = []
    for j in range(nx):
        x = []
        for d in range(D):
            a, b, k = p["plb"][d], p["pub"][d], p["kinds"][d]
            u = rng.random()
            if k == "i":
                v = float(rng.randint(round(p["lb"][d] + 0.5), round(p["ub"][d] - 0.5)))
            elif form == "int" and k == "u":
                v = float(round(rng.uniform(a, b)))
            elif u < 0.6:
                v = rng.uniform(a, b)
            elif k == "b":
                v = rng.choice([p["lb"][d], p["ub"][d], p["lb"][d] + (a - p["lb"][d]) * rng.random(), b + (p["ub"][d] - b) * rng.random()])
            else:
                v = rng.choice([a, b, a - (b - a) * rng.uniform(0, 2), b + (b - a) * rng.uniform(0, 2)])
            x.append(v)
        x0.append(x)
    if form == "int" and not all(k == "u" for k in p["kinds"]):
        form = "2d"
    if nx > 1 and rng.random() < 0.15:
        x0[-1] = list(x0[0])
    p["x0"] = x0
    p.pop("f_vals", None)
    if rng.random() < 0.55 and form != "none":
        p["f_vals"] = [W.base_value(p, x) + rng.uniform(-3, 0) if rng.random() < 0.5 else None for x in x0]
        if abs(p["offset"]) < 50 and rng.random() < 0.25:
            p["f_vals"][rng.randrange(len(x0))] = 0.0
    bounded = rng.random() > 0.08 or nx == 1
    return {
        "p": p,
        "form": form,
        "pb": bounded,
        "rep": rng.choice(["float", "npfloat", "mixed"]),
        "mutate": rng.random() < 0.2,
        "faults": sim.gen_faults(rng, 0, o["fun_eval_start"] + 2, n=rng.choice([1, 1, 2, 4]), noise=p["noise"]) if rng.random() < 0.5 else {},
        "via": rng.choice(["memory", "memory", "file"]),
    }


def run(plan, rep):
    from pyvbmc import VBMC

    p = plan["p"]
    D, o = p["D"], p["opts"]
    s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"]), rep=plan["rep"], mutate=plan["mutate"]))
    a = W.problem_arrays(p)
    if plan["form"] == "flat":
        a["x0"] = a["x0"].ravel()
    elif plan["form"] == "none":
        a["x0"] = None
    elif plan["form"] == "int":
        a["x0"] = a["x0"].astype(int)
    if not plan["pb"]:
        a["plausible_lower_bounds"] = a["plausible_upper_bounds"] = None
    s.must_build(a)
    # what the caller asked for, after the documented adjustments
    lb = np.array([-np.inf if b is None else b for b in p["lb"]])
    ub = np.array([np.inf if b is None else b for b in p["ub"]])
    rg = np.where(np.isfinite(ub - lb), ub - lb, 1.0)
    lo = np.where(np.isfinite(lb), lb + 1e-3 * rg, -np.inf)
    hi = np.where(np.isfinite(ub), ub - 1e-3 * rg, np.inf)
    if plan["pb"]:
        plb = np.maximum(np.array(p["plb"], float), lo)
        pub = np.minimum(np.array(p["pub"], float), hi)
    else:
        plb, pub = s.v.plausible_lower_bounds[0].copy(), s.v.plausible_upper_bounds[0].copy()
    if plan["form"] == "none":
        X0 = 0.5 * (plb + pub)[None, :]
    else:
        X0 = np.minimum(np.maximum(np.array(p["x0"], float).reshape(-1, D), lo), hi)
        plb, pub = np.minimum(plb, X0.min(0)), np.maximum(pub, X0.max(0))
    fv = p.get("f_vals") or [None] * len(X0)
    N = int(o["fun_eval_start"])
    tol = 1e-7 * np.maximum(np.maximum(np.maximum(np.abs(X0).max(0), np.abs(plb)), np.maximum(np.abs(pub), pub - plb)), np.where(np.isfinite(ub - lb), rg, 0))

    for _ in range(10):
        if s.optimize():
            break
        if not s.faulted():
            raise Skip(f"run failed: {type(s.exc).__name__}: {str(s.exc)[:80]}")
        if plan["via"] == "file":
            f = os.path.join(sim.scratch(), "x.pkl")
            try:
                s.v.save(f, overwrite=True)
                s.v = VBMC.load(f)
            except Exception as e:
                raise Skip(f"save/load failed: {type(e).__name__}: {str(e)[:80]}")
            rep.count("reloads")
    else:
        raise Skip("too many failures")
    h = s.h
    fl = h["function_logger"][0]
    calls = [c for c in s.target.calls if c.ok][: int(fl.func_count)]
    tried = s.target.calls[: calls[-1].i + 1] if calls else []

    size = int(fl.func_count + fl.cache_count)
    rep.check(size == N, "design-size", lambda: f"initial design of {fl.func_count} evaluations and {fl.cache_count} supplied values, configured {N}")
    used = X0[:N]
    want = [j for j in range(len(used)) if fv[j] is None]
    given = [j for j in range(len(used)) if fv[j] is not None]
    rep.count("supplied_points", len(want))
    rep.count("supplied_values", len(given))
    rep.check(int(fl.cache_count) == len(given), "supplied-value-count", lambda: f"{fl.cache_count} supplied values recorded, {len(given)} were supplied (in the first {N} points)")
    rep.check(len(calls) == N - len(given), "evaluation-count", lambda: f"{len(calls)} evaluations in the initial design, expected {N - len(given)}")
    if rep.violations:
        return
    # the supplied points, in order, each tried until it is evaluated
    q = 0
    for c in tried:
        if q >= len(want):
            break
        x = X0[want[q]]
        if not rep.check(bool(np.all(np.abs(c.x.ravel() - x) <= tol)), "starting-point-not-used", lambda: f"call {c.i} at {c.x.ravel()}, expected starting point {want[q]} at {x}"):
            return
        q += c.ok
    rep.check(q == len(want), "starting-point-not-used", lambda: f"only {q} of {len(want)} starting points evaluated")
    # points with values are not evaluated
    dup = {j for j in range(len(used)) for k in range(len(used)) if k != j and np.array_equal(X0[j], X0[k])}
    for j in given:
        if j in dup:
            continue
        for c in tried:
            rep.check(not np.all(np.abs(c.x.ravel() - X0[j]) <= tol), "supplied-value-evaluated", lambda: f"call {c.i} at {c.x.ravel()}: the value of starting point {j} was supplied")
    # rows
    n = fl.Xn + 1
    t = fl.parameter_transformer
    for j in range(len(used)):
        near = np.flatnonzero(np.all(np.abs(fl.X_orig[:n] - X0[j]) <= tol, axis=1))
        rep.check(len(near) >= 1, "starting-point-missing", lambda: f"starting point {j} at {X0[j]} is not in the record")
        if j in dup or not len(near):
            continue
        rep.check(int(np.sum(fl.n_evals[near])) == 1, "starting-point-repeated", lambda: f"starting point {j}: {int(np.sum(fl.n_evals[near]))} observations")
        if j in given:
            y = float(fl.y_orig[near[0], 0])
            rep.check(y == float(fv[j]), "supplied-value-altered", lambda: f"starting point {j}: recorded {y!r}, supplied {fv[j]!r}")
            e = y + float(np.ravel(t.log_abs_det_jacobian(fl.X[near[:1]]))[0])
            rep.check(abs(float(fl.y[near[0], 0]) - e) <= 1e-9 * (1 + abs(e)), "supplied-value-altered", lambda: f"starting point {j}: working value {fl.y[near[0]]}, expected {e}")
    if not dup:
        rep.check(n == N, "design-size", lambda: f"{n} rows for a design of {N}")
        # supplied points occupy the first rows, in order
        d = np.abs(fl.X_orig[: len(used)] - used)
        rep.check(bool(np.all(d <= tol)), "starting-point-order", lambda: f"rows {fl.X_orig[: len(used)]}, starting points {used}")
    rep.check(bool(np.all(fl.X_flag[:n])) or "trim data" in h["logging_action"][0] or "end warm-up" in h["logging_action"][0], "starting-point-left-out", lambda: f"rows in use {fl.X_flag[:n]}")
    # the rest of the design
    seen = 0
    box = None
    if o["init_design"] == "narrow":
        T = lambda x: np.ravel(t(np.atleast_2d(x)))
        a, b, c0 = T(plb), T(pub), T(X0[0])
        hw = 0.05 * (b - a)
        e = 1e-7 * (b - a)
        box = (c0 - hw - e, c0 + hw + e)
    xs = []
    for c in tried:
        if seen < len(want):
            seen += c.ok
            continue
        x = c.x.ravel()
        rep.count("design_points")
        rep.check(bool(np.all(x >= plb - tol) and np.all(x <= pub + tol)), "outside-plausible-box", lambda: f"call {c.i} at {x}, plausible box {plb} {pub}")
        if box is not None:
            u = T(x)
            rep.check(bool(np.all(u >= box[0]) and np.all(u <= box[1])), "outside-narrow-box", lambda: f"call {c.i} at {x} ({u}), narrow box {box}")
        xs.append(x)
    if len(xs) >= 2:
        rep.check(len({x.tobytes() for x in xs}) == len(xs), "design-points-coincide", lambda: f"{xs}")
    if len(xs) >= 6 and box is None:
        sp = np.ptp(np.array(xs), axis=0)
        rep.check(bool(np.all(sp > 0.01 * (pub - plb))), "design-collapsed", lambda: f"design spans {sp} of a plausible box {pub - plb}")
    rep.trace(f"{plan['form']} {o['init_design']} {N} {''.join('v' if f is not None else '.' for f in fv)} {''.join('o' if c.ok else 'x' for c in tried)}")
    s.done()
