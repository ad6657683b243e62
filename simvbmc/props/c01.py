"""C01 evaluation ledger: unit histories of the logger and whole runs."""
import numpy as np

from simvbmc import loggersim, sim
from simvbmc import world as W
from simvbmc.runner import Skip

RULE = (
    "unit plans: random histories of 4-60 evaluations/additions/failures/copies over few points, all record sizes, noise levels and transforms; "
    "run plans: random problem and options with target failures and in-memory retries. Non-trivial: at least one evaluation recorded; distinct by event trace"
)
TIERS = {"quick": {"n": 300}, "thorough": {"n": 12000, "cap": 2400}}
BATCH = 12


def gen(rng, tier, i):
    if i % 4:
        return {"mode": "unit", "hist": [loggersim.gen(rng) for _ in range(BATCH)]}
    p = W.gen_problem(rng, integer=rng.random() < 0.35, max_iter=rng.choice([3, 4, 5, 6, 8]), nx0=rng.choice([1, 1, 2, 4, 11]))
    if rng.random() < 0.3:
        p["f_vals"] = [None if rng.random() < 0.5 else float(W.base_value(p, np.array(x))) for x in p["x0"]]
    return {
        "mode": "run",
        "p": p,
        "faults": sim.gen_faults(rng, 0, 35, noise=p["noise"]) if rng.random() < 0.6 else {},
        "rep": rng.choice(["float", "npfloat", "arr0", "arr1", "arr11", "np32", "int", "mixed"]),
        "mutate": rng.random() < 0.3,
        "lat": sim.gen_lat(rng),
    }


def run(plan, rep):
    if plan["mode"] == "unit":
        for h in plan["hist"]:
            loggersim.run(h, rep, {"ledger"})
            if rep.violations:
                return
        return
    p = plan["p"]
    s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"]), rep=plan["rep"], mutate=plan["mutate"], lat=plan["lat"]))
    s.must_build()

    def at_call(t, c):
        if rep.violations:
            return
        sim.ledger(s, c.i, f"at call {c.i} (iteration {c.tag})", rep.bad)
        if rep.violations or c.i == 0:
            return
        fl = s.v.function_logger
        n = fl.Xn + 1
        a = np.asarray(fl.X_flag[:n], bool)
        if a.any():
            rep.check(float(fl.y_max) == float(np.max(fl.y[:n][a])), "best-value", lambda: f"at call {c.i}: y_max {fl.y_max}, best recorded {np.max(fl.y[:n][a])}")

    s.target.on_call.append(at_call)
    s.until_done()
    sim.ledger(s, len(s.target.calls), "at the end", rep.bad)
    ok = s.target.ok_calls()
    rep.check(s.results["func_count"] == len(ok), "reported-count", lambda: f"results func_count {s.results['func_count']}, successful calls {len(ok)}")
    for k in range(s.n):
        e = sum(1 for c in ok if c.tag <= k)
        rep.check(int(s.h["func_count"][k]) == e, "iteration-count", lambda: f"iteration {k}: func_count {s.h['func_count'][k]}, successful calls {e}")
    s.done()
