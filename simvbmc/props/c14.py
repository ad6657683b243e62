"""C14 repeated observations: unit histories, their permutations, and runs."""
import random

from simvbmc import loggersim, sim
from simvbmc import world as W

RULE = (
    "unit plans: histories of 4-60 observations of 1-12 points (all noise levels, transforms, value representations, supplied and evaluated), "
    "each also replayed in another interleaving; run plans: integer-valued problems whose actively sampled points repeat, with failures. "
    "Non-trivial: at least one observation; distinct by event trace"
)
TIERS = {"quick": {"n": 240}, "thorough": {"n": 9000, "cap": 2400}}
BATCH = 14


def gen(rng, tier, i):
    if i % 6:
        out = []
        for _ in range(BATCH):
            c = loggersim.gen(rng, n_ops=rng.choice([4, 10, 25, 50]))
            c["npts"] = rng.choice([1, 1, 2, 3, 5])
            for o in c["ops"]:
                if o[0] in ("call", "add"):
                    o[1] %= c["npts"]
                elif o[0] == "bad":
                    o[2] %= c["npts"]
            out.append(c)
        return {"mode": "unit", "hist": out}
    p = W.gen_problem(rng, D=rng.choice([1, 1, 2]), bounds="b", integer=True, noise=rng.choice([0, 1, 2, 2]), max_iter=rng.choice([4, 6, 8]), warp=rng.choice(["often", "never"]))
    if p["D"] == 1 or rng.random() < 0.6:
        p["opts"]["integer_vars"] = {"arr": [1.0] * p["D"]}
        for d in range(p["D"]):
            if p["kinds"][d] != "i":
                p["kinds"][d] = "i"
                p["lb"][d], p["ub"][d] = -0.5, 4.5
                p["plb"][d], p["pub"][d] = 0.5, 3.5
                p["mu"][d], p["s"][d] = rng.uniform(1, 3), rng.choice([0.5, 1.5])
                for x in p["x0"]:
                    x[d] = rng.uniform(0.6, 3.4)
    if p["noise"] == 2:
        p["opts"]["search_acq_fcn"] = {"acq": ["noisy"]}
        p["opts"]["active_sample_vp_update"] = False
    return {"mode": "run", "p": p, "faults": sim.gen_faults(rng, 6, 30, n=1, noise=p["noise"]) if rng.random() < 0.3 else {}, "per_call": rng.random() < 0.7}


def run(plan, rep):
    if plan["mode"] == "unit":
        for h in plan["hist"]:
            base = loggersim.run(h, rep, {"fuse"})
            if rep.violations:
                return
            loggersim.order_free(h, rep, base)
            if rep.violations:
                return
        return
    s = sim.Sim(plan["p"], rep, tk=dict(faults=sim.int_keys(plan["faults"]), per_call=plan["per_call"]))
    s.must_build()

    def at_call(t, c):
        if not rep.violations:
            sim.ledger(s, c.i, f"at call {c.i}", rep.bad)
            sim.working(s, f"at call {c.i}", rep.bad)

    s.target.on_call.append(at_call)
    s.until_done()
    sim.ledger(s, len(s.target.calls), "at the end", rep.bad)
    sim.working(s, "at the end", rep.bad)
    n = s.v.function_logger.n_evals[: s.v.function_logger.Xn + 1]
    rep.count("repeated_points", int((n > 1).sum()))
    s.done()
