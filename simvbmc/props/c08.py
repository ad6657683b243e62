"""C08 bounds: what the target is asked, what posteriors produce."""
import copy

import numpy as np

from simvbmc import seams, sim
from simvbmc import world as W
from simvbmc.runner import Skip

RULE = (
    "run plans: random problems with tight, shifted, half-touched bounds, starting points on the bounds, integer variables, all search methods, failures/retries/"
    "continuations, and injected legal extreme random draws; every target call and the samples and densities of every recorded and returned posterior checked. Distinct by event trace"
)
TIERS = {"quick": {"n": 110}, "thorough": {"n": 5500, "cap": 2700}}


def gen(rng, tier, i):
    integer = rng.random() < 0.35
    p = W.gen_problem(rng, max_iter=rng.choice([3, 4, 6, 8]), bounds="b" if rng.random() < 0.7 else "m", integer=integer)
    geo = rng.random()
    if geo < 0.25 and not integer:
        # far from the origin, or almost touching plausible bounds
        for d in range(p["D"]):
            if p["kinds"][d] != "b":
                continue
            sh = rng.choice([0.0, 1e3, -1e6]) * (p["ub"][d] - p["lb"][d])
            for k in ("lb", "ub", "plb", "pub", "mu"):
                p[k][d] += sh
            for x in p["x0"]:
                x[d] += sh
            if rng.random() < 0.5:
                w = p["ub"][d] - p["lb"][d]
                p["plb"][d], p["pub"][d] = p["lb"][d] + 0.002 * w, p["ub"][d] - 0.002 * w
    if rng.random() < 0.3:
        for x in p["x0"]:
            d = rng.randrange(p["D"])
            if p["kinds"][d] == "b":
                x[d] = p[rng.choice(["lb", "ub", "plb", "pub"])][d]
    o = p["opts"]
    if rng.random() < 0.45:
        o["search_optimizer"] = rng.choice(["cmaes", "Nelder-Mead"])
        o["search_max_fun_evals"] = rng.choice([12, 40])
    if rng.random() < 0.3:
        o["heavy_tail_search_frac"] = 0.3
        o["mvn_search_frac"] = 0.2
        o["hpd_search_frac"] = o["search_cache_frac"] = 0
    if rng.random() < 0.2:
        o["box_search_frac"] = 0.3
        o["search_cache_frac"] = 0
    if rng.random() < 0.3:
        # the mass sits against a bound
        for d in range(p["D"]):
            if p["kinds"][d] == "b":
                p["mu"][d] = p[rng.choice(["plb", "pub", "lb", "ub"])][d]
    return {
        "mode": "run",
        "p": p,
        "integer": integer,
        "faults": sim.gen_faults(rng, 0, 30, noise=p["noise"]) if rng.random() < 0.2 else {},
        "extreme": rng.choice([0.0, 0.0, 0.02, 0.2]),
        "more": rng.random() < 0.25,
        "q": rng.randrange(1 << 30),
    }


def run(plan, rep):
    p = plan["p"]
    D = p["D"]
    lb = np.array([-np.inf if b is None else b for b in p["lb"]])
    ub = np.array([np.inf if b is None else b for b in p["ub"]])
    x0 = np.array(p["x0"])
    ints = np.array([k == "i" for k in p["kinds"]]) if plan["integer"] else np.zeros(D, bool)
    seams.install_rng_extremes()
    s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"])))

    def at_call(t, c):
        if len(rep.violations) > 3:
            return
        rep.count("target_queries")
        where = f"call {c.i} (iteration {c.tag})"
        x = c.x.ravel()
        if not rep.check(c.shape == (D,), "wrong-shape", lambda: f"{where}: shape {c.shape} for {D} parameters"):
            return
        rep.check(bool(np.all(np.isfinite(x))), "non-finite-point", lambda: f"{where}: {x}")
        rep.check(bool(np.all((x > lb) & (x < ub))), "outside-bounds", lambda: f"{where}: {x} bounds {lb} {ub}")
        if ints.any() and c.tag is not None and c.tag > 0:
            r = np.abs(x - np.round(x))[ints]
            tol = 1e-7 * np.maximum(1.0, (ub - lb)[ints])
            rep.check(bool(np.all(r <= tol)), "not-integer", lambda: f"{where}: {x}, integer variables {np.flatnonzero(ints)}")

    s.target.on_call.append(at_call)
    s.must_build()
    if plan["extreme"]:
        seams.RNGFAULTS.start(plan["q"], plan["extreme"], True)
    try:
        s.until_done()
        vps = [(f"iteration {k}", s.h["vp"][k]) for k in range(s.n)] + [("returned", s.vp)]
        if plan["more"]:
            s.v.options.__setitem__("max_iter", s.n + 2, force=True)
            s.until_done()
            vps.append(("continued", s.vp))
        for name, vp in vps:
            queries(vp, name, lb, ub, plan, rep, p)
    finally:
        seams.RNGFAULTS.stop()
        if seams.RNGFAULTS.fired:
            rep.fault("rng-extreme", seams.RNGFAULTS.fired)
    s.done()


def queries(vp, name, lb, ub, plan, rep, p):
    vp = copy.deepcopy(vp)
    D = len(lb)
    for kw in ({}, {"balance_flag": True}, {"df": 3}, {"orig_flag": True, "df": np.inf}):
        try:
            x, i = vp.sample(40, **kw)
        except Exception as e:
            rep.bad("sampling-fails", f"{name} {kw}: {type(e).__name__}: {e}")
            return
        rep.count("samples", len(x))
        rep.check(x.shape == (40, D), "sample-shape", lambda: f"{name} {kw}: {x.shape}")
        bad = ~(np.all(np.isfinite(x)) and np.all(x >= lb) and np.all(x <= ub))
        rep.check(not bad, "sample-outside-bounds", lambda: f"{name} {kw}: range {x.min(0)} {x.max(0)} bounds {lb} {ub}")
    c = (np.array(p["plb"]) + np.array(p["pub"])) / 2
    out = []
    for d in range(D):
        for b, sg in ((lb[d], -1), (ub[d], 1)):
            if np.isfinite(b):
                for step in (1e-6, 0.3, 100.0):
                    y = c.copy()
                    y[d] = b + sg * step * (ub[d] - lb[d])
                    if not lb[d] <= y[d] <= ub[d]:
                        out.append(y)
    if out:
        out = np.array(out)
        inside = np.tile(c, (3, 1))
        mix = np.vstack([inside[:1], out, inside[1:]])
        for kw in ({}, {"log_flag": True}, {"df": 4}, {"grad_flag": True}):
            try:
                f = vp.pdf(mix, **kw)
            except NotImplementedError:
                continue
            except Exception as e:
                rep.bad("density-fails", f"{name} {kw}: {type(e).__name__}: {e}")
                return
            if isinstance(f, tuple):
                f = f[0]
            f = np.ravel(f)
            o = f[1 : 1 + len(out)]
            z = -np.inf if kw.get("log_flag") else 0.0
            rep.count("densities", len(o))
            rep.check(len(f) == len(mix) and bool(np.all(o == z)), "density-outside-bounds", lambda: f"{name} {kw}: {o}")
            if not kw.get("df"):
                ins = np.append(f[:1], f[1 + len(out) :])
                rep.check(bool(np.all(ins == ins[0])) and not np.any(np.isnan(ins)), "density-inside-bounds", lambda: f"{name} {kw}: {ins}")
