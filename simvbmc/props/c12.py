"""C12 the returned solution is the documented best iteration."""
import math

import numpy as np

from simvbmc import sim
from simvbmc import world as W
from simvbmc.canon import first_diff
from simvbmc.runner import Skip

RULE = (
    "unit plans: the choice on 300 random histories (ties, stable runs, huge and tiny uncertainties, any cut-off iteration); run plans: whole runs of any length with stability, boosts, failing targets, "
    "continuations and reloads, selection and result fields recomputed from the history. Distinct by event trace"
)
TIERS = {"quick": {"n": 210}, "thorough": {"n": 9000, "cap": 2700}}


def gen(rng, tier, i):
    if i % 7 == 3:
        return {"mode": "unit", "seed": rng.randrange(1 << 30), "n": 300, "p": W.gen_problem(rng, D=2, noise=0, prior=None)}
    p = W.gen_problem(rng, max_iter=rng.choice([1, 2, 3, 5, 8, 12]), integer=rng.random() < 0.1)
    o = p["opts"]
    if rng.random() < 0.6:
        o["tol_stable_count"] = rng.choice([1, 5, 5, 10, 20])
        o["tol_sd"] = rng.choice([0.5, 2.0])
        o["tol_skl"] = 1.0
        o["tol_improvement"] = rng.choice([0.5, W.INF])
    if rng.random() < 0.4:
        o["min_iter"] = rng.choice([5, 8])
        o["min_fun_evals"] = rng.choice([0, 30])
    if rng.random() < 0.3:
        o["do_final_boost"] = False
    if rng.random() < 0.3:
        o["min_final_components"] = rng.choice([1, 2, 6])
    if rng.random() < 0.4:
        o["ns_ent_boost"] = []
        o["ns_ent_fine_boost"] = []
        o["ns_ent_fast_boost"] = []
    return {
        "mode": "run",
        "p": p,
        "faults": sim.gen_faults(rng, 0, 45, noise=p["noise"]) if rng.random() < 0.2 else {},
        "segs": sim.gen_story(rng),
    }


def best(elbo, sd, stable, last, safe=5, back=0.25):
    """Admissible best iterations under the documented rule."""
    if stable[last]:
        return {last}
    st = [k for k in range(last + 1) if stable[k]]
    k0 = st[-1] if st else int(math.ceil(last - last * back))
    low = [elbo[k] - safe * sd[k] for k in range(k0, last + 1)]
    m = max(low)
    return {k0 + j for j, x in enumerate(low) if x == m}


class FakeVP:
    def __init__(self, k):
        self.k = k
        self.stats = {}


def run_unit(plan, rep):
    p = plan["p"]
    s = sim.Sim(p, rep)
    s.must_build()
    v = s.v
    r = np.random.RandomState(plan["seed"])
    H = v.iteration_history
    for t in range(plan["n"]):
        n = int(r.choice([1, 2, 3, 5, 9, 30]))
        style = r.randint(4)
        elbo = r.randn(n) * 10.0 ** r.randint(-3, 4)
        if style == 1:
            elbo = np.round(elbo)
        if style == 2:
            elbo = np.sort(elbo)
        if style == 3:
            elbo[:] = elbo[0]
        sd = np.abs(r.randn(n)) * 10.0 ** r.randint(-4, 3)
        if style == 3:
            sd = np.round(sd, 1)
        stable = r.rand(n) < r.choice([0.0, 0.0, 0.1, 0.4])
        vps = [FakeVP(k) for k in range(n)]
        for key in H:
            H[key] = None
        for k in range(n):
            H.record_iteration({"iter": k, "elbo": float(elbo[k]), "elbo_sd": float(sd[k]), "stable": bool(stable[k]), "vp": vps[k], "r_index": float(r.rand() * 3)}, k)
        last = None if r.rand() < 0.5 else int(r.randint(n))
        kw = {}
        safe, back = 5, 0.25
        if r.rand() < 0.4:
            safe = kw["safe_sd"] = float(r.choice([0, 1, 10]))
        if r.rand() < 0.4:
            back = kw["frac_back"] = float(r.choice([0.0, 0.1, 0.5, 1.0]))
        if last is not None:
            kw["max_idx"] = last
        try:
            vp, e, d, k = v.determine_best_vp(**kw)
        except Exception as ex:
            rep.bad("choice-failed", f"history {t}: {type(ex).__name__}: {ex}")
            return
        ok = best([float(x) for x in elbo], [float(x) for x in sd], stable, n - 1 if last is None else last, safe, back)
        what = f"history {t}: elbo {elbo} sd {sd} stable {stable} {kw}"
        rep.check(k in ok, "wrong-choice", lambda: f"{what}: chose {k}, documented rule {sorted(ok)}")
        rep.check(vp.k == k and e == elbo[k] and d == sd[k], "choice-inconsistent", lambda: f"{what}: iteration {k}, posterior of {vp.k}, elbo {e}, sd {d}")
        if rep.violations:
            return
    rep.trace(f"unit {plan['seed']}")


def run(plan, rep):
    if plan["mode"] == "unit":
        return run_unit(plan, rep)
    p = plan["p"]
    s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"])))
    s.must_build()

    def after(where):
        v, h, n, res, vp = s.v, s.h, s.n, s.results, s.vp
        f = lambda key, k: float(np.ravel(h[key][k])[0])
        ok = best([f("elbo", k) for k in range(n)], [f("elbo_sd", k) for k in range(n)], [bool(h["stable"][k]) for k in range(n)], n - 1)
        b = int(res["best_iter"])
        if not rep.check(b in ok, "wrong-choice", lambda: f"{where}: best_iter {b}, documented rule {sorted(ok)}"):
            return
        hv = h["vp"][b]
        st = bool(h["stable"][b])
        rep.check(bool(vp.stats["stable"]) == st, "inconsistent", lambda: f"{where}: posterior's stable {vp.stats['stable']}, iteration {b} {st}")
        for key, val in (("elbo", vp.stats["elbo"]), ("elbo_sd", vp.stats["elbo_sd"]), ("components", vp.K), ("r_index", h["r_index"][b]), ("train_set_size", h["n_eff"][b]), ("iterations", n - 1), ("func_count", h["func_count"][n - 1])):
            a, c = float(np.ravel(res[key])[0]), float(np.ravel(val)[0])
            rep.check(a == c or (math.isnan(a) and math.isnan(c)), "inconsistent", lambda: f"{where}: result {key} {res[key]}, expected {val}")
        rep.check(bool(res["success_flag"]) == st, "inconsistent", lambda: f"{where}: success_flag {res['success_flag']}, iteration {b} stable {st}")
        rep.check(res["convergence_status"] == ("probable" if st else "no"), "inconsistent", lambda: f"{where}: {res['convergence_status']}, iteration {b} stable {st}")
        d = first_diff(W.tr_sig(vp.parameter_transformer), W.tr_sig(hv.parameter_transformer))
        rep.check(d is None, "inconsistent", lambda: f"{where}: coordinates of the returned posterior: {d}")
        o = v.options
        K = max(hv.K, int(o["min_final_components"]))

        def val(name, base):
            x = o[name]
            if isinstance(x, list) and not x:
                return base
            return x(K) if callable(x) else x

        boost = bool(o["do_final_boost"]) and (
            hv.K < int(o["min_final_components"])
            or val("ns_ent", None) != val("ns_ent_boost", val("ns_ent", None))
            or val("ns_ent_fine", None) != val("ns_ent_fine_boost", val("ns_ent_fine", None))
        )
        if not boost:
            rep.count("unboosted")
            d = first_diff(W.vp_sig(hv), W.vp_sig(vp))
            rep.check(d is None, "not-the-best-iteration", lambda: f"{where}: returned posterior differs from iteration {b}'s: {d}")
        else:
            rep.count("boosted")
            rep.check(vp.K == K, "inconsistent", lambda: f"{where}: boosted to {vp.K} components, expected {K}")
            if boosts and boosts[-1][0] == len(s.target.calls):
                _, a, g, out = boosts[-1]
                d = first_diff({q: x for q, x in W.vp_sig(hv).items()}, a)
                rep.check(d is None, "not-the-best-iteration", lambda: f"{where}: boosted posterior was not iteration {b}'s: {d}")
                d = first_diff(W.gp_sig(h["gp"][b]), g)
                rep.check(d is None, "not-the-best-iteration", lambda: f"{where}: boosted on a surrogate that was not iteration {b}'s: {d}")
                d = first_diff(out, W.vp_sig(vp))
                rep.check(d is None, "inconsistent", lambda: f"{where}: returned posterior is not the boosted one: {d}")
        d = first_diff(W.vp_sig(s.vp), W.vp_sig(v.vp))
        rep.check(d is None, "inconsistent", lambda: f"{where}: object keeps another posterior than it returned: {d}")

    boosts = []
    from pyvbmc import VBMC

    real = VBMC.final_boost

    def final_boost(self, vp, gp, *a, **k):
        x, g = W.vp_sig(vp), W.gp_sig(gp)
        x["mu"], x["w"] = x["mu"].copy(), x["w"].copy()
        r = real(self, vp, gp, *a, **k)
        if self is s.v:
            boosts.append((len(s.target.calls), x, g, W.vp_sig(r[0])))
        return r

    VBMC.final_boost = final_boost
    sim.story(s, plan["segs"], after)
    s.done()
