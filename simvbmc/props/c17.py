"""C17 every posterior of a run is a valid mixture describing its iteration."""
import math

import numpy as np

from simvbmc import seams, sim
from simvbmc import world as W
from simvbmc.canon import first_diff

RULE = (
    "run plans: random problems, noise modes, pruning, fixed or free weights/means, reparameterisations, boosts, failing targets, continuations and reloads, injected legal extreme random draws; "
    "every recorded, live and returned posterior checked, its evidence compared with its iteration's surrogate. Distinct by event trace"
)
TIERS = {"quick": {"n": 150}, "thorough": {"n": 6500, "cap": 2700}}


def gen(rng, tier, i):
    p = W.gen_problem(rng, max_iter=rng.choice([4, 6, 8, 12]), integer=rng.random() < 0.1, D=rng.choice([1, 2, 2, 3, 4]))
    o = p["opts"]
    if rng.random() < 0.5:
        o["tol_weight"] = rng.choice([0.0, 0.05, 0.2, 0.5])
        o["pruning_threshold_multiplier"] = {"lin": [0, rng.choice([1, 100.0, 1e6])]}
    if rng.random() < 0.3:
        o["k_fun_max"] = {"lin": [rng.choice([0, 1]), rng.choice([1, 2, 4])]}
    if rng.random() < 0.3:
        o["k_warmup"] = rng.choice([1, 2, 5])
    if rng.random() < 0.15:
        o["variable_weights"] = False
    if rng.random() < 0.3:
        o["adaptive_k"] = rng.choice([0, 2, 5])
        o["tol_sd"] = 2.0
        o["tol_skl"] = 1.0
    if rng.random() < 0.25:
        o["elbo_starts"] = rng.choice([2, 3])
        o["ns_elbo"] = {"lin": [0, 60]}
    if rng.random() < 0.15:
        # deterministic entropy approximation
        o["ns_ent"] = o["ns_ent_boost"] = o["ns_ent_active"] = {"lin": [0, 0]}
    if rng.random() < 0.3:
        o["min_final_components"] = rng.choice([1, 2, 10])
    return {
        "mode": "run",
        "p": p,
        "faults": sim.gen_faults(rng, 0, 45, noise=p["noise"]) if rng.random() < 0.2 else {},
        "segs": sim.gen_story(rng),
        "extreme": rng.choice([0.0, 0.0, 0.0, 0.02, 0.2]),
        "pick": rng.randrange(1 << 30),
    }


def mixture(vp, rep, where):
    D, K = vp.D, vp.K
    ok = rep.check(isinstance(K, (int, np.integer)) and K >= 1, "components", lambda: f"{where}: K {K!r}")
    if not ok:
        return False
    shapes = {"mu": (D, K), "sigma": (1, K), "lambd": (D, 1), "w": (1, K)}
    for a, sh in shapes.items():
        x = np.asarray(getattr(vp, a))
        if not rep.check(x.shape == sh, "shape", lambda: f"{where}: {a} has shape {x.shape}, expected {sh}"):
            return False
    for a in ("mu", "sigma", "lambd", "w"):
        x = np.asarray(getattr(vp, a))
        if not rep.check(bool(np.isfinite(x).all()), "not-finite", lambda: f"{where}: {a} {x}"):
            return False
    rep.check(bool(np.all(vp.w >= 0)) and abs(float(np.sum(vp.w)) - 1) < 1e-9, "weights", lambda: f"{where}: weights {vp.w} sum to {np.sum(vp.w)!r}")
    rep.check(bool(np.all(vp.sigma > 0)) and bool(np.all(vp.lambd > 0)), "scales", lambda: f"{where}: sigma {vp.sigma} lambda {np.ravel(vp.lambd)}")
    return True


def evidence(vp, rep, where, var_ss=None):
    st = vp.stats
    if not rep.check(bool(st), "evidence", f"{where}: no statistics"):
        return
    e, sd = float(np.ravel(st["elbo"])[0]), float(np.ravel(st["elbo_sd"])[0])
    rep.check(math.isfinite(e) and math.isfinite(sd) and sd >= 0, "evidence", lambda: f"{where}: elbo {e} +/- {sd}")
    g, h = float(np.ravel(st["e_log_joint"])[0]), float(np.ravel(st["entropy"])[0])
    rep.check(abs(g + h - e) <= 1e-8 * (1 + abs(g) + abs(h)), "evidence", lambda: f"{where}: elbo {e}, expected log joint {g} plus entropy {h}")
    K = vp.K
    I, J = np.asarray(st["I_sk"]), np.asarray(st["J_sjk"])
    rep.check(I.ndim == 2 and I.shape[1] == K, "shape", lambda: f"{where}: I_sk has shape {I.shape} for {K} components")
    rep.check(J.ndim == 3 and J.shape[1:] == (K, K), "shape", lambda: f"{where}: J_sjk has shape {J.shape} for {K} components")
    if rep.violations:
        return
    # the parts reported per surrogate sample and component give the totals
    w = np.ravel(vp.w)
    G = I @ w
    tol = 1e-7 * (1 + float(np.max(np.abs(I) @ w)))
    rep.check(abs(float(np.mean(G)) - g) <= tol, "evidence", lambda: f"{where}: expected log joint {g}, its parts give {np.mean(G)}")
    eps = np.spacing(1)
    var = np.array([max(eps, w @ (Js - np.diag(np.diag(Js))) @ w + float(np.sum(w**2 * np.maximum(eps, np.diag(Js))))) for Js in J])
    ss = 0.0
    tot = float(var[0])
    if len(var) > 1:
        vss = float(np.sum((G - np.mean(G)) ** 2) / (len(G) - 1))
        ss = vss + float(np.std(var, ddof=1))
        tot = float(np.mean(var)) + vss
    big = float(np.max(np.abs(J)))
    vtol = 1e-6 * (tot + big) + 1e-9 + 1e-6 * tol * math.sqrt(max(tot, 0))
    gsd, hsd = float(np.ravel(st["e_log_joint_sd"])[0]), float(np.ravel(st["entropy_sd"])[0])
    rep.check(abs(gsd**2 - tot) <= vtol, "evidence", lambda: f"{where}: variance of the expected log joint {gsd**2}, its parts give {tot}")
    rep.check(abs(sd**2 - gsd**2 - hsd**2) <= vtol, "evidence", lambda: f"{where}: elbo_sd {sd}, of the expected log joint {gsd} and of the entropy {hsd}")
    if var_ss is not None:
        rep.check(abs(float(np.ravel(var_ss)[0]) - ss) <= vtol + 1e-6 * ss, "evidence", lambda: f"{where}: recorded variability between surrogate samples {var_ss}, its parts give {ss}")


def against_gp(vp, gp, rep, where, seed):
    """The reported expected log joint is that of this posterior on this surrogate."""
    rng = np.random.RandomState(seed % (1 << 31))
    n = 4000
    k = rng.choice(vp.K, size=n, p=np.ravel(vp.w) / np.sum(vp.w))
    x = vp.mu.T[k] + vp.lambd.T * vp.sigma[0, k][:, None] * rng.randn(n, vp.D)
    f, _ = gp.predict(x)
    f = np.ravel(f)
    m, se = float(np.mean(f)), float(np.std(f)) / math.sqrt(n)
    g = float(np.ravel(vp.stats["e_log_joint"])[0])
    if not math.isfinite(m):
        return
    rep.check(abs(m - g) <= 8 * se + 2e-3 * (1 + abs(g)), "evidence", lambda: f"{where}: expected log joint {g}, on the iteration's surrogate {m} +/- {se}")


def opt_value(v, name, key, val):
    x = v.options[name]
    return x(val) if callable(x) else x


def run(plan, rep):
    p = plan["p"]
    s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"])))
    s.must_build()
    warm0 = bool(s.v.optim_state["warmup"])
    if plan["extreme"]:
        seams.RNGFAULTS.start(plan["pick"], plan["extreme"], True)

    def after(where):
        v, h, n = s.v, s.h, s.n
        for k in range(n):
            vp = h["vp"][k]
            w = f"{where}: iteration {k}"
            if not mixture(vp, rep, w):
                return
            evidence(vp, rep, w, h["var_ss"][k])
            for key in ("elbo", "elbo_sd"):
                rep.check(float(np.ravel(h[key][k])[0]) == float(np.ravel(vp.stats[key])[0]), "evidence", lambda: f"{w}: recorded {key} {h[key][k]}, posterior's {vp.stats[key]}")
            warm = warm0 if k == 0 else bool(h["warmup"][k - 1])
            kw = int(v.options["k_warmup"])
            kmax = math.ceil(opt_value(v, "k_fun_max", "N", int(h["n_eff"][k])))
            if warm:
                rep.check(vp.K == kw, "warmup-components", lambda: f"{w}: {vp.K} components during warm-up, configured {kw}")
            else:
                prev = kw if k == 0 else h["vp"][k - 1].K
                rep.check(1 <= vp.K <= max(prev, kmax), "components", lambda: f"{w}: {vp.K} components, previously {prev}, maximum {kmax}")
        if rep.violations:
            return
        b = int(s.results["best_iter"])
        for vp, w in ((s.vp, "returned"), (v.vp, "live")):
            if not mixture(vp, rep, f"{where}: {w}"):
                return
            evidence(vp, rep, f"{where}: {w}")
        rep.check(s.vp.K >= h["vp"][b].K, "boost-lost-components", lambda: f"{where}: {s.vp.K} components, best iteration had {h['vp'][b].K}")
        if s.vp.K > h["vp"][b].K:
            rep.count("boosts")
            if v.options["do_final_boost"]:
                rep.check(s.vp.K == int(v.options["min_final_components"]), "components", lambda: f"{where}: boosted to {s.vp.K}, configured {v.options['min_final_components']}")
            else:
                rep.bad("components", f"{where}: {s.vp.K} components without a boost, best iteration had {h['vp'][b].K}")
        d = first_diff(W.tr_sig(s.vp.parameter_transformer), W.tr_sig(h["vp"][b].parameter_transformer))
        rep.check(d is None, "transformers-differ", lambda: f"{where}: returned posterior and best iteration: {d}")
        act = seams.RNGFAULTS.active
        seams.RNGFAULTS.active = False
        r = np.random.RandomState(plan["pick"])
        against_gp(s.vp, h["gp"][b], rep, f"{where}: returned", plan["pick"])
        for k in sorted(set(r.randint(0, n, size=3))):
            against_gp(h["vp"][k], h["gp"][k], rep, f"{where}: iteration {k}", plan["pick"] + k)
        seams.RNGFAULTS.active = act

    sim.story(s, plan["segs"], after)
    if seams.RNGFAULTS.fired:
        rep.fault("extreme-random-draw", seams.RNGFAULTS.fired)
    s.done()
