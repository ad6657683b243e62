"""C19 an undone reparameterisation leaves no trace."""
import copy
import os

import numpy as np

from simvbmc import seams, sim
from simvbmc import world as W
from simvbmc.canon import digest, first_diff
from simvbmc.runner import Skip

RULE = (
    "run plans: attempts kept or undone at seeded iterations with failing targets, continuations and reloads: the state seen by the first acquisition or target call after an undone attempt, and "
    "everything recorded for the iteration, against the previous iteration's record; kept ones replaced together. twin plans: the same saved run continued with a forced undone attempt and without any, "
    "random stream restarted at every clock reading: from there on bit for bit the same. Distinct by event trace"
)
TIERS = {"quick": {"n": 150}, "thorough": {"n": 6500, "cap": 2700}}

# what an attempt may leave behind
BOOK = {"warping_count", "last_warping"}
# what every iteration changes before its first acquisition
NORMAL = {"iter", "redo_roto_scaling", "entropy_switch", "skip_active_sampling"}
SEARCH = {"N", "N_eff", "gp_length_scale", "search_cache", "var_log_joint_samples", "sn2_hpd", "hyp_dict", "gp_mean_fun", "active_importance_sampling", "vp_repo", "recompute_var_post", "entropy_alpha"}


def gen(rng, tier, i):
    p = W.gen_problem(rng, max_iter=rng.choice([5, 6, 8, 10]), integer=rng.random() < 0.12, D=rng.choice([2, 2, 2, 3, 3]), warp="often")
    o = p["opts"]
    if rng.random() < 0.5:
        o["warmup_no_impro_threshold"] = 3
    if rng.random() < (0.75 if i % 3 == 0 else 0.4):
        o["warmup"] = False
    o.pop("warp_undo_check", None)
    plan = {"p": p, "mode": "twin" if i % 3 == 0 else "run"}
    if plan["mode"] == "twin":
        o["warp_tol_improvement"] = rng.choice([W.INF, -W.INF, 0.1])
        plan["more"] = rng.choice([1, 2, 3])
        plan["back"] = rng.choice([0, 0, 1, 2])
        plan["seed"] = rng.randrange(1 << 30)
        return plan
    o["warp_tol_improvement"] = rng.choice([W.INF, W.INF, 3.0, 0.1, 0.0, -5.0, -W.INF])
    if o["warp_tol_improvement"] == -W.INF:
        o["warp_tol_sd_multiplier"] = W.INF
        o["warp_tol_sd_base"] = W.INF
    elif rng.random() < 0.2:
        # rejected by the other criterion
        o["warp_tol_improvement"] = -W.INF
        o["warp_tol_sd_multiplier"] = rng.choice([0.0, 1.0])
        o["warp_tol_sd_base"] = rng.choice([-1.0, 0.0])
    if rng.random() < 0.1:
        o["warp_undo_check"] = False
    if rng.random() < 0.2:
        o["separate_search_gp"] = True
    plan["faults"] = sim.gen_faults(rng, 0, 45, noise=p["noise"]) if rng.random() < 0.35 else {}
    plan["segs"] = sim.gen_story(rng)
    return plan


def actions(la):
    """(attempted, undone)"""
    la = la or []
    undone = any(a.startswith("undo ") for a in la)
    return any("rotoscale" in a for a in la), undone


def against_record(h, k, vp, fl, gp, o, rep, where, p):
    """State right after an undone attempt against the previous record."""
    d = first_diff(W.tr_sig(h["vp"][k - 1].parameter_transformer), W.tr_sig(vp.parameter_transformer))
    rep.check(d is None, "coordinates", f"{where}: coordinates of the posterior {d}")
    d = first_diff(W.fl_sig(h["function_logger"][k - 1]), W.fl_sig(fl))
    rep.check(d is None, "record", f"{where}: data record {d}")
    d = first_diff(W.vp_sig(h["vp"][k - 1]), W.vp_sig(vp))
    rep.check(d is None, "posterior", f"{where}: posterior {d}")
    if gp is not None:
        g0 = h["gp"][k - 1]
        d = first_diff(W.gp_sig(g0)["hyp"], W.gp_sig(gp)["hyp"])
        rep.check(d is None, "surrogate", f"{where}: surrogate's hyperparameters {d}")
        act = np.asarray(h["function_logger"][k - 1].X_flag, bool)
        if g0.X.shape[0] == int(np.sum(act)):
            d = first_diff(W.gp_sig(g0), W.gp_sig(gp))
            rep.check(d is None, "surrogate", f"{where}: surrogate {d}")
    o0 = h["optim_state"][k - 1]
    skip = BOOK | NORMAL | SEARCH
    d = first_diff({q: o0[q] for q in o0 if q not in skip}, {q: o[q] for q in o if q not in skip})
    rep.check(d is None, "search-state", f"{where}: search state {d}")
    rep.check(o["warping_count"] == o0["warping_count"] + 2 and o["last_warping"] == k, "attempt-count", f"{where}: attempts {o0['warping_count']} -> {o['warping_count']}, last {o['last_warping']}")


def recorded(h, k, rep, p, failed):
    """Everything recorded for iteration k about attempts."""
    la = h["logging_action"][k]
    tried, undone = actions(la)
    o0, o = h["optim_state"][k - 1], h["optim_state"][k]
    t = {n: W.tr_sig(x) for n, x in (("posterior", h["vp"][k].parameter_transformer), ("record", h["function_logger"][k].parameter_transformer))}
    t0 = W.tr_sig(h["vp"][k - 1].parameter_transformer)
    d = first_diff(t["posterior"], t["record"])
    rep.check(d is None, "replaced-together", f"iteration {k}: coordinates of posterior and record {d}")
    if not tried:
        if k in failed:
            # an attempt may have been made before the failure
            return
        rep.check(o["warping_count"] == o0["warping_count"] and o["last_warping"] == o0["last_warping"], "attempt-count", f"iteration {k}: attempts counted without an attempt")
        rep.check(first_diff(t0, t["posterior"]) is None, "coordinates", f"iteration {k}: coordinates changed without an attempt")
        return
    rep.count("undone" if undone else "kept")
    rep.check(o["last_warping"] == k, "attempt-count", f"iteration {k}: last attempt {o['last_warping']}")
    rep.check(o["warping_count"] == o0["warping_count"] + (2 if undone else 1), "attempt-count", f"iteration {k}: attempts {o0['warping_count']} -> {o['warping_count']}")
    if undone:
        d = first_diff(t0, t["posterior"])
        rep.check(d is None, "coordinates", f"iteration {k}: undone, but the coordinates changed: {d}")
        rep.check(o["last_successful_warping"] == o0["last_successful_warping"], "attempt-count", f"iteration {k}: undone attempt counted as successful")
        f0, f = h["function_logger"][k - 1], h["function_logger"][k]
        n = f0.Xn + 1
        # rows of before, unless observed again or trimmed
        m = np.asarray(f0.X_flag[:n], bool) & (np.ravel(f.n_evals[:n]) == np.ravel(f0.n_evals[:n]))
        d = first_diff({"X": f0.X[:n][m], "y": f0.y[:n][m]}, {"X": f.X[:n][m], "y": f.y[:n][m]})
        rep.check(d is None, "record", f"iteration {k}: undone, but the rows of before changed: {d}")
        lo0, hi0, lo, hi = (np.ravel(a) for a in (o0["lb_search"], o0["ub_search"], o["lb_search"], o["ub_search"]))
        rep.check(bool(np.all(lo <= lo0) and np.all(hi >= hi0)), "search-state", f"iteration {k}: undone, but the search box shrank")
        for q in ("plb_tran", "pub_tran", "lb_tran", "ub_tran"):
            d = first_diff(o0[q], o[q])
            rep.check(d is None, "search-state", f"iteration {k}: undone, but {q} changed: {d}")
    else:
        rep.check(o["last_successful_warping"] == k, "attempt-count", f"iteration {k}: kept attempt not recorded as successful")


def run(plan, rep):
    if plan["mode"] == "twin":
        twin(plan, rep)
        return
    p = plan["p"]
    s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"])))
    seen = set()

    def look(where, vp, fl, gp, o):
        v = s.v
        if rep.violations or v is None or v.iteration < 1:
            return
        k = v.iteration
        if (id(v), k) in seen:
            return
        seen.add((id(v), k))
        if W.hist_len(v.iteration_history) != k:
            return
        tried, undone = actions(v.logging_action)
        if undone:
            rep.count("states_compared")
            against_record(v.iteration_history, k, vp, fl, gp, o, rep, f"iteration {k}, {where}", p)

    def spy(Xs, gp, vp, fl, o):
        look("first acquisition", vp, fl, None if p["opts"].get("separate_search_gp") else gp, o)

    def call(t, c):
        if s.v is not None:
            look("first target call", s.v.vp, s.v.function_logger, s.v.gp, s.v.optim_state)

    s.extra = sim.spy_acqs(p, spy)
    s.target.on_call.append(call)
    s.must_build()

    def after(where):
        failed = {c.tag for c in s.target.calls if c.fault is not None}
        for k in range(1, s.n):
            if not rep.violations:
                recorded(s.h, k, rep, p, failed)
        v = s.v
        d = first_diff(W.tr_sig(v.function_logger.parameter_transformer), W.tr_sig(v.parameter_transformer))
        rep.check(d is None, "replaced-together", f"{where}: coordinates of the record and the object {d}")

    sim.story(s, plan["segs"], after)
    s.done()


def twin(plan, rep):
    from pyvbmc import VBMC

    p = plan["p"]
    s = sim.Sim(p, rep)
    s.must_build().must()
    f = os.path.join(sim.scratch(), "twin.pkl")
    s.v.save(f, overwrite=True)
    n = s.n
    it = max(1, n - 1 - plan["back"])
    calls0 = len(s.target.calls)
    far = 10**6
    common = dict(max_iter=it + 1 + plan["more"], max_fun_evals=10000, warp_undo_check=True, warp_min_k=1, warp_tol_reliability=W.INF, incremental_warp_delay=False, warp_every_iters=far)
    out = []
    for undo in (True, False):
        del s.target.calls[calls0:]
        try:
            v = VBMC.load(f, iteration=it, new_options=dict(common, warp_tol_improvement=W.INF, warp_rotoscaling=undo))
        except sim.ERRORS as e:
            raise Skip(f"load failed: {type(e).__name__}: {str(e)[:80]}")
        # the attempt of the next iteration only
        v.optim_state["last_warping"] = -W.INF
        v.iteration_history["optim_state"][-1]["last_warping"] = -W.INF
        s.v = v
        seams.CLOCK.hook = lambda: np.random.seed(plan["seed"] % (1 << 32))
        try:
            s.must()
        finally:
            seams.CLOCK.hook = None
        out.append((v, s.vp, s.results, [c.x.copy() for c in s.target.calls[calls0:]]))
    (a, vpa, ra, xa), (b, vpb, rb, xb) = out
    h = a.iteration_history
    und = [k for k in range(it + 1, W.hist_len(h)) if actions(h["logging_action"][k])[1]]
    if not und:
        rep.count("no_attempt")
        s.done()
        return
    rep.count("twins")
    g = b.iteration_history
    w = f"undone attempt at iteration {und}, against no attempt"
    rep.check(len(xa) == len(xb), "different-run", f"{w}: {len(xa)} target calls, {len(xb)}")
    for j, (x, y) in enumerate(zip(xa, xb)):
        if not rep.check(np.array_equal(x, y), "different-run", lambda: f"{w}: target call {j} at {x}, {y}"):
            break
    for k in range(it + 1, W.hist_len(h)):
        if rep.violations:
            break
        sa, sb = W.iter_sig(h, k), W.iter_sig(g, k)
        for q in ("logging_action", "rs"):
            sa.pop(q), sb.pop(q)
        d = first_diff(sa, sb)
        rep.check(d is None, "different-run", f"{w}: iteration {k} {d}")
        oa, ob = ({q: x[q] for q in x if q not in BOOK} for x in (h["optim_state"][k], g["optim_state"][k]))
        d = first_diff({q: digest(x) for q, x in oa.items()}, {q: digest(x) for q, x in ob.items()})
        rep.check(d is None, "different-run", f"{w}: iteration {k} search state {d}")
    d = first_diff(W.vp_sig(vpa), W.vp_sig(vpb))
    rep.check(d is None, "different-run", f"{w}: final posterior {d}")
    d = first_diff(W.result_sig(ra), W.result_sig(rb))
    rep.check(d is None, "different-run", f"{w}: results {d}")
    s.done()
