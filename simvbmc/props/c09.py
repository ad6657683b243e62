"""C09 budgets, termination, labels; no crash, no hang."""
import math

import numpy as np

from simvbmc import sim
from simvbmc import world as W
from simvbmc.canon import first_diff

RULE = (
    "run plans: healthy target, wide random options and budgets (minima above maxima included), simulated latencies; batch sizes per iteration, the termination decision of "
    "every iteration and all result labels recomputed from the observed calls and history; any exception or exceeded time limit is a violation. Distinct by event trace"
)
TIERS = {"quick": {"n": 190}, "thorough": {"n": 8000, "cap": 2700}}
HANG_KIND = "hang"
TIMEOUT = 100

EXOTIC = dict(
    best_frac_back=[0.1, 0.5, 1.0],
    best_safe_sd=[0, 1, 20],
    tol_stable_excpt_frac=[0.0, 0.5],
    elcbo_midpoint=[False],
    kl_gauss=[False],
    adaptive_k=[{"lin": [0, 0]}, {"lin": [0, 1]}, 4],
    k_fun_max=[{"lin": [0, 1]}, {"lin": [0, 3]}, {"lin": [1, 0]}],
    hpd_frac=[0.6, 1.0],
    elcbo_impro_weight=[0, 1],
    cache_frac=[0.1, 1.0],
    ns_ent_fast={"v": [{"lin": [0, 4]}]},
    recompute_lcb_max=[False],
    warmup_check_max=[False],
    stable_gp_samples=[1, 2],
    stable_gp_sampling=[5, 15],
    stable_gp_vp_k=[2, 3],
    gp_retrain_threshold=[0, 100],
    active_search_bound=[0.5, 10],
    tol_con_loss=[0.1],
    weight_penalty=[0.0, 1.0],
    tol_length=[1e-3],
    upper_gp_length_factor=[2],
    weighted_hyp_cov=[False],
    moments_run_weight=[0.0, 1.0],
    search_cmaes_vp_init=[False],
    search_cmaes_best=[True],
    max_repeated_observations=[3],
    print_iteration_header=[True, False],
    update_random_alpha=[True],
    det_entropy_alpha=[0.5, 1],
    gp_train_init_method=["rand"],
    cov_sample_thresh=[0.1, 1000],
    gp_sample_widths=["__inf__", 1],
    tol_cov_weight=[0.5],
    gp_quadratic_mean_bound=[False],
    gp_tol_opt=[1e-2],
    tol_gp_noise=[1e-2],
    ns_gp_max_warmup=[0, 2],
    ns_gp_max_main=[2],
    active_sample_full_update_past_warmup=[0, 10],
    active_sample_full_update_threshold=[0.1, 1e3],
    tol_bound_x=[1e-3],
    sgd_step_size=[0.05],
    warp_tol_improvement=[-1.0],
    display=["iter", "final", "notify"],
    variational_sampler=["malasample"],
    scale_lower_bound=[False],
    empirical_gp_prior=[True],
    det_entropy_tol_opt=[0.1, 1e-6],
    stop_warmup_thresh=[0.0, 10.0],
    elbo_starts=[2, 3, 4],
    ns_elbo={"v": [0, 1, 3, 4, 5, {"lin": [1, 0]}]},
    ns_elbo_incr=[0, 1],
    variable_means=[False],
    warp_cov_reg=[1, 0.5, {"lin": [0.5, 0]}],
    noise_size=[0.1, 2.0],
    gp_length_prior_mean=[0.1, 10.0],
    gp_length_prior_std=[0.1, 100.0],
    hyp_run_weight=[0.0, 1.0],
    tol_gp_var=[0.0, 1.0],
    tol_gp_var_mcmc=[0.0, 10.0],
    gp_tol_opt_mcmc=[1e-5, 1.0],
    tol_fun_stochastic=[1e-8, 1.0],
    fitness_shaping=[True],
    noise_shaping=[True],
    diagnostics=[True],
    gp_int_mean_fun=[1],
    active_importance_sampling_mcmc_thin=[3],
    active_importance_sampling_fess_thresh=[0.0, 1.0],
    true_mean=["m"],
    ns_ent_active=[4, 0, {"lin": [2, 1]}],
    ns_ent_fast_active=[4, {"lin": [2, 1]}],
    ns_ent_fine_active=[8, 10, {"lin": [4, 1]}],
    ns_ent=[4, {"lin": [2, 1]}],
    ns_ent_fine=[8, {"lin": [4, 1]}],
    ns_ent_boost=[[], 4, {"lin": [2, 1]}],
    ns_ent_fast_boost=[[], 4, {"lin": [2, 1]}],
    ns_ent_fine_boost=[[], 8, {"lin": [4, 1]}],
    pruning_threshold_multiplier=[0, 1, 3.0, {"lin": [1, 0]}],
    gp_tol_opt_active=[1e-2, 1e-6],
    gp_tol_opt_mcmc_active=[1.0, 1e-4],
    box_search_frac=[0.0, 0.1],
    gp_hyp_sampler=["slicesample"],
    out_warp_thresh_base=[1.0, 100.0],
    plot=[True],
)


def gen(rng, tier, i):
    kind = rng.random()
    if kind < 0.1:
        return gen_stable_warps(rng)
    p = W.gen_problem(rng, integer=rng.random() < 0.15, nx0=rng.choice([1, 1, 1, 2, 5, 12]))
    o = p["opts"]
    for k in rng.sample(sorted(EXOTIC), rng.choice([0, 1, 2, 4, 8])):
        v = EXOTIC[k]
        v = v["v"] if isinstance(v, dict) else v
        o[k] = rng.choice(v)
    if "true_mean" in o:
        o["true_mean"] = [0.0] * p["D"]
        o["true_cov"] = [[float(a == b) for a in range(p["D"])] for b in range(p["D"])]
    if rng.random() < 0.01:
        o["acq_hedge"] = True
    per = o["fun_evals_per_iter"]
    r = rng.random()
    if r < 0.5:
        o["max_fun_evals"] = rng.choice([1, o["fun_eval_start"], o["fun_eval_start"] + 1, o["fun_eval_start"] + 2 * per, o["fun_eval_start"] + 3 * per + 1])
    if rng.random() < 0.4:
        o["max_iter"] = rng.choice([1, 2, 3, 7])
    if rng.random() < 0.3:
        o["min_iter"] = rng.choice([1, 3, 5, 7])
    if rng.random() < 0.3:
        o["min_fun_evals"] = rng.choice([5, 15, 25])
    if rng.random() < 0.35:
        o["tol_stable_count"] = rng.choice([1, 5, 10, 20])
        o["tol_sd"] = 2.0
        o["tol_skl"] = 1.0
        o["tol_improvement"] = rng.choice([0.5, W.INF])
    if rng.random() < 0.3:
        o["fun_eval_start"] = rng.choice([max(4, p["D"] + 2), 5, 15])
    if rng.random() < 0.2:
        o["log_file_level"] = rng.choice(["iter", "off", "notify", "final", 10])
    if rng.random() < 0.25:
        p["f_vals"] = [None if rng.random() < 0.5 else float(W.base_value(p, np.array(x))) for x in p["x0"]]
        if p["prior"] in ("fun",):
            p["f_vals"] = None
        elif rng.random() < 0.6:
            # the budget binds while supplied values are part of the record
            o["max_fun_evals"] = o["fun_eval_start"] + rng.choice([1, 2]) * per
            o["max_iter"] = 7
            o["min_fun_evals"] = o["min_iter"] = 0
    return {"mode": "run", "p": p, "lat": sim.gen_lat(rng), "more": rng.choice([0, 0, 0, 2])}


def gen_stable_warps(rng):
    """Stability reached soon while reparameterisations are attempted all the time."""
    p = W.gen_problem(rng, D=rng.choice([2, 2, 3]), warp="often", max_iter=rng.choice([10, 12]))
    o = p["opts"]
    o["warmup"] = False
    o.pop("warp_undo_check", None)
    o.pop("warp_tol_sd_multiplier", None)
    o.pop("warp_tol_sd_base", None)
    o["warp_tol_improvement"] = rng.choice([W.INF, W.INF, W.INF, 3.0, 0.1])
    o["entropy_switch"] = False
    o["tol_stable_count"] = rng.choice([1, 3, 4, 6]) * int(o["fun_evals_per_iter"])
    o["tol_sd"] = 2.0
    o["tol_skl"] = 1.0
    o["tol_improvement"] = W.INF
    o["max_fun_evals"] = 300
    return {"mode": "run", "p": p, "lat": sim.gen_lat(rng), "more": 0}


def run(plan, rep):
    p = plan["p"]
    s = sim.Sim(p, rep, tk=dict(lat=plan["lat"]))
    # (start of the check) a configuration the constructor rejects is not run
    s.must_build()
    o = s.v.options
    s.target.max_calls = 1500
    if not s.optimize():
        import traceback

        tb = traceback.extract_tb(s.exc.__traceback__)
        at = [f"{f.name}:{f.lineno}" for f in tb if "pyvbmc" in f.filename or "gpyreg" in f.filename][-2:]
        rep.bad("crash", f"iteration {s.v.iteration}: {type(s.exc).__name__}: {str(s.exc)[:200]} in {[a.split(':')[0] for a in at]}{flat(s)}")
        return
    judge(s, rep, plan, 0)
    if plan["more"] and not rep.violations:
        n = s.n
        s.v.options.__setitem__("max_iter", n + plan["more"], force=True)
        s.v.options.__setitem__("max_fun_evals", s.v.function_logger.func_count + 60, force=True)
        if not s.optimize():
            rep.bad("crash", f"continued run, iteration {s.v.iteration}: {type(s.exc).__name__}: {str(s.exc)[:200]}{flat(s)}")
            return
        judge(s, rep, plan, n)
    s.done()


def flat(s):
    """Whether the training inputs left have no extent (a known finding)."""
    fl = s.v.function_logger
    X = fl.X[fl.X_flag]
    if np.any(s.v.optim_state["integer_vars"]) and len(X) > 1 and np.any(np.ptp(X, axis=0) < 1e-9):
        return " (all training inputs share one value of an integer variable)"
    return ""


def judge(s, rep, plan, first):
    p = plan["p"]
    v, h, res = s.v, s.h, s.results
    o = v.options
    n = s.n
    D = p["D"]
    calls = s.target.ok_calls()
    count = [sum(1 for c in calls if c.tag <= k) for k in range(n)]
    # more iterations than allowed only while a minimum is not reached
    per = int(o["fun_evals_per_iter"])
    rep.check(n >= 1 and [int(x) for x in h["iter"][:n]] == list(range(n)), "iteration-numbers", lambda: f"{list(h['iter'])}")
    # ---- evaluations per iteration
    supplied = int(v.function_logger.cache_count)
    for k in range(first, n):
        new = count[k] - (count[k - 1] if k else 0)
        rep.count("iterations_checked")
        if k == 0:
            rep.check(new + supplied == int(o["fun_eval_start"]), "initial-design-size", lambda: f"{new} calls and {supplied} supplied values for {o['fun_eval_start']}")
        else:
            prev = h["optim_state"][k - 1]
            # no sampling right after a kept reparameterisation
            skip = bool(prev.get("skip_active_sampling")) or differs(h["vp"][k], h["vp"][k - 1]) or h["optim_state"][k].get("last_successful_warping") == k
            want = 0 if skip else per
            if skip:
                rep.count("skipped_batches")
            rep.check(new == want, "batch-size", lambda: f"iteration {k}: {new} evaluations, expected {want}")
        rep.check(int(h["func_count"][k]) == count[k], "func-count", lambda: f"iteration {k}: func_count {h['func_count'][k]}, calls {count[k]}")
    # ---- termination decision of each iteration
    for k in range(first, n):
        held = count[k] < float(o["min_fun_evals"]) or k < float(o["min_iter"])
        out_f = count[k] >= float(o["max_fun_evals"])
        out_i = k + 1 >= float(o["max_iter"])
        if k < n - 1:
            rep.check(held or not (out_f or out_i), "budget-ignored", lambda: f"iteration {k} of {n}: {count[k]} evaluations of {o['max_fun_evals']} (min {o['min_fun_evals']}), {k + 1} iterations of {o['max_iter']} (min {o['min_iter']})")
        else:
            rep.check(not held, "stopped-too-early", lambda: f"iteration {k}: {count[k]} evaluations, minimum {o['min_fun_evals']}; minimum iterations {o['min_iter']}")
    # ---- stability
    stable = [bool(x) for x in h["stable"][:n]]
    for k in range(first, n):
        e, m = stable_flag(h, k, o, v, count)
        if e is None:
            continue
        rep.check(stable[k] == e, "stability-label", lambda: f"iteration {k}: stable={stable[k]}, by the documented rule {e} ({m})")
        if e and k < n - 1:
            rep.count("stable_but_continued")
            tsi = m
            last = h["optim_state"][k].get("last_successful_warping", 0)
            held = count[k] < float(o["min_fun_evals"]) or k < float(o["min_iter"])
            rep.check(held or k - last < tsi / 3, "stable-not-terminated", lambda: f"iteration {k} of {n} is stable, last kept warp {last}")
    # ---- message
    k = n - 1
    msg = res["message"]
    out_f = count[k] >= float(o["max_fun_evals"])
    out_i = k + 1 >= float(o["max_iter"])
    said = "max_fun_evals" in msg, "max_iter" in msg, "stable" in msg
    rep.check(sum(said) == 1, "message", lambda: f"message {msg!r}")
    if said[0]:
        rep.check(out_f, "message", lambda: f"{msg!r} with {count[k]} evaluations of {o['max_fun_evals']}")
    elif said[1]:
        rep.check(out_i, "message", lambda: f"{msg!r} with {k + 1} iterations of {o['max_iter']}")
    elif said[2]:
        rep.check(stable[k], "message", lambda: f"{msg!r}, last iteration not stable")
    # ---- result
    b = int(res["best_iter"])
    rep.check(int(res["iterations"]) == k, "result-iterations", lambda: f"{res['iterations']} for last iteration {k}")
    rep.check(int(res["func_count"]) == count[k], "result-func-count", lambda: f"{res['func_count']} for {count[k]} calls")
    rep.check(0 <= b < n, "result-best-iter", lambda: f"{b} of {n}")
    rep.check(bool(res["success_flag"]) == stable[b], "success-flag", lambda: f"success_flag {res['success_flag']}, iteration {b} stable={stable[b]}")
    rep.check(res["convergence_status"] == ("probable" if stable[b] else "no"), "convergence-status", lambda: f"{res['convergence_status']}, iteration {b} stable={stable[b]}")
    rep.check(int(res["components"]) == s.vp.K, "result-components", lambda: f"{res['components']} vs {s.vp.K}")


def differs(a, b):
    return bool(first_diff(W.tr_sig(a.parameter_transformer), W.tr_sig(b.parameter_transformer)))


def stable_flag(h, k, o, v, count):
    """The stability rule, from the recorded indices of the run."""
    r = np.array([float(x) for x in h["r_index"][: k + 1]])
    imp = float(h["elcbo_impro"][k])
    ent = bool(h["optim_state"][k - 1].get("entropy_switch")) if k else bool(o["entropy_switch"]) and v.D >= o["det_entropy_min_d"]
    if ent and (count[k - 1] if k else 0) >= float(o["entropy_force_switch"]) * float(o["max_fun_evals"]):
        ent = False  # forced off towards the end
    tsi = int(o["tol_stable_entropy_iters"]) if ent else int(math.ceil(o["tol_stable_count"] / o["fun_evals_per_iter"]))
    if ent:
        return False, tsi  # stability only turns the switch off
    if not (k + 1 >= tsi and r[k] < 1 and imp < o["tol_improvement"]):
        return False, tsi
    good = int(np.sum(r[k - tsi + 1 : k] < 1))
    return good >= tsi - math.floor(tsi * o["tol_stable_excpt_frac"]) - 1, tsi
