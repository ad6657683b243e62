"""C10 the surrogate works on exactly the recorded, current-space data."""
import numpy as np

from simvbmc import sim
from simvbmc import world as W
from simvbmc.canon import first_diff

RULE = (
    "run plans: frequent kept/undone reparameterisations, trims, repeated observations, failing targets with retries, continuations and reloads; every iteration's record, surrogate, "
    "posterior and search state cross-checked, and the surrogate handed to every acquisition compared with the record. Distinct by event trace"
)
TIERS = {"quick": {"n": 150}, "thorough": {"n": 6500, "cap": 2700}}


def gen(rng, tier, i):
    p = W.gen_problem(rng, max_iter=rng.choice([5, 6, 8, 10]), integer=rng.random() < 0.12, D=rng.choice([1, 2, 2, 2, 3, 3]), warp=rng.choice(["often", "often", "often", "default"]))
    o = p["opts"]
    if rng.random() < 0.5:
        # keep the attempts
        o["warp_tol_improvement"] = -W.INF
        o["warp_tol_sd_multiplier"] = W.INF
        o["warp_tol_sd_base"] = W.INF
    if rng.random() < 0.5:
        o["warmup_no_impro_threshold"] = 3
    if rng.random() < 0.3:
        o["search_cache_frac"] = 0.2
        o["hpd_search_frac"] = 0
    return {
        "mode": "run",
        "p": p,
        "faults": sim.gen_faults(rng, 0, 45, noise=p["noise"]) if rng.random() < 0.35 else {},
        "segs": sim.gen_story(rng),
    }


def close(a, b, rel=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * (1 + np.abs(b))))


def same_rows(gp, fl, mask):
    """What differs between the surrogate's data and these rows."""
    if gp.X.shape[0] != int(np.sum(mask)):
        return f"surrogate has {gp.X.shape[0]} points, the record {int(np.sum(mask))}"
    X, y = fl.X[mask], fl.y[mask]
    # match rows whatever the order
    a = np.lexsort(np.column_stack([gp.X, np.ravel(gp.y)]).T)
    b = np.lexsort(np.column_stack([X, np.ravel(y)]).T)
    if not close(gp.X[a], X[b], 1e-12):
        return "surrogate's points differ from the active ones"
    if not close(np.ravel(gp.y)[a], np.ravel(y)[b], 1e-12):
        return "surrogate's values differ from the active ones"
    if fl.noise_flag:
        if gp.s2 is None:
            return "surrogate has no noise variances"
        if not close(np.ravel(gp.s2)[a], np.ravel(fl.S[mask] ** 2)[b], 1e-10):
            return "surrogate's noise variances differ from the recorded ones"
    elif gp.s2 is not None and np.size(gp.s2) and np.any(np.asarray(gp.s2) != 0):
        return "surrogate has noise variances for exact observations"
    return None


def coords(fl, rep, where):
    """Active rows are the image of their original points."""
    n = fl.Xn + 1
    m = np.asarray(fl.X_flag, bool).copy()
    if not rep.check(not m[n:].any(), "inactive-rows", f"{where}: rows beyond the record are active"):
        return
    t = fl.parameter_transformer
    Xo, X = fl.X_orig[m], fl.X[m]
    rep.check(np.isfinite(X).all() and np.isfinite(fl.y[m]).all(), "not-finite", lambda: f"{where}: active point or value not finite")
    back = t.inverse(X)
    fwd = t(Xo)
    # precision is lost near the bounds in one of the two directions only
    ok = np.abs(fwd - X) <= 1e-7 * (1 + np.abs(X))
    ok |= np.abs(back - Xo) <= 1e-9 * (np.abs(Xo) + (np.abs(t(back) - X) * 0 + 1e-9 * np.max(np.abs(Xo), axis=0, initial=0.0)))
    ok = ok.all(axis=1) if ok.ndim == 2 else ok
    if not rep.check(bool(np.all(ok)), "point-not-image", lambda: f"{where}: row {np.flatnonzero(m)[np.argmin(ok)]} X {X[np.argmin(ok)]}, image of X_orig {fwd[np.argmin(ok)]}"):
        return
    e = np.ravel(fl.y_orig[m]) + np.ravel(t.log_abs_det_jacobian(X))
    y = np.ravel(fl.y[m])
    d = np.abs(y - e) - 1e-7 * (1 + np.abs(e) + np.abs(np.ravel(fl.y_orig[m])))
    rep.check(bool(np.all(d <= 0)), "wrong-working-value", lambda: f"{where}: row {np.flatnonzero(m)[np.argmax(d)]} y {y[np.argmax(d)]}, recorded plus log-Jacobian {e[np.argmax(d)]}")


def affine(t_old, t_new, D):
    """t_new o t_old^-1 as an affine map, found numerically near the origin."""
    c = t_new(t_old.inverse(np.zeros((1, D))))
    A = np.zeros((D, D))
    h = 0.125
    for d in range(D):
        e = np.zeros((1, D))
        e[0, d] = h
        A[:, d] = np.ravel(t_new(t_old.inverse(e)) - t_new(t_old.inverse(-e))) / (2 * h)
    return np.ravel(c), A


def search_state(h, k, p, rep, v):
    D = p["D"]
    o, t = h["optim_state"][k], h["vp"][k].parameter_transformer
    lo, hi = np.ravel(o["lb_search"]), np.ravel(o["ub_search"])
    rep.check(bool(np.all(lo < hi)), "search-box", lambda: f"iteration {k}: search box {lo} {hi}")
    # plausible box: bounding quantiles of the original plausible box
    a, b = np.ravel(o["plb_orig"]), np.ravel(o["pub_orig"])
    g = (np.arange(9) + 0.5) / 9
    pts = np.stack(np.meshgrid(*[a[d] + (b[d] - a[d]) * g for d in range(D)], indexing="ij"), -1).reshape(-1, D)
    img = t(pts)
    w = np.ptp(img, axis=0)
    pl, pu = np.ravel(o["plb_tran"]), np.ravel(o["pub_tran"])
    ok = (pl <= img.min(0) + 0.35 * w) & (pu >= img.max(0) - 0.35 * w) & (pl >= img.min(0) - 0.75 * w) & (pu <= img.max(0) + 0.75 * w)
    rep.check(bool(np.all(ok)), "plausible-box", lambda: f"iteration {k}: plausible box {pl} {pu}, image of the original one spans {img.min(0)} {img.max(0)}")
    if k == 0:
        return
    t0 = h["vp"][k - 1].parameter_transformer
    o0 = h["optim_state"][k - 1]
    lo0, hi0 = np.ravel(o0["lb_search"]), np.ravel(o0["ub_search"])
    la = h["logging_action"][k] or []
    kept = "rotoscale" in la and "undo rotoscale" not in la
    if first_diff(W.tr_sig(t0), W.tr_sig(t)) is None and not kept:
        tol = 1e-9 * (1 + np.abs(lo0) + np.abs(hi0))
        rep.check(bool(np.all(lo <= lo0 + tol) and np.all(hi >= hi0 - tol)), "search-box", lambda: f"iteration {k}: search box shrank without a change of coordinates")
        return
    # coordinates changed: the box and the cache must have moved with them
    rep.count("warps_kept")
    c, A = affine(t0, t, D)
    m = (lo0 + hi0) / 2
    r = (hi0 - lo0) / 2
    mid, rad = c + A @ m, np.abs(A) @ r
    rep.check(bool(np.all(lo >= mid - 1.02 * rad - 1e-6) and np.all(hi <= mid + 1.02 * rad + 1e-6)), "search-box", lambda: f"iteration {k}: search box {lo} {hi} outside the image of the previous one {mid - rad} {mid + rad}")
    if np.all(np.abs(np.concatenate([lo0, hi0])) < 20):
        rep.check(bool(np.all(hi - lo >= 0.5 * rad)), "search-box", lambda: f"iteration {k}: search box {lo} {hi} much smaller than the image of the previous one {mid - rad} {mid + rad}")
    s0, s1 = o0.get("search_cache"), o.get("search_cache")
    if s0 is not None and len(s0):
        e = t(t0.inverse(np.asarray(s0)))
        rep.check(s1 is not None and len(s1) == len(s0) and close(s1, e, 1e-6), "search-cache", f"iteration {k}: cached search points did not follow the change of coordinates")


def iteration(h, k, p, rep, v, search=True):
    fl, vp, gp, o = h["function_logger"][k], h["vp"][k], h["gp"][k], h["optim_state"][k]
    d = first_diff(W.tr_sig(fl.parameter_transformer), W.tr_sig(vp.parameter_transformer))
    if not rep.check(d is None, "transformers-differ", f"iteration {k}: record and posterior: {d}"):
        return
    coords(fl, rep, f"iteration {k}")
    act = np.asarray(fl.X_flag, bool)
    la = h["logging_action"][k] or []
    if any("trim" in a or "end warm-up" in a for a in la):
        # the recorded surrogate is the one from before the trim
        rep.count("trims")
        pre = act.copy()
        n = fl.Xn + 1
        if k:
            f0 = h["function_logger"][k - 1]
            n0 = f0.Xn + 1
            pre[:n0] = np.asarray(f0.X_flag[:n0], bool)
        else:
            n0 = 0
        pre[n0:n] = True
        m = pre
        if not rep.check(bool(np.all(~act | pre)), "inactive-rows", f"iteration {k}: a removed point came back"):
            return
    else:
        m = act
    d = same_rows(gp, fl, m)
    rep.check(d is None, "surrogate-data", f"iteration {k}: {d}")
    if search:
        search_state(h, k, p, rep, v)


def run(plan, rep):
    p = plan["p"]
    s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"])))
    nspy = [0]

    def spy(Xs, gp, vp, fl, o):
        nspy[0] += 1
        if rep.violations:
            return
        where = f"acquisition {nspy[0]} (after {len(s.target.calls)} calls)"
        d = same_rows(gp, fl, np.asarray(fl.X_flag, bool))
        rep.check(d is None, "surrogate-data", f"{where}: {d}")
        d = first_diff(W.tr_sig(fl.parameter_transformer), W.tr_sig(vp.parameter_transformer))
        rep.check(d is None, "transformers-differ", f"{where}: {d}")

    s.extra = sim.spy_acqs(p, spy)
    s.must_build()

    def after(where):
        v, h = s.v, s.h
        for k in range(s.n):
            if not rep.violations:
                iteration(h, k, p, rep, v)
        if rep.violations:
            return
        fl = v.function_logger
        coords(fl, rep, where)
        d = same_rows(v.gp, fl, np.asarray(fl.X_flag, bool))
        rep.check(d is None, "surrogate-data", f"{where}: live surrogate: {d}")
        d = first_diff(W.tr_sig(fl.parameter_transformer), W.tr_sig(v.parameter_transformer))
        rep.check(d is None, "transformers-differ", f"{where}: {d}")

    sim.story(s, plan["segs"], after)
    rep.count("acquisitions", nspy[0])
    s.done()
