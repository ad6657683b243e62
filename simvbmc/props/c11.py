"""C11 ending warm-up or trimming never discards good data."""
import numpy as np

from simvbmc import sim
from simvbmc import world as W

RULE = (
    "unit plans: 60 histories of added points (ties, huge ranges, few points), repeated observations, trims and warm-up ends on a live object; run plans: whole runs with early, repeated and false-alarm "
    "trims, failing targets, continuations and reloads, each trim recomputed from the states around it. Distinct by event trace"
)
TIERS = {"quick": {"n": 190}, "thorough": {"n": 8000, "cap": 2700}}


def gen(rng, tier, i):
    if i % 4 == 1:
        p = W.gen_problem(rng, D=rng.choice([1, 2, 3, 5]), noise=rng.choice([0, 2]), prior=None, bounds="u")
        p["opts"].pop("warmup", None)
        return {"mode": "unit", "p": p, "seed": rng.randrange(1 << 30), "hist": [gen_ops(rng) for _ in range(60)]}
    p = W.gen_problem(rng, max_iter=rng.choice([5, 8, 10, 12]), integer=rng.random() < 0.1, target=rng.choice(["cliff", "gauss", "banana", "abs", "cauchy"]))
    o = p["opts"]
    o.pop("warmup", None)
    o["tol_stable_warmup"] = rng.choice([1, 5, 10])
    o["warmup_no_impro_threshold"] = rng.choice([1, 3, 10])
    o["stop_warmup_reliability"] = rng.choice([100, W.INF, 0.5, 0.0])
    o["warmup_keep_threshold"] = rng.choice([0.0, 0.5, 2.0, 10.0, 1e9])
    o["warmup_keep_threshold_false_alarm"] = rng.choice([None, 0.0, 3.0, 20.0])
    if rng.random() < 0.4:
        for d in range(p["D"]):
            p["s"][d] *= 0.2
    return {
        "mode": "run",
        "p": p,
        "faults": sim.gen_faults(rng, 0, 45, noise=p["noise"]) if rng.random() < 0.3 else {},
        "segs": sim.gen_story(rng),
    }


def gen_ops(rng):
    ops = []
    style = rng.choice(["range", "ties", "few", "huge"])
    for _ in range(rng.choice([1, 2, 3, 5])):
        n = rng.choice([1, 2, 3]) if style == "few" else rng.choice([1, 5, 12, 40])
        ops.append(["add", n, style, rng.randrange(1 << 20)])
        if rng.random() < 0.4:
            ops.append(["again", rng.choice([1, 3]), rng.randrange(1 << 20)])
        ops.append([rng.choice(["trim", "trim", "end"]), rng.choice([0.0, 0.5, 5.0, 50.0, 1e6]), rng.choice([None, 0.0, 1.0, 10.0, 100.0])])
    return {"ops": ops}


def trim(rep, where, D, fl, pre, post, y, thr, ended):
    """One trim: pre/post are masks of the active rows, y all recorded values."""
    n = len(y)
    best = np.max(y)
    top = best - y
    out = pre & ~post
    rep.count("trims")
    rep.count("trimmed_rows", int(out.sum()))
    rep.check(not np.any(out & (top < thr)), "good-point-removed", lambda: f"{where}: removed rows {np.flatnonzero(out & (top < thr))[:5]}, {top[out & (top < thr)][:5]} below the best, threshold {thr}")
    ib = np.flatnonzero(pre & (y == np.max(y[pre])))
    rep.check(bool(post[ib].any()), "best-point-removed", lambda: f"{where}: best active row {ib} removed")
    need = min(D + 1, n)
    rep.check(int(post.sum()) >= min(need, int(pre.sum())), "too-few-points", lambda: f"{where}: {int(post.sum())} points stay of {int(pre.sum())}, at least {need} must")
    # the minimum is met by the best ones
    if out.any() and int(post.sum()) <= need:
        rep.check(np.max(y[out]) <= np.min(y[post]), "worse-point-kept", lambda: f"{where}: removed {np.max(y[out])}, kept {np.min(y[post])}")
    back = post & ~pre
    rep.check(not back.any() or int(post.sum()) <= need, "removed-point-back", lambda: f"{where}: rows {np.flatnonzero(back)} came back")
    # points beyond the threshold do leave, unless needed for the minimum
    bad = post & (top >= thr) & (top > 0)
    rep.check(not bad.any() or int(post.sum()) <= need, "bad-point-kept", lambda: f"{where}: rows {np.flatnonzero(bad)[:5]} kept, {top[bad][:5]} below the best, threshold {thr}")


def thresholds(o, ntrim, ended):
    keep = float(o["warmup_keep_threshold"])
    fa = o["warmup_keep_threshold_false_alarm"]
    base = keep if ended or fa is None else float(fa)
    return base * (ntrim + 1)


def run_unit(plan, rep):
    p = plan["p"]
    D = p["D"]
    for hi, hist in enumerate(plan["hist"]):
        s = sim.Sim(p, rep, fresh=hi == 0)
        s.must_build()
        v = s.v
        fl = v.function_logger
        it = 0
        ended = False
        for oi, op in enumerate(hist["ops"]):
            where = f"history {hi} op {oi} {op[0]}"
            if op[0] == "add":
                r = np.random.RandomState(op[3])
                for j in range(op[1]):
                    x = r.randn(D) * 3
                    if op[2] == "ties":
                        y = float(r.randint(-3, 2))
                    elif op[2] == "huge":
                        y = float(-(10.0 ** r.uniform(-3, 12)))
                    else:
                        y = float(r.randn() * 20 - 5)
                    if p["noise"] == 2:
                        fl.add(x, y, float(np.exp(r.randn())))
                    else:
                        fl.add(x, y)
            elif op[0] == "again":
                r = np.random.RandomState(op[2])
                n = fl.Xn + 1
                act = np.flatnonzero(fl.X_flag[:n])
                if not len(act):
                    continue
                for j in range(op[1]):
                    i = int(r.choice(act))
                    y = float(fl.y_orig[i, 0] + r.randn() * 30)
                    if p["noise"] == 2:
                        fl.add(fl.X[i].copy(), y, float(np.exp(r.randn())))
                    else:
                        fl.add(fl.X[i].copy(), y)
            else:
                if ended:
                    continue
                n = fl.Xn + 1
                o = v.options
                o.__setitem__("warmup_keep_threshold", op[1], force=True)
                o.__setitem__("warmup_keep_threshold_false_alarm", op[2], force=True)
                v.optim_state["iter"] = it
                v.optim_state["N"] = n
                v.iteration_history.record("r_index", 0.0 if op[0] == "end" else 1e9, it)
                o.__setitem__("stop_warmup_reliability", 1.0, force=True)
                v.logging_action = []
                pre = np.asarray(fl.X_flag[:n], bool).copy()
                raw = [fl.X_orig[:n].copy(), fl.y_orig[:n].copy(), fl.X[:n].copy(), fl.y[:n].copy(), np.array(fl.n_evals[:n])]
                nt = len(v.optim_state["data_trim_list"])
                try:
                    v._setup_vbmc_after_warmup()
                except Exception as e:
                    rep.bad("trim-failed", f"{where}: {type(e).__name__}: {e}")
                    return
                fl = v.function_logger
                ended = not v.optim_state["warmup"]
                rep.check(ended == (op[0] == "end" or nt >= 1), "warmup-end", lambda: f"{where}: warm-up {'ended' if ended else 'goes on'} after {nt} trims")
                post = np.asarray(fl.X_flag[:n], bool)
                rep.check(not np.any(fl.X_flag[n:]), "empty-row-active", where)
                for a, b, q in zip(raw, [fl.X_orig[:n], fl.y_orig[:n], fl.X[:n], fl.y[:n], np.array(fl.n_evals[:n])], ["X_orig", "y_orig", "X", "y", "n_evals"]):
                    rep.check(a.shape == b.shape and np.array_equal(a, b), "record-altered", f"{where}: {q}")
                trim(rep, where, D, fl, pre, post, np.ravel(fl.y_orig[:n]), thresholds(o, nt, ended), ended)
                it += 1
            if rep.violations:
                return
    rep.trace(f"unit {plan['seed']}")


def run(plan, rep):
    if plan["mode"] == "unit":
        return run_unit(plan, rep)
    p = plan["p"]
    s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"])))
    s.must_build()
    warm0 = bool(s.v.optim_state["warmup"])

    def after(where):
        v, h, n = s.v, s.h, s.n
        warm = warm0
        ntrim = 0
        for k in range(n):
            w = f"{where}: iteration {k}"
            fl = h["function_logger"][k]
            m = fl.Xn + 1
            la = h["logging_action"][k] or []
            ended, trimmed = "end warm-up" in la, "trim data" in la
            now = bool(h["warmup"][k])
            rep.check(now == (warm and not ended), "warm-up-restarted" if now else "warm-up-lost", lambda: f"{w}: warm-up {now}, before {warm}, actions {la}")
            rep.check(bool(h["optim_state"][k]["warmup"]) == now, "warm-up-restarted", lambda: f"{w}: state says {h['optim_state'][k]['warmup']}, history {now}")
            n0 = 0
            pre = np.ones(m, bool)
            if k:
                f0 = h["function_logger"][k - 1]
                n0 = f0.Xn + 1
                rep.check(m >= n0, "record-altered", f"{w}: {m} rows after {n0}")
                pre[:n0] = np.asarray(f0.X_flag[:n0], bool)
            post = np.asarray(fl.X_flag[:m], bool)
            rep.check(not np.any(fl.X_flag[m:]), "empty-row-active", w)
            if ended or trimmed:
                rep.check(warm, "warm-up-restarted", f"{w}: {la} after the end of warm-up")
                trim(rep, w, p["D"], fl, pre, post, np.ravel(fl.y_orig[:m]), thresholds(v.options, ntrim, ended), ended)
                ntrim += trimmed
            else:
                rep.check(np.array_equal(pre, post), "training-set-changed", lambda: f"{w}: rows {np.flatnonzero(pre != post)[:5]} changed without a trim")
            warm = now
            if rep.violations:
                return
        if not rep.violations:
            sim.ledger(s, len(s.target.calls), where, rep.bad) if not any(g["op"] == "load" for g in plan["segs"]) else None

    sim.story(s, plan["segs"], after)
    s.done()
