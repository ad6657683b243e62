"""C20 continuing a finished run extends it, never redoes or forgets."""
import hashlib
import os

import numpy as np

from simvbmc import sim
from simvbmc import world as W
from simvbmc.canon import digest, first_diff
from simvbmc.runner import Skip

RULE = (
    "plans: a finished run continued by sequences of in-memory continuations, reloads at seeded iterations, sibling copies and saves, with changed budgets, sampling, search and display options and failing "
    "targets: kept iterations and evaluations, numbering, counts, budgets, the state the first new iteration starts from, files and sibling copies. Distinct by event trace"
)
TIERS = {"quick": {"n": 150}, "thorough": {"n": 6500, "cap": 2700}}


def gen_new(rng, p):
    """Options changed for a continuation."""
    o = {}
    if rng.random() < 0.5:
        o["fun_evals_per_iter"] = rng.choice([1, 2, 3, 4, 7])
    if rng.random() < 0.25:
        o["search_optimizer"] = rng.choice(["none", "Nelder-Mead", "cmaes"])
    if rng.random() < 0.25:
        o["display"] = rng.choice(["off", "iter", "full"])
    if rng.random() < 0.2:
        o["warp_rotoscaling"] = False
    if rng.random() < 0.2:
        o["do_final_boost"] = rng.random() < 0.5
    if rng.random() < 0.3:
        o["acq"] = True
    if rng.random() < 0.2:
        o["log"] = True
    return o


def gen(rng, tier, i):
    p = W.gen_problem(rng, max_iter=rng.choice([1, 2, 3, 5, 6, 8]), integer=rng.random() < 0.1)
    segs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        segs.append(
            {
                "op": rng.choice(["more", "more", "load", "load", "loadmem"]),
                "by": rng.choice(["iter", "iter", "evals", "both"]),
                "iters": rng.choice([1, 1, 2, 3]),
                "evals": rng.choice([1, 3, 8, 12]),
                "back": rng.choice([0, 0, 1, 2, 4, None]),
                "sib": rng.random() < 0.35,
                "new": gen_new(rng, p),
                "rs": rng.random() < 0.3,
            }
        )
    return {
        "p": p,
        "faults": sim.gen_faults(rng, 0, 60, noise=p["noise"]) if rng.random() < 0.3 else {},
        "segs": segs,
    }


def fdig(f):
    with open(f, "rb") as g:
        return hashlib.sha256(g.read()).hexdigest()


def whole(v):
    """Digest of what a run object holds."""
    h = v.iteration_history
    out = {f"iteration {k}": hist_dig(h, k) for k in range(W.hist_len(h))}
    out["record"] = digest(W.fl_sig(v.function_logger))
    out["vp"] = digest(W.vp_sig(v.vp))
    out["gp"] = digest(W.gp_sig(v.gp))
    out["optim_state"] = {q: digest(x) for q, x in v.optim_state.items()}
    out["iteration"] = v.iteration
    out["options"] = {str(k): digest(x) for k, x in v.options.items() if k != "search_acq_fcn"}
    return out


def hist_dig(h, k):
    # the stability label is attached later
    return sim.hist_digest(h, k)


class Cont:
    def __init__(self, plan, rep):
        self.plan, self.rep, self.p = plan, rep, plan["p"]
        self.s = sim.Sim(self.p, rep, tk=dict(faults=sim.int_keys(plan["faults"])))
        self.nspy = 0
        self.seen = set()
        self.start = None  # iteration a continuation starts with
        self.s.extra = sim.spy_acqs(self.p, self.spy)
        self.s.target.on_call.append(self.call)

    # state the first new iteration starts from
    def look(self, where, vp, fl, gp, o):
        v, rep = self.s.v, self.rep
        if rep.violations or v is None or self.start is None or v.iteration != self.start or self.start < 1:
            return
        k, self.start = self.start, None
        h = v.iteration_history
        if W.hist_len(h) != k or any("rotoscale" in a for a in (v.logging_action or [])):
            return
        rep.count("starts_compared")
        where = f"iteration {k}, {where}"
        d = first_diff(W.fl_sig(h["function_logger"][k - 1]), W.fl_sig(fl))
        rep.check(d is None, "not-final-state", f"{where}: record differs from the last one: {d}")
        d = first_diff(W.vp_sig(h["vp"][k - 1]), W.vp_sig(vp))
        rep.check(d is None, "not-final-state", f"{where}: posterior differs from the last one: {d}")
        if gp is not None:
            d = first_diff(W.gp_sig(h["gp"][k - 1])["hyp"], W.gp_sig(gp)["hyp"])
            rep.check(d is None, "not-final-state", f"{where}: surrogate's hyperparameters differ from the last ones: {d}")
        o0 = h["optim_state"][k - 1]
        for q in ("warmup", "last_warmup", "stop_gp_sampling", "lb_search", "ub_search", "plb_tran", "pub_tran", "warping_count", "last_warping", "vp_K", "stop_sampling", "data_trim_list", "run_mean", "run_cov", "R", "trust_region"):
            if q in o0:
                d = first_diff(o0[q], o.get(q))
                rep.check(d is None, "not-final-state", f"{where}: search state {q} differs from the last one: {d}")

    def spy(self, Xs, gp, vp, fl, o):
        self.nspy += 1
        self.look("first acquisition", vp, fl, None if self.s.v.options["separate_search_gp"] else gp, o)

    def call(self, t, c):
        if self.s.v is not None:
            self.look("first target call", self.s.v.vp, self.s.v.function_logger, self.s.v.gp, self.s.v.optim_state)

    def first(self):
        s = self.s
        s.must_build()
        s.until_done()

    def segment(self, j, g):
        from pyvbmc import VBMC

        s, rep = self.s, self.rep
        v0 = s.v
        h0 = v0.iteration_history
        n0 = s.n
        prev = (s.vp, s.results)
        prev_sig = (digest(W.vp_sig(s.vp)), digest(s.results))
        if g["op"] == "more":
            it = n0 - 1
        else:
            it = n0 - 1 if g["back"] is None else max(0, n0 - 1 - g["back"])
        kept = [hist_dig(h0, k) for k in range(it + 1)]
        fc = int(h0["func_count"][it])
        rec = W.fl_sig(h0["function_logger"][it])
        # budgets
        new = {}
        evals = 10**6
        iters = it + 1 + g["iters"]
        if g["by"] in ("evals", "both"):
            evals = fc + g["evals"]
        if g["by"] == "evals":
            iters = it + 1 + 12
        new["max_iter"], new["max_fun_evals"] = iters, evals
        extra = dict(g["new"])
        if extra.pop("acq", False):
            from pyvbmc import acquisition_functions as AF

            a = sim.spy_acqs({"opts": {}, "noise": self.p["noise"]}, self.spy)
            new.update(a)
            extra["acq"] = True
        log = None
        if extra.pop("log", False):
            log = os.path.join(sim.scratch(), f"seg{j}.log")
            new["log_file_name"] = log
        acq = extra.pop("acq", False)
        new.update(extra)
        f = os.path.join(sim.scratch(), f"run{j}.pkl")
        before = whole(v0)
        sibs = []
        if g["op"] == "more":
            for k, x in new.items():
                v0.options.__setitem__(k, x, force=True)
        else:
            try:
                v0.save(f)
                fd = fdig(f)
                if g["sib"]:
                    sibs.append(VBMC.load(f))
                s.v = VBMC.load(f, iteration=None if g["back"] is None else it, new_options=new, set_random_state=g["rs"])
                if g["sib"]:
                    sibs.append(VBMC.load(f, iteration=it))
            except sim.ERRORS as e:
                rep.bad("load-failed", f"segment {j}: {type(e).__name__}: {str(e)[:120]}")
                return
            # forgets exactly the later iterations
            h = s.h
            rep.check(s.v.iteration == it and W.hist_len(h) == it + 1, "load-iteration", f"segment {j}: loaded at {it} of {n0}: iteration {s.v.iteration}, {W.hist_len(h)} recorded")
            for q in h:
                a = h[q]
                rep.check(a is None or len(a) <= it + 1, "load-keeps-later", f"segment {j}: {q} has {0 if a is None else len(a)} entries after loading at {it}")
            for k in range(it + 1):
                d = first_diff(kept[k], hist_dig(h, k))
                rep.check(d is None, "load-changes-history", f"segment {j}: loaded iteration {k} differs: {d}")
            d = first_diff(rec, W.fl_sig(s.v.function_logger))
            rep.check(d is None, "load-record", f"segment {j}: record after loading at {it}: {d}")
            for k, x in new.items():
                if k != "search_acq_fcn":
                    rep.check(s.v.options[k] == x, "option-ignored", f"segment {j}: option {k} is {s.v.options[k]!r} after loading with {x!r}")
            rep.count("reloads")
        if rep.violations:
            return
        sd = [whole(x) for x in sibs]
        # run
        self.start = it + 1
        spy0, calls0 = self.nspy, len(s.target.calls)
        s.until_done()
        self.start = None
        rep.count("continuations")
        h, n = s.h, s.n
        calls = [c for c in s.target.calls[calls0:] if c.ok]
        failed = {c.tag for c in s.target.calls[calls0:] if c.fault is not None}
        w = f"segment {j} ({g['op']} at {it}, max_iter {iters}, max_fun_evals {evals})"
        # numbering and history
        rep.check(list(h["iter"]) == list(range(n)), "numbering", lambda: f"{w}: iterations {list(h['iter'])}")
        if not rep.check(n > it + 1, "nothing-done", f"{w}: no new iteration"):
            return
        for k in range(it + 1):
            e, got = dict(kept[k]), hist_dig(h, k)
            d = first_diff(e, got)
            if not rep.check(d is None, "history-changed", f"{w}: iteration {k} changed: {d}"):
                return
        # evaluations
        fl = s.v.function_logger
        rep.check(fl.func_count == fc + len(calls), "count", f"{w}: {fc} evaluations before, {len(calls)} new, count {fl.func_count}")
        rep.check(s.results["func_count"] == fl.func_count and s.results["iterations"] == n - 1, "count", f"{w}: result {s.results['func_count']} evaluations, iteration {s.results['iterations']}; {fl.func_count}, {n - 1}")
        for k in range(it + 1, n):
            m = fc + sum(1 for c in calls if c.tag <= k)
            rep.check(int(h["func_count"][k]) == m, "count", f"{w}: iteration {k} recorded {h['func_count'][k]} evaluations, made {m}")
        m = rec["n"]
        same = np.ravel(fl.n_evals[:m]) == np.ravel(rec["n_evals"])
        d = first_diff({"X": rec["X_orig"], "y": rec["y_orig"][same]}, {"X": fl.X_orig[:m], "y": fl.y_orig[:m][same]})
        rep.check(d is None and bool(np.all(np.ravel(fl.n_evals[:m]) >= np.ravel(rec["n_evals"]))), "evaluations-changed", f"{w}: earlier evaluations changed: {d}")
        # budgets
        cnt = [int(x) for x in h["func_count"]]
        if len(failed) == 0:
            for k in range(it + 1, n - 1):
                if not rep.check(k + 1 < iters and cnt[k] < evals, "budget", f"{w}: went on after iteration {k} with {cnt[k]} evaluations"):
                    return
            stable = bool(h["stable"][n - 1]) and "stable" in str(s.results["message"])
            rep.check(n >= iters or cnt[-1] >= evals or stable, "budget", f"{w}: stopped after iteration {n - 1} with {cnt[-1]} evaluations")
        # options
        b = s.v.options["fun_evals_per_iter"]
        for k in range(it + 1, n):
            made = sum(1 for c in calls if c.tag == k)
            prevs = h["optim_state"][k - 1]
            tried = any("rotoscale" in a for a in (h["logging_action"][k] or []))
            if made == 0 and (prevs.get("skip_active_sampling") or tried):
                continue
            if k not in failed and not any(c.fault for c in s.target.calls[calls0:] if c.tag == k):
                rep.check(made == b, "option-ignored", f"{w}: iteration {k} made {made} evaluations, fun_evals_per_iter {b}")
        if g["new"].get("warp_rotoscaling") is False:
            rep.check(not any("rotoscale" in a for k in range(it + 1, n) for a in (h["logging_action"][k] or [])), "option-ignored", f"{w}: reparameterised with warp_rotoscaling off")
        if acq and any(c.tag > it for c in calls):
            rep.check(self.nspy > spy0, "option-ignored", f"{w}: new acquisition function never used")
        if log is not None:
            rep.check(os.path.exists(log) and os.path.getsize(log) > 0, "option-ignored", f"{w}: nothing in the log file")
        # earlier results, file and sibling copies
        rep.check(digest(W.vp_sig(prev[0])) == prev_sig[0] and digest(prev[1]) == prev_sig[1], "earlier-result-changed", f"{w}: posterior or results of the earlier call changed")
        if g["op"] != "more":
            rep.check(fdig(f) == fd, "file-changed", f"{w}: the saved file changed")
            d = first_diff(before, whole(v0))
            rep.check(d is None, "original-changed", f"{w}: the saved object changed: {d}")
            for x, e in zip(sibs, sd):
                d = first_diff(e, whole(x))
                rep.check(d is None, "copy-changed", f"{w}: another loaded copy changed: {d}")
                rep.count("copies")
            if g["op"] == "loadmem" and not rep.violations:
                # a later load still gives the file's state
                try:
                    z = VBMC.load(f)
                except sim.ERRORS as e:
                    rep.bad("load-failed", f"{w}: loading again: {type(e).__name__}: {str(e)[:120]}")
                    return
                rep.check(W.hist_len(z.iteration_history) == n0, "file-changed", f"{w}: loading again gives {W.hist_len(z.iteration_history)} iterations, saved {n0}")
        if log is not None:
            s.v.options.__setitem__("log_file_name", None, force=True)


def run(plan, rep):
    c = Cont(plan, rep)
    c.first()
    for j, g in enumerate(plan["segs"]):
        if rep.violations:
            break
        c.segment(j, g)
    c.s.done()
