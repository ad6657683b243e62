"""C23 looking at a run, at any moment, neither fails nor disturbs it."""
import copy
import os
import random
import threading

import numpy as np

from simvbmc import seams, sim
from simvbmc import world as W
from simvbmc.canon import digest, first_diff
from simvbmc.props import c03
from simvbmc.runner import Report

RULE = (
    "run plans: an undisturbed run and one that is looked at (printed, copied, saved and loaded, asked for its best posterior, its posteriors sampled, evaluated and plotted, its history read) "
    "from inside target calls and acquisition evaluations, after failures and between continuations, the random stream being put back; compared bit for bit; copies made on the way "
    "must equal the original, and a copy that is continued must do what the original does. Non-trivial: at least one look; distinct by event trace and looks"
)
TIERS = {"quick": {"n": 110}, "thorough": {"n": 5000, "cap": 2400}}
TIMEOUT = 150

LOOKS = ["text", "text", "parts", "copy", "copy", "save", "save", "load", "best", "best", "sample", "density", "moments", "kl", "history", "mode", "plot", "timer", "vpsave"]
# these have no business with random numbers
QUIET = {"text", "parts", "copy", "save", "load", "best", "density", "history", "timer", "vpsave"}
ERR = sim.ERRORS


def gen(rng, tier, i):
    p = W.gen_problem(rng, max_iter=rng.choice([2, 3, 4, 6]), integer=rng.random() < 0.1, nx0=rng.choice([1, 1, 3]))
    return {
        "mode": "run",
        "p": p,
        "rate": rng.choice([0.03, 0.1, 0.3]),
        "seed": rng.randrange(1 << 30),
        "where": rng.sample(["call", "call2", "acq", "segment", "failure"], rng.choice([2, 3, 5])),
        "looks": rng.sample(sorted(set(LOOKS)), rng.choice([2, 5, 12])),
        "faults": sim.gen_faults(rng, 0, 30, n=rng.choice([1, 2]), noise=p["noise"]) if rng.random() < 0.3 else {},
        "segs": sim.gen_story(rng, rng.choice([0, 1, 1, 2])),
        "clone": rng.random() < 0.4,
    }


def live(v):
    return {
        "n": W.hist_len(v.iteration_history),
        "history": [sim.hist_digest(v.iteration_history, k) for k in range(W.hist_len(v.iteration_history))],
        "posterior": W.vp_sig(v.vp),
        "record": W.fl_sig(v.function_logger),
        "surrogate": digest(W.gp_sig(v.gp)),
        "search_state": {k: digest(x) for k, x in v.optim_state.items()},
        "options": {k: digest(x) for k, x in v.options.items()},
        "x0": np.array(v.x0),
        "iteration": v.iteration,
        "hyp": digest(v.hyp_dict),
        "bounds": [np.array(b) for b in (v.lower_bounds, v.upper_bounds, v.plausible_lower_bounds, v.plausible_upper_bounds)],
    }


class Watcher:
    def __init__(self, s, plan, rep):
        self.s, self.plan, self.rep = s, plan, rep
        self.rng = random.Random(f"look-{plan['seed']}")
        self.n = 0
        self.busy = False

    def call(self, t, c):
        self.maybe("in a target call")

    def acq(self, *a):
        self.maybe("in the acquisition search", 0.3)

    def maybe(self, where, f=1.0):
        if self.busy or self.rep.violations or self.n > 25:
            return
        if self.rng.random() < self.plan["rate"] * f:
            self.look(where)

    def look(self, where):
        self.busy = True
        self.n += 1
        s = self.s
        st = np.random.get_state()
        k = self.rng.choice(self.plan["looks"])
        w = f"{k} {where}, iteration {s.v.iteration}, {len(s.target.calls)} calls"
        ncall = len(s.target.calls)
        settings = W.process_settings()
        exc = []

        def go():
            try:
                getattr(self, "look_" + k)(s.v, w)
            except ERR as e:
                # (a posterior without width cannot be plotted)
                if not (k == "plot" and "dynamic range" in str(e)):
                    exc.append(e)

        if self.rng.random() < 0.3:
            # somebody else looks while this thread waits
            w += ", in another thread"
            t = threading.Thread(target=go)
            t.start()
            t.join()
        else:
            go()
        for e in exc:
            self.rep.bad("look-failed", f"{w}: {type(e).__name__}: {str(e)[:200]}")
        d = W.settings_changed(settings)
        self.rep.check(not d, "settings-changed", lambda: f"{w}: {d}")
        if k in QUIET:
            self.rep.check(digest(np.random.get_state()) == digest(st), "random-numbers-consumed", w)
        self.rep.check(len(s.target.calls) == ncall, "target-called", w)
        np.random.set_state(st)
        self.rep.fault("look_" + k)
        self.rep.count(where.replace(" ", "_"))
        self.busy = False

    def some_vp(self, v):
        n = W.hist_len(v.iteration_history)
        if n and self.rng.random() < 0.5:
            return v.iteration_history["vp"][self.rng.randrange(n)]
        return v.vp

    # ------------------------------------------------------------- the looks
    def look_text(self, v, w):
        a = str(v), repr(v), v.__repr__(expand=True)
        for t in a:
            self.rep.check(isinstance(t, str) and t, "no-text", w)

    def look_parts(self, v, w):
        for o in (v.vp, v.gp, v.function_logger, v.options, v.iteration_history, v.parameter_transformer, v.vp.parameter_transformer, v.prior):
            str(o), repr(o)

    def look_copy(self, v, w):
        c = copy.deepcopy(v)
        d = first_diff(live(v), live(c))
        self.rep.check(d is None, "copy-differs", f"{w}: {d}")
        # nobody is interested in what happens to the copy
        for o in (c.vp.mu, c.function_logger.X, c.function_logger.y, c.optim_state["lb_search"], c.vp.parameter_transformer.mu):
            np.asarray(o)[...] = 8.8e8
        c.options.__setitem__("max_iter", 1, force=True)
        for k in c.iteration_history:
            if c.iteration_history[k] is not None and len(c.iteration_history[k]):
                c.iteration_history[k][0] = None

    def look_save(self, v, w):
        v.save(os.path.join(sim.scratch(), "look.pkl"), overwrite=True)

    def look_load(self, v, w):
        from pyvbmc import VBMC

        f = os.path.join(sim.scratch(), "look.pkl")
        v.save(f, overwrite=True)
        c = VBMC.load(f)
        n = W.hist_len(c.iteration_history)
        m = W.hist_len(v.iteration_history)
        # (an iteration that is being recorded may count as complete or not)
        if self.rep.check(m - 1 <= n <= m, "checkpoint-differs", f"{w}: {m} iterations, {n} in the file"):
            for k in range(n):
                a, b = sim.hist_digest(v.iteration_history, k), sim.hist_digest(c.iteration_history, k)
                d = [q for q in a if a[q] != b.get(q)]
                self.rep.check(not d, "checkpoint-differs", lambda: f"{w}: iteration {k}: {d}")

    def look_vpsave(self, v, w):
        from pyvbmc.variational_posterior import VariationalPosterior

        f = os.path.join(sim.scratch(), "vp.pkl")
        vp = self.some_vp(v)
        vp.save(f, overwrite=True)
        c = VariationalPosterior.load(f)
        d = first_diff(W.vp_sig(vp), W.vp_sig(c))
        self.rep.check(d is None, "posterior-file-differs", f"{w}: {d}")

    def look_best(self, v, w):
        if not W.hist_len(v.iteration_history):
            return
        vp, elbo, sd, idx = v.determine_best_vp()
        h = v.iteration_history
        self.rep.check(elbo == h["elbo"][idx] and sd == h["elbo_sd"][idx], "best-differs", lambda: f"{w}: {elbo, sd} of iteration {idx}")

    def look_sample(self, v, w):
        x, _ = self.some_vp(v).sample(self.rng.choice([1, 5, 200]), orig_flag=self.rng.random() < 0.7, balance_flag=self.rng.random() < 0.3)
        x[...] = np.nan

    def look_density(self, v, w):
        x = v.function_logger.X_orig[: max(v.function_logger.Xn + 1, 1)]
        if not len(x) or not np.all(np.isfinite(x)):
            x = v.x0
        y = self.some_vp(v).pdf(x, log_flag=self.rng.random() < 0.5)
        y[...] = np.nan

    def look_moments(self, v, w):
        self.some_vp(v).moments(N=500, orig_flag=self.rng.random() < 0.7, cov_flag=True)

    def look_kl(self, v, w):
        self.some_vp(v).kl_div(vp2=self.some_vp(v), N=300, gauss_flag=True)

    def look_mode(self, v, w):
        m = self.some_vp(v).mode(orig_flag=self.rng.random() < 0.6, n_opts=1)
        m[...] = np.nan

    def look_plot(self, v, w):
        import matplotlib.pyplot as plt

        self.some_vp(v).plot(n_samples=300)
        plt.close("all")

    def look_history(self, v, w):
        h = v.iteration_history
        for k in h:
            if h[k] is not None and len(h[k]):
                h[k][-1]
        len(h), list(h.items()), dict(h)

    def look_timer(self, v, w):
        h = v.iteration_history["timer"]
        for t in [] if h is None else h:
            str(t), repr(t), [t.get_duration(q) for q in ("finalize", "active_sampling")]


def play(plan, rep, watch, clone):
    """(outcomes, Watcher, clone's outcomes)"""
    p = plan["p"]
    hooked = None
    extra = None
    if "acq" in plan["where"]:
        hooked = []
        extra = sim.spy_acqs(p, lambda *a: [h(*a) for h in hooked])
    s = sim.Sim(p, rep, extra=extra, tk=dict(faults=sim.int_keys(plan["faults"])))
    s.must_build()
    w = Watcher(s, plan, rep)
    if watch:
        if "call" in plan["where"] or "call2" in plan["where"]:
            s.target.on_call.append(w.call)
        if hooked is not None:
            hooked.append(w.acq)
        if "segment" in plan["where"]:
            w.look("before the run")
    out = []
    clones = []
    skip = set()

    def mine():
        return [c for j, c in enumerate(s.target.calls) if j not in skip]

    def finish():
        for _ in range(8):
            if s.optimize():
                break
            if not s.faulted():
                raise s.exc
            if watch and "failure" in plan["where"]:
                w.look("after a failure")
        else:
            raise sim.Skip("too many failures")
        out.append(c03.outcome(s.v, s.vp, s.results, mine()))
        if watch and "segment" in plan["where"]:
            w.look("between two calls of optimize")

    finish()
    for j, g in enumerate(plan["segs"]):
        if rep.violations:
            break
        if g["op"] == "load":
            from pyvbmc import VBMC

            f = os.path.join(sim.scratch(), f"s{j}.pkl")
            it = max(0, s.n - 1 - g["back"])
            s.v.save(f, overwrite=True)
            s.v = VBMC.load(f, iteration=it, new_options={"max_iter": it + 1 + g["iters"], "max_fun_evals": 10000})
        else:
            s.v.options.__setitem__("max_iter", s.n + g["iters"], force=True)
            s.v.options.__setitem__("max_fun_evals", 10000, force=True)
        if clone and watch:
            # a copy takes the same way first
            w.busy = True
            st = np.random.get_state()
            faults, s.target.faults = s.target.faults, {}
            orig = s.v
            n0 = len(s.target.calls)
            rest = mine()
            s.v = copy.deepcopy(orig)
            ok = s.optimize()
            skip |= set(range(n0, len(s.target.calls)))
            if ok:
                clones.append((len(out), c03.outcome(s.v, s.vp, s.results, rest + s.target.calls[n0:])))
                rep.count("copies_continued")
            elif not faults:
                rep.bad("copy-fails", f"segment {j}: {type(s.exc).__name__}: {str(s.exc)[:200]}")
            s.v = orig
            s.target.faults = {k + len(s.target.calls) - n0: f for k, f in faults.items() if k >= n0}
            np.random.set_state(st)
            w.busy = False
            if rep.violations:
                break
        finish()
    return s, out, w, clones


def run(plan, rep):
    try:
        a, base, _, _ = play(plan, Report(), False, False)
    except ERR as e:
        if isinstance(e, sim.Skip):
            raise
        raise sim.Skip(f"run failed: {type(e).__name__}: {str(e)[:80]}")
    faulty = bool(plan["faults"])
    try:
        b, out, w, clones = play(plan, rep, True, plan["clone"] and not faulty)
    except ERR as e:
        if isinstance(e, sim.Skip):
            e = e.args
        if not rep.violations:
            rep.bad("run-fails-when-watched", f"{type(e).__name__}: {str(e)[:250]}")
        return
    if rep.violations:
        return
    for j, (x, y) in enumerate(zip(base, out)):
        where = f"after optimize call {j} ({w.n} looks: {plan['looks']} {plan['where']})"
        q = next((i for i, (u, v) in enumerate(zip(x["calls"], y["calls"])) if u != v), None)
        if not rep.check(x["calls"] == y["calls"], "evaluations-differ", lambda: f"{where}: evaluation {q if q is not None else 'count'}"):
            return
        d = c03.diff(x, y, -1)
        if d:
            rep.bad(d[0], f"{where}: {d[1]}")
            return
    for j, y in clones:
        x = base[j]
        if not rep.check(x["calls"] == y["calls"], "copy-evaluates-elsewhere", lambda: f"the copy continued before optimize call {j}"):
            return
        d = c03.diff(x, y, -1)
        if d:
            rep.bad("copy-" + d[0], f"the copy continued before optimize call {j}: {d[1]}")
            return
    rep.trace((plan["looks"], plan["where"], w.n))
    b.done()
