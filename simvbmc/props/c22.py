"""C22 an interruption anywhere leaves the run intact and continuable."""
import os
import random
import sys

import numpy as np

from simvbmc import boot, seams, sim
from simvbmc import world as W
from simvbmc.props import c10
from simvbmc.props.c02 import Before, consecutive
from simvbmc.props.c17 import mixture

RULE = (
    "run plans: every clock reading, draw from the global random stream, acquisition evaluation and surrogate computation is a point where the run may be interrupted (Ctrl-C, out of memory, numerical "
    "error); a dry run of the plan lists the distinct code places, the seed picks where to interrupt the real one, up to three times, with retries in memory or through a file; the state at the "
    "interruption, at the next target call and at the end is checked. Non-trivial: interrupted at least once; distinct by event trace"
)
TIERS = {"quick": {"n": 120}, "thorough": {"n": 6500, "cap": 2700}}
TIMEOUT = 150
SRC = os.sep + "pyvbmc" + os.sep
DRAWS = ["rand", "randn", "randint", "choice", "permutation", "normal", "uniform", "random_sample", "random", "standard_normal", "shuffle", "multivariate_normal"]
ERR = {
    "keyint": lambda: KeyboardInterrupt("sim: Ctrl-C"),
    "memory": lambda: MemoryError("sim: out of memory"),
    "numerical": lambda: FloatingPointError("sim: numerical error"),
}


def gen(rng, tier, i):
    warp = rng.choice([None, "often", "often", "often"])
    kw = {"warp": warp} if warp else {}
    p = W.gen_problem(rng, D=rng.choice([1, 2, 2, 3]) if warp is None else rng.choice([2, 2, 3]), max_iter=rng.choice([4, 5, 6, 8]), integer=rng.random() < 0.1, nx0=rng.choice([1, 1, 3]), **kw)
    o = p["opts"]
    o["max_fun_evals"] = 200
    if warp:
        o["warmup"] = rng.random() < 0.3
        if rng.random() < 0.5:
            o["warp_tol_improvement"] = -W.INF
            o["warp_tol_sd_multiplier"] = o["warp_tol_sd_base"] = W.INF
        elif rng.random() < 0.6:
            o["warp_tol_improvement"] = W.INF
    if rng.random() < 0.3:
        o["warmup_no_impro_threshold"] = 3
    return {
        "mode": "run",
        "p": p,
        "ints": [{"u": rng.random(), "v": rng.random(), "kind": rng.choice(["keyint", "keyint", "keyint", "memory", "numerical"]), "how": rng.choice(["memory", "memory", "memory", "save"]), "late": rng.random() < 0.5, "step": rng.random() < 0.6} for _ in range(rng.choice([1, 1, 1, 2, 3]))],
        "segs": sim.gen_story(rng, rng.choice([0, 0, 1])),
    }


class Points:
    """Counts the points of a run; may raise at one of them."""

    def __init__(self):
        self.reset(None)

    def reset(self, at, err=None, log=None):
        self.n = 0
        self.at = at
        self.err = err
        self.log = log
        self.raised = None
        self.on = True

    def hit(self, what):
        if not self.on:
            return
        if self.log is None and self.n != self.at:
            self.n += 1
            return
        f = sys._getframe(2)
        st = []
        inlog = False
        while f is not None:
            fn = f.f_code.co_filename
            if SRC in fn and "simvbmc" not in fn:
                st.append((f.f_code.co_name, f.f_lineno))
                inlog |= "function_logger" in fn
            elif "simvbmc" in fn and f.f_code.co_name == "__call__" and "world" in fn:
                inlog = True
            f = f.f_back
        # the target's own failures are another matter (C02)
        if not st or inlog or st[-1][0] != "optimize":
            return
        if self.log is not None:
            self.log.append((st[-1], tuple(st[-3:]), st[0]))
        if self.n == self.at:
            self.at = None
            self.raised = f"{what} in {'/'.join(a for a, _ in reversed(st))}"
            self.n += 1
            raise self.err()
        self.n += 1


PT = Points()


def install():
    seams.CLOCK.hook = lambda: PT.hit("clock")

    def wrap(owner, name, label):
        orig = getattr(owner, name)

        def f(*a, **k):
            PT.hit(label)
            return orig(*a, **k)

        f.__name__ = name
        setattr(owner, name, f)

    for n in DRAWS:
        wrap(np.random, n, "draw")
    import gpyreg

    for n in ("fit", "update", "predict", "log_likelihood", "set_hyperparameters", "get_hyperparameters"):
        if hasattr(gpyreg.GP, n):
            wrap(gpyreg.GP, n, "surrogate." + n)


def pick(log, it):
    """A place, uniformly over distinct ones, then one of its occurrences."""
    places = {}
    for i, s in enumerate(log):
        places.setdefault(s, []).append(i)
    keys = list(places)
    if it["step"]:
        # uniformly over the steps of the main loop first
        steps = list(dict.fromkeys(k[0] for k in keys))
        w = steps[int(it["u"] * len(steps))]
        keys = [k for k in keys if k[0] == w]
        occ = places[keys[int(it["u"] * len(steps) % 1.0 * len(keys))]]
        return occ[int(it["v"] * len(occ))]
    occ = places[keys[int(it["u"] * len(keys))]]
    if it["late"]:
        return occ[-1 - int(it["v"] * min(len(occ), 3))] if len(occ) else 0
    return occ[int(it["v"] * len(occ))]


def run(plan, rep):
    p = plan["p"]
    install()
    # the undisturbed run: where can it be interrupted?
    from simvbmc.runner import Report

    log = []
    PT.reset(None, log=log)
    dry = sim.Sim(p, Report())
    seams.CLOCK.hook = lambda: PT.hit("clock")
    dry.must_build().must()
    if not log:
        raise sim.Skip("no point to interrupt")
    base_n = dry.n
    tmp = sim.scratch()
    PT.reset(None)
    s = sim.Sim(p, rep)
    seams.CLOCK.hook = lambda: PT.hit("clock")
    s.must_build()
    todo = list(plan["ints"])
    s.reloaded = False
    s.cut = set()  # iterations with an interrupted attempt
    nint = 0
    before = None
    was = W.process_settings()
    opts = W.opt_sig(s.v)
    for attempt in range(len(todo) + 2):
        it = todo.pop(0) if todo else None
        if it is not None and attempt == 0:
            PT.reset(pick(log, it), ERR[it["kind"]])
        elif it is not None:
            PT.reset(int(it["u"] ** 3 * min(len(log), 600)), ERR[it["kind"]])
        else:
            PT.reset(None)
        ok = s.optimize()
        if PT.raised is not None:
            rep.fault("interruption_" + it["kind"])
            rep.count("at_" + PT.raised.split("/")[1] if "/" in PT.raised else "at_optimize")
        if ok:
            if PT.raised is not None:
                rep.count("swallowed")
            if not todo:
                break
            if before is None and PT.raised is None:
                break
            todo = []
            break
        if PT.raised is None:
            if attempt == 0:
                raise sim.Skip(f"run failed: {type(s.exc).__name__}: {str(s.exc)[:80]}")
            rep.bad("not-resumable", f"after the interruption at {where}: {type(s.exc).__name__}: {str(s.exc)[:200]}")
            return
        where = f"{PT.raised} ({it['kind']}, iteration {s.v.iteration}, {len(s.target.calls)} calls)"
        PT.on = False
        nint += 1
        if not rep.check(type(s.exc) is type(ERR[it["kind"]]()), "exception-replaced", lambda: f"{where}: {type(s.exc).__name__}: {str(s.exc)[:200]}"):
            return
        ch = W.settings_changed(was)
        if not rep.check(not ch, "process-settings-changed", lambda: f"{where}: {ch}"):
            return
        ch = W.options_changed(opts, s.v)
        if not rep.check(not ch, "options-changed", lambda: f"{where}: {ch}"):
            return
        before = Before(s)
        bad = lambda kind, detail: rep.bad(kind, detail)
        s.cut.add(before.n)
        if not s.reloaded:
            sim.ledger(s, len(s.target.calls), f"interrupted at {where}", bad)
        if rep.violations:
            return
        if it["how"] == "save":
            from pyvbmc import VBMC

            f = os.path.join(tmp, f"i{attempt}.pkl")
            try:
                s.v.save(f, overwrite=True)
                v = VBMC.load(f)
            except Exception as e:
                rep.bad("not-savable", f"interrupted at {where}: {type(e).__name__}: {str(e)[:200]}")
                return
            rep.count("reloads")
            if before.n == 0:
                # nothing complete: this object goes on
                pass
            else:
                s.v = v
                s.reloaded = True
                before.fl = None
        follow(s, rep, before, where)
        PT.on = True
    PT.on = False
    if nint == 0:
        rep.count("not_interrupted")
    where = "finished"
    if before is not None:
        before.check_history(s, rep, where)
    consecutive(s, rep, where)
    ch = W.options_changed(opts, s.v)
    rep.check(not ch, "options-changed", lambda: f"{where}: {ch}")
    o = s.v.options
    n = s.n
    fl = s.v.function_logger
    over = n >= o["max_iter"] or fl.func_count >= o["max_fun_evals"] or bool(np.ravel(s.h["stable"][n - 1])[0])
    rep.check(over, "ended-early", lambda: f"{n} iterations, {fl.func_count} evaluations, budgets {o['max_iter']} {o['max_fun_evals']}")
    rep.check(n <= max(o["max_iter"], o["min_iter"]) + nint, "too-long", lambda: f"{n} iterations, at most {o['max_iter']}; interrupted {nint} times")
    state(s, rep, where)
    if rep.violations:
        return
    if plan["segs"]:
        s.reloaded = True
        sim.story(s, plan["segs"], lambda w: state(s, rep, w))
    s.done()


def state(s, rep, where):
    v, h, p = s.v, s.h, s.p
    for k in range(s.n):
        if not rep.violations:
            c10.iteration(h, k, p, rep, v, search=k not in s.cut)
            mixture(h["vp"][k], rep, f"{where}, iteration {k}")
    if rep.violations:
        return
    fl = v.function_logger
    c10.coords(fl, rep, where)
    d = c10.same_rows(v.gp, fl, np.asarray(fl.X_flag, bool))
    rep.check(d is None, "surrogate-data", f"{where}: live surrogate: {d}")
    d = sim.first_diff(W.tr_sig(fl.parameter_transformer), W.tr_sig(v.parameter_transformer))
    rep.check(d is None, "transformers-differ", f"{where}: {d}")
    if not s.reloaded and "(load)" not in where:
        sim.ledger(s, len(s.target.calls), where, lambda kind, detail: rep.bad(kind, detail))


def follow(s, rep, b, where):
    for q in getattr(s, "pending", []):
        if q in s.target.on_call:
            s.target.on_call.remove(q)

    def at_call(t, c):
        s.target.on_call.remove(at_call)
        w = f"at the next call after the interruption at {where}"
        b.check_history(s, rep, w)
        fl = s.v.function_logger
        if b.fl is not None:
            b.check_rows(s, rep, w)
            rep.check(fl.func_count == b.fl[0], "evaluation-count", f"{w}: func_count {fl.func_count}, was {b.fl[0]}")
        # (no evaluations are due in an iteration interrupted after them, or after a kept reparameterisation)
        rep.check(b.n <= c.tag <= b.n + 2, "wrong-iteration", f"{w}: {b.n} iterations complete, now running number {c.tag}")
        if rep.violations:
            return
        c10.coords(fl, rep, w)
        d = sim.first_diff(W.tr_sig(fl.parameter_transformer), W.tr_sig(s.v.vp.parameter_transformer))
        rep.check(d is None, "transformers-differ", f"{w}: record and posterior: {d}")
        if s.v.gp is not None and b.n:
            d = c10.same_rows(s.v.gp, fl, np.asarray(fl.X_flag, bool))
            rep.check(d is None, "surrogate-data", f"{w}: {d}")

    s.target.on_call.append(at_call)
    s.pending = [at_call]
