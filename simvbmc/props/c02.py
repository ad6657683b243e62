"""C02 failing targets: what the caller gets, and how the run goes on."""
import os

import numpy as np

from simvbmc import loggersim, sim
from simvbmc import world as W
from simvbmc.canon import digest

RULE = (
    "unit plans: logger histories with failing calls; run plans: a random problem whose target fails at 1-3 chosen evaluations (exceptions, interrupts, "
    "invalid values and noise), followed by a retry of the same object, or by saving and loading (same process or a new one). "
    "Non-trivial: the failure occurred; distinct by event trace"
)
TIERS = {"quick": {"n": 230}, "thorough": {"n": 7000, "cap": 2700}}
BATCH = 10


def gen(rng, tier, i):
    if i % 5 == 4:
        return {"mode": "unit", "hist": [loggersim.gen(rng) for _ in range(BATCH)]}
    how = rng.choice(["memory", "memory", "memory", "save", "fork"])
    p = W.gen_problem(rng, integer=rng.random() < 0.15, max_iter=rng.choice([3, 4, 5, 7]), nx0=rng.choice([1, 1, 2, 5]))
    p["opts"]["max_fun_evals"] = rng.choice([200, 200, 25])
    if rng.random() < 0.25:
        p["f_vals"] = [None if rng.random() < 0.5 else float(W.base_value(p, np.array(x))) for x in p["x0"]]
    hi = rng.choice([3, 12, 25, 40])
    return {"mode": "run", "p": p, "how": how, "faults": sim.gen_faults(rng, 0, hi, noise=p["noise"]), "file": rng.random() < 0.2}


def check_exception(s, rep):
    """The exception against the failing call."""
    c = s.target.calls[-1]
    e = s.exc
    k = c.fault
    where = f"call {c.i} fault {k}"
    if k in W.FAULT_EXC:
        orig = W.FAULT_EXC[k]()
        if not rep.check(type(e) is type(orig), "exception-replaced", f"{where}: got {type(e).__name__}: {e}"):
            return
        rep.check(tuple(e.args[: len(orig.args)]) == tuple(orig.args), "exception-arguments-lost", f"{where}: args {e.args!r}")
        if isinstance(e, Exception):
            rep.check(loggersim.mentions(e.args[len(orig.args) :], c.x), "input-not-reported", lambda: f"{where}: args {e.args!r}, input {c.x}")
    else:
        lax = k in ("none", "tuple", "sdmissing", "sdnone", "sdcomplex") or (s.p["prior"] is not None and k in ("vector", "empty", "complex"))
        ok = isinstance(e, (ValueError, TypeError) if lax else ValueError)
        rep.check(ok, "wrong-error", f"{where}: got {type(e).__name__}: {e}")


class Before:
    """What was complete when the failure occurred."""

    def __init__(self, s):
        self.n = s.n
        h = s.v.iteration_history
        self.hist = [sim.hist_digest(h, k) for k in range(self.n)]
        fl = s.v.function_logger
        m = fl.Xn + 1
        self.fl = (fl.func_count, fl.cache_count, m)
        self.X = fl.X_orig[:m].copy()
        self.y = fl.y_orig[:m].copy()
        self.ne = np.array(fl.n_evals[:m]).copy()
        self.calls = len(s.target.calls)

    def check_history(self, s, rep, where):
        n = s.n
        if not rep.check(n >= self.n, "iterations-lost", f"{where}: {self.n} iterations before, {n} now"):
            return False
        for k in range(self.n):
            d = sim.hist_digest(s.v.iteration_history, k)
            bad = [q for q in d if d[q] != self.hist[k].get(q)]
            if not rep.check(not bad, "completed-iteration-changed", f"{where}: iteration {k}: {bad}"):
                return False
        return True

    def check_rows(self, s, rep, where, rows=None):
        fl = s.v.function_logger
        m = self.fl[2] if rows is None else rows
        if not rep.check(fl.Xn + 1 >= m and np.array_equal(fl.X_orig[:m], self.X[:m]), "evaluations-lost", f"{where}: recorded points changed"):
            return
        same = np.array(fl.n_evals[:m]) == self.ne[:m]
        rep.check(np.array_equal(fl.y_orig[:m][same], self.y[:m][same]), "evaluations-changed", f"{where}: recorded values changed")


def consecutive(s, rep, where):
    it = s.v.iteration_history["iter"]
    rep.check(list(np.ravel(it[: s.n]).astype(int)) == list(range(s.n)), "iterations-not-consecutive", lambda: f"{where}: {it}")


def run(plan, rep):
    if plan["mode"] == "unit":
        for h in plan["hist"]:
            loggersim.run(h, rep, {"error"})
            if rep.violations:
                return
        return
    p = plan["p"]
    tmp = sim.scratch()
    extra = {"log_file_name": os.path.join(tmp, "run.log")} if plan["file"] else {}
    s = sim.Sim(p, rep, extra=extra, tk=dict(faults=sim.int_keys(plan["faults"])))
    s.must_build()
    opts = W.opt_sig(s.v)
    done = False
    for attempt in range(6):
        if s.optimize():
            done = True
            break
        if not s.faulted():
            if attempt == 0 and not s.target.fired:
                raise sim.Skip(f"run failed: {type(s.exc).__name__}: {str(s.exc)[:80]}")
            e = s.exc
            # is it the failure, or would the run crash anyway? a twin whose target
            # never fails tells problems of the run from problems of the recovery
            if not twin_ok(plan):
                raise sim.Skip(f"run fails without target failures too: {type(e).__name__}: {str(e)[:80]}")
            rep.bad("not-resumable", f"attempt {attempt} after a failure at iteration {s.v.iteration}: {type(e).__name__}: {e}")
            return
        rep.count("failures")
        check_exception(s, rep)
        ch = W.options_changed(opts, s.v)
        rep.check(not ch, "options-changed", lambda: f"after the failure: {ch}")
        b = Before(s)
        if not getattr(s, "reloaded", False):
            rep.check(b.fl[0] == len([c for c in s.target.calls if c.ok]), "evaluation-count", lambda: f"func_count {b.fl[0]} after the failure, {len([c for c in s.target.calls if c.ok])} successful calls")
        ncall0 = len(s.target.calls)
        if plan["how"] == "memory":
            ok = follow(s, rep, b, "retry")
        else:
            f = os.path.join(tmp, f"s{attempt}.pkl")
            try:
                s.v.save(f, overwrite=True)
            except Exception as e:
                rep.bad("not-savable", f"saving after a failure: {type(e).__name__}: {e}")
                return
            if plan["how"] == "fork":
                if reload_in_child(plan, s, f, b, rep) is False:
                    return
            reload_here(s, f, b, rep)
            ok = True
        if rep.violations:
            return
    if not done:
        raise sim.Skip("too many failures")
    s.final = s.v
    where = "finished"
    consecutive(s, rep, where)
    finish_checks(s, rep, plan)
    s.done()


def twin_ok(plan):
    import copy

    from simvbmc.runner import Report

    q = copy.deepcopy(plan)
    s = sim.Sim(q["p"], Report())
    try:
        s.build()
    except sim.ERRORS:
        return False
    return s.optimize()


def follow(s, rep, b, where):
    """Check the state again when the target is called next."""

    def at_call(t, c):
        s.target.on_call.remove(at_call)
        b.check_history(s, rep, f"{where}, at the next call")
        b.check_rows(s, rep, f"{where}, at the next call")
        rep.check(s.v.function_logger.func_count == b.fl[0], "evaluation-count", f"{where}: func_count {s.v.function_logger.func_count}, was {b.fl[0]}")
        rep.check(c.tag == b.n, "wrong-iteration", f"{where}: {b.n} iterations complete, now running number {c.tag}")

    s.target.on_call.append(at_call)
    s.pending = b
    return True


def reload_here(s, f, b, rep):
    from pyvbmc import VBMC

    try:
        v = VBMC.load(f)
    except Exception as e:
        rep.bad("not-loadable", f"loading after a failure: {type(e).__name__}: {e}")
        return
    s.v = v
    s.reloaded = True
    if b.n == 0:
        # nothing completed: at worst, the initial design starts over
        return
    if not b.check_history(s, rep, "loaded"):
        return
    k = b.n - 1
    fl = v.function_logger
    rows = v.iteration_history["function_logger"][k].Xn + 1
    rep.check(fl.Xn + 1 >= rows, "evaluations-lost", f"loaded: {fl.Xn + 1} points, iteration {k} had {rows}")
    b.check_rows(s, rep, "loaded", rows)
    n = len(s.target.calls)

    def at_call(t, c):
        s.target.on_call.remove(at_call)
        rep.check(c.tag == b.n, "wrong-iteration", f"loaded: {b.n} iterations complete, now running number {c.tag}")
        b.check_history(s, rep, "loaded, at the next call")

    s.target.on_call.append(at_call)


def reload_in_child(plan, s, f, b, rep):
    """A new process loads the file and finishes the run."""
    import json

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = {"ok": False}
        try:
            from simvbmc.runner import Report

            crep = Report()
            W.fresh_logging()
            s.v = None
            s.target.faults = {}
            s.rep = crep
            from pyvbmc import VBMC

            s.v = VBMC.load(f, set_random_state=b.n > 0)
            ok = s.optimize()
            if not ok:
                crep.bad("not-resumable", f"new process: {type(s.exc).__name__}: {s.exc}")
            elif b.n:
                b.check_history(s, crep, "new process")
                consecutive(s, crep, "new process")
            out = {"ok": ok, "v": crep.violations}
        except BaseException as e:
            out = {"ok": False, "v": [{"kind": "not-loadable", "detail": f"new process: {type(e).__name__}: {e}"}]}
        os.write(w, json.dumps(out, default=str).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    rep.count("new_processes")
    out = json.loads(data.decode() or "{}")
    if out.get("v"):
        if out["v"][0]["kind"] == "not-resumable" and not twin_ok(plan):
            raise sim.Skip("run fails without target failures too")
        for v in out["v"]:
            rep.bad(v["kind"], v["detail"])
        return False
    return True


def finish_checks(s, rep, plan):
    h = s.v.iteration_history
    fc = [int(x) for x in np.ravel(h["func_count"][: s.n])]
    rep.check(all(a <= b for a, b in zip(fc, fc[1:])), "evaluation-count", lambda: f"func_count not increasing: {fc}")
    rep.check(s.results["func_count"] == s.v.function_logger.func_count, "evaluation-count", lambda: f"result says {s.results['func_count']}, record {s.v.function_logger.func_count}")
    if not getattr(s, "reloaded", False):
        ok = len([c for c in s.target.calls if c.ok])
        rep.check(s.v.function_logger.func_count == ok, "evaluation-count", lambda: f"func_count {s.v.function_logger.func_count}, successful calls {ok}")
    o = s.v.options
    n = s.n
    over = n >= o["max_iter"] or s.v.function_logger.func_count >= o["max_fun_evals"] or bool(np.ravel(h["stable"][n - 1])[0])
    rep.check(over, "ended-early", lambda: f"{n} iterations, {s.v.function_logger.func_count} evaluations, budgets {o['max_iter']} {o['max_fun_evals']}")
    d = digest(s.v.vp.get_parameters())
    rep.event(d)
