"""Whole-system runs around a simulated target."""
import os

import numpy as np

from simvbmc import seams
from simvbmc import world as W
from simvbmc.canon import digest, first_diff, short
from simvbmc.loggersim import fused
from simvbmc.runner import Skip

ERRORS = (Exception, KeyboardInterrupt, SystemExit)


def scratch():
    d = os.environ.get("SIMVBMC_TMP")
    os.makedirs(d, exist_ok=True)
    return d


class Sim:
    """One inference object, its target and what was seen of it."""

    def __init__(self, p, rep, name="t", fresh=True, clock=None, ambient=0, npseed=None, extra=None, tk=None):
        self.p = p
        self.rep = rep
        if fresh:
            W.start_run(p["npseed"] if npseed is None else npseed, ambient, clock)
        self.target = W.SimTarget(name, p, **(tk or {}))
        self.v = None
        self.vp = self.results = None
        self.exc = None
        self.extra = extra
        self.target.on_call.insert(0, self._tag)
        self.raw = {}
        self.optfile = None
        self._n0 = 0

    def _tag(self, t, c):
        c.tag = self.v.iteration if self.v is not None else -1

    def build(self, arrays=None):
        self.v = W.build(self.p, self.target, self.extra, arrays=arrays, raw=self.raw, optfile=self.optfile)
        return self

    def must_build(self, arrays=None):
        try:
            return self.build(arrays)
        except ERRORS as e:
            raise Skip(f"construction failed: {type(e).__name__}: {str(e)[:80]}")

    def optimize(self):
        """One call of optimize(); True if it returned."""
        self.exc = None
        self._n0 = len(self.target.calls)
        try:
            self.vp, self.results = self.v.optimize()
        except ERRORS as e:
            self.exc = e
        return self.exc is None

    def must(self):
        if not self.optimize():
            e = self.exc
            raise Skip(f"run failed: {type(e).__name__}: {str(e)[:80]}")
        return self

    def until_done(self, tries=8):
        """Retry in memory after every target failure, like a user would."""
        for _ in range(tries):
            if self.optimize():
                return True
            if not self.faulted():
                e = self.exc
                raise Skip(f"run failed: {type(e).__name__}: {str(e)[:80]}")
        raise Skip("too many failures")

    def faulted(self):
        """Was the last exception caused by the injected fault?"""
        return len(self.target.calls) > self._n0 and self.target.calls[-1].fault is not None

    @property
    def h(self):
        return self.v.iteration_history

    @property
    def n(self):
        return W.hist_len(self.h)

    def done(self):
        """Book-keeping at the end of a plan."""
        self.rep.sim += seams.CLOCK.advanced
        for k, n in self.target.fired.items():
            self.rep.fault(k, n)
        if self.v is not None:
            t = W.phases(self.v)
            self.rep.trace(t)
            self.rep.count("iterations", self.n)
            self.rep.count("target_calls", len(self.target.calls))
            if self.rep.sample is None:
                self.rep.sample = {"D": self.p["D"], "kinds": self.p["kinds"], "target": self.p["target"], "trace": t[:300]}
        self.rep.event(digest([c.x for c in self.target.calls]))


def gen_faults(rng, lo=0, hi=40, n=None, kinds=None, noise=0):
    kinds = kinds or (list(W.FAULT_EXC) + [k for k in W.FAULT_VAL if k != "string"] + (list(W.FAULT_SD) if noise == 2 else []))
    n = n if n is not None else rng.choice([1, 1, 2, 3])
    out = {}
    for _ in range(n):
        out[str(rng.randrange(lo, hi))] = rng.choice(kinds)
    return out


def int_keys(d):
    return {int(k): v for k, v in (d or {}).items()}


def gen_lat(rng):
    if rng.random() < 0.4:
        return None
    return dict(kind=rng.choice(["const", "rand", "stall", "zero"]), base=rng.choice([2.0**-10, 0.25, 16.0]), seed=rng.randrange(1 << 20))


def prior_fn(p):
    _, f = W.make_prior(p)
    return f


def expected_value(s, c):
    """What should be recorded for a successful call: value plus log prior."""
    if s.p["prior"] is None:
        return c.value
    return c.value + prior_fn(s.p)(c.x)


def given_values(p):
    """(x, y) of starting points supplied with a value."""
    fv = p.get("f_vals")
    if fv is None:
        return []
    return [(np.array(x, dtype=float), float(v)) for x, v in zip(p["x0"], fv) if v is not None]


def ledger(s, upto, where, bad):
    """The record against the target's own call log.

    upto: number of calls made so far that count (the current one excluded).
    """
    v = s.v
    fl = v.function_logger
    n = fl.Xn + 1
    calls = [c for c in s.target.calls[:upto] if c.ok]
    s.rep.count("checks")
    if fl.func_count != len(calls):
        bad("evaluation-count", f"{where}: func_count {fl.func_count}, successful target calls {len(calls)}")
        return
    rows = {}
    for j in range(n):
        rows.setdefault(np.ascontiguousarray(fl.X_orig[j]).tobytes(), []).append(j)
    groups = {}
    for c in calls:
        k = c.x.tobytes()
        if k not in rows and n:
            # a point repeated in working coordinates may differ in its last bits
            d = np.max(np.abs(fl.X_orig[:n] - c.x.ravel()) / (np.abs(c.x.ravel()) + np.ptp(fl.X_orig[:n], axis=0) + 1e-300), axis=1)
            j = int(np.argmin(d))
            if d[j] <= 1e-12:
                k = np.ascontiguousarray(fl.X_orig[j]).tobytes()
        groups.setdefault(k, []).append(c)
    nadd = int(fl.cache_count)
    if int(np.sum(fl.n_evals[:n])) != len(calls) + nadd:
        bad("observations-lost", f"{where}: n_evals sums to {int(np.sum(fl.n_evals[:n]))} for {len(calls)} calls and {nadd} supplied values")
        return
    extra = [j for k, js in rows.items() if k not in groups for j in js]
    if len(extra) > nadd:
        j = extra[0]
        bad("unreceived-point", f"{where}: row {j} at {fl.X_orig[j]} is no point the target received")
        return
    given = given_values(s.p)
    for k, cs in groups.items():
        js = rows.get(k)
        if js is None:
            bad("point-missing", f"{where}: call {cs[0].i} at {cs[0].x} is not in the record")
            return
        obs = [(expected_value(s, c), c.sd if c.sd is not None else 1.0) for c in cs]
        ne = int(np.sum(fl.n_evals[js]))
        if nadd and ne != len(cs):
            continue  # fused with a supplied value (checked by C13)
        if ne != len(cs):
            bad("observation-count", f"{where}: {len(cs)} calls at {cs[0].x}, {ne} recorded")
            return
        if len(js) == 1:
            j = js[0]
            y, sd = fused(obs, s.p["noise"] == 2)
            if s.p["noise"] == 2 and abs(float(fl.S[j, 0]) - sd) > 1e-9 * sd:
                bad("wrong-noise", f"{where}: row {j} S {fl.S[j]} expected {sd}")
                return
            got = float(fl.y_orig[j, 0])
            eps = 1e-6 if s.target.rep in ("np32", "mixed") and s.p["prior"] is not None else 1e-9
            tol = eps * max(1e-3, max(abs(o[0]) for o in obs)) if (len(obs) > 1 or s.p["prior"] is not None) else 0.0
            if abs(got - y) > tol:
                bad("wrong-value", f"{where}: row {j} y_orig {got!r}, the target returned {y!r} (calls {[c.i for c in cs]})")
                return
    act = np.asarray(fl.X_flag[:n], dtype=bool)
    return True


def working(s, where, bad):
    """Active rows: working-space value is the recorded one plus log-Jacobian."""
    fl = s.v.function_logger
    n = fl.Xn + 1
    t = fl.parameter_transformer
    a = np.flatnonzero(np.asarray(fl.X_flag[:n], dtype=bool))
    if not len(a):
        return
    s.rep.count("checks")
    e = fl.y_orig[a, 0] + np.ravel(t.log_abs_det_jacobian(fl.X[a]))
    d = np.abs(fl.y[a, 0] - e)
    tol = 1e-8 * (1 + np.abs(e) + np.abs(fl.y_orig[a, 0]))
    if np.any(d > tol):
        i = int(np.argmax(d - tol))
        bad("wrong-working-value", f"{where}: row {a[i]} y {fl.y[a[i]]}, recorded value plus log-Jacobian {e[i]}")


def hist_digest(h, k):
    """Digest of every entry recorded for iteration k (labels excepted)."""
    out = {}
    for key in h:
        a = h[key]
        if key == "timer":
            out[key] = None if a is None or len(a) <= k or a[k] is None else W.durations(a[k])
            continue
        if a is None or len(a) <= k:
            out[key] = "-"
            continue
        x = a[k]
        if key == "vp":
            out[key] = digest({q: w for q, w in vars(x).items() if q not in ("stats", "_mode")})
            out["vp.stats"] = digest({q: w for q, w in (x.stats or {}).items() if q != "stable"})
        else:
            out[key] = digest(x)
    return out


def gen_story(rng, n=None):
    """What happens to the object after its first optimize()."""
    out = []
    for _ in range(n if n is not None else rng.choice([0, 0, 1, 1, 2])):
        out.append({"op": rng.choice(["more", "load"]), "iters": rng.choice([1, 2, 3]), "back": rng.choice([0, 0, 1, 2, 3])})
    return out


def story(s, segs, after=None, tries=8):
    """optimize, then continue in memory or through a file, as planned."""
    from pyvbmc import VBMC

    s.until_done(tries)
    if after:
        after("after optimize")
    for j, g in enumerate(segs):
        if s.rep.violations:
            return
        if g["op"] == "more":
            n = s.n + g["iters"]
            s.v.options.__setitem__("max_iter", n, force=True)
            s.v.options.__setitem__("max_fun_evals", 10000, force=True)
            s.rep.count("continuations")
        else:
            f = os.path.join(scratch(), f"story{j}.pkl")
            it = max(0, s.n - 1 - g["back"])
            try:
                s.v.save(f, overwrite=True)
                s.v = VBMC.load(f, iteration=it, new_options={"max_iter": it + 1 + g["iters"], "max_fun_evals": 10000})
            except ERRORS as e:
                raise Skip(f"save/load failed: {type(e).__name__}: {str(e)[:80]}")
            s.rep.count("reloads")
        s.until_done(tries)
        if after:
            after(f"after segment {j} ({g['op']})")


class SpyBase:
    """Mixin for acquisition functions: report every batch evaluation."""

    HOOKS = []

    def __call__(self, Xs, gp, vp, function_logger, optim_state):
        if np.ndim(Xs) == 2 and len(Xs) > 1:
            for h in SpyBase.HOOKS:
                h(Xs, gp, vp, function_logger, optim_state)
        return super().__call__(Xs, gp, vp, function_logger, optim_state)


_SPIES = {}


def spy_acqs(p, hook):
    """Options replacing the acquisition functions by observing ones."""
    SpyBase.HOOKS[:] = [hook]
    cur = W.real_options(p["opts"]).get("search_acq_fcn")
    if cur is None:
        from pyvbmc import acquisition_functions as AF

        cur = [AF.AcqFcnVIQR()] if p["noise"] == 2 else [AF.AcqFcnLog()]
    out = []
    for a in cur:
        cls = type(a)
        name = "Spy_" + cls.__name__
        if name not in _SPIES:
            c = type(name, (SpyBase, cls), {"__module__": __name__})
            globals()[name] = c
            _SPIES[name] = c
        out.append(_SPIES[name]())
    return {"search_acq_fcn": out}
