"""C18 inputs and outputs are never shared with the caller."""
import copy
import os
import random

import numpy as np

from simvbmc import sim
from simvbmc import world as W
from simvbmc.canon import digest, first_diff
from simvbmc.runner import Skip

RULE = (
    "plans: the same run twice, once with a caller that overwrites the arrays, option values, f_vals, target arguments and result buffers, posteriors, results and load options it passed in or got back, at "
    "seeded moments (after construction, inside target calls, after failures, between continuations, after loading); both runs compared bit for bit. Distinct by event trace"
)
TIERS = {"quick": {"n": 130}, "thorough": {"n": 6000, "cap": 2700}}


def gen(rng, tier, i):
    p = W.gen_problem(rng, max_iter=rng.choice([2, 3, 5, 8]), integer=rng.random() < 0.15)
    if rng.random() < 0.3:
        p["f_vals"] = [W.base_value(p, x) if rng.random() < 0.6 else None for x in p["x0"]]
    return {
        "p": p,
        "faults": sim.gen_faults(rng, 0, 40, noise=p["noise"]) if rng.random() < 0.25 else {},
        "segs": [{"op": rng.choice(["more", "load"]), "iters": rng.choice([1, 2, 3]), "back": rng.choice([0, 0, 1, 2])} for _ in range(rng.choice([0, 1, 1, 2]))],
        "rep": rng.choice(["float", "buf", "buf", "arr11", "arr0"]),
        "when": [w for w in ("built", "calls", "failed", "returned", "loaded", "argument") if rng.random() < 0.75] or ["built"],
        "rate": rng.choice([0.1, 0.5, 1.0]),
        "seed": rng.randrange(1 << 30),
        "frozen": rng.random() < 0.4,
        "forms": [rng.choice(["2d", "flat"]), rng.choice(["2d", "flat"]), rng.choice(["2d", "flat"])],
    }


def spoil(o, seen=None, depth=0):
    """Overwrite everything reachable in a caller's object."""
    seen = seen if seen is not None else set()
    if id(o) in seen or depth > 6:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return
        try:
            o.setflags(write=True)
        except ValueError:
            return
        if o.dtype.kind == "f":
            o[...] = -12345.5
        elif o.dtype.kind in "iu":
            o[...] = 77
        elif o.dtype.kind == "b":
            o[...] = ~o
    elif isinstance(o, dict):
        for v in list(o.values()):
            spoil(v, seen, depth + 1)
        for k in list(o):
            o[k] = "spoiled"
        o["another"] = 1
    elif isinstance(o, list):
        for v in o:
            spoil(v, seen, depth + 1)
        o[:] = [1e9, "spoiled"]
    elif isinstance(o, W.Lin):
        o.a, o.b = 0, 1
    elif isinstance(o, W.SimTarget):
        return
    elif type(o).__module__.startswith("pyvbmc"):
        for k, v in list(vars(o).items()):
            spoil(v, seen, depth + 1)
            if isinstance(v, (bool, np.bool_)):
                setattr(o, k, not v)
            elif isinstance(v, (int, float)):
                setattr(o, k, v + 3)


class Caller:
    """One execution, with or without an interfering caller."""

    def __init__(self, plan, rep, meddle):
        self.plan, self.rep, self.meddle = plan, rep, meddle
        p = plan["p"]
        self.on = set(plan["when"]) if meddle else set()
        self.s = s = sim.Sim(p, rep, tk=dict(faults=sim.int_keys(plan["faults"]), rep=plan["rep"], mutate="argument" in self.on))
        self.rng = random.Random(plan["seed"])
        self.held = []  # objects the caller got back
        self.sigs = []
        a = W.problem_arrays(p)
        for key, form in zip(("lower_bounds", "upper_bounds", "plausible_lower_bounds"), plan["forms"]):
            if form == "flat":
                a[key] = a[key].ravel()
        if len(p["x0"]) == 1 and plan["forms"][0] == "flat":
            a["x0"] = a["x0"].ravel()
        self.arrays = a
        if plan["frozen"] and not meddle:
            for x in a.values():
                x.setflags(write=False)
        s.must_build(a)
        self.options = s.raw["options"]
        self.d0 = None
        if not meddle:
            self.d0 = (digest(a), digest(self.options))
        if "built" in self.on:
            self.strike("built")
        if "calls" in self.on:
            s.target.on_call.append(self.call)

    def strike(self, where):
        self.rep.count("interferences")
        self.rep.fault(f"caller overwrites ({where})")
        for a in self.arrays.values():
            spoil(a)
        spoil(self.options)
        self.s.target.buf[:] = 4.4e7
        for o in self.held:
            spoil(o)

    def call(self, t, c):
        if self.rng.random() < self.plan["rate"]:
            self.strike("in target call")

    def finish(self, where):
        s = self.s
        for _ in range(8):
            if s.optimize():
                break
            if not s.faulted():
                raise s.exc
            if "failed" in self.on:
                self.strike("after failure")
        else:
            raise Skip("too many failures")
        self.sigs.append((where, copy.deepcopy(W.run_sig(s.v, s.vp, s.results, s.target))))
        self.sigs[-1][1]["r"] = digest(np.random.get_state())
        if self.meddle:
            self.held += [s.vp, s.results]
        else:
            # what was returned stays as it was
            self.held.append((where, s.vp, s.results, digest(s.vp), digest(s.results)))
        if "returned" in self.on:
            self.strike("returned")
        self.sigs.append((where + ", live state", copy.deepcopy(self.live())))

    def live(self):
        v = self.s.v
        return {
            "posterior": W.vp_sig(v.vp),
            "posterior_stats": digest(v.vp.stats),
            "record": W.fl_sig(v.function_logger),
            "surrogate": digest(W.gp_sig(v.gp)),
            "search_state": {k: digest(x) for k, x in v.optim_state.items()},
            "options": {k: digest(x) for k, x in v.options.items()},
            "x0": np.array(v.x0),
            "bounds": [np.array(b) for b in (v.lower_bounds, v.upper_bounds, v.plausible_lower_bounds, v.plausible_upper_bounds)],
        }

    def go(self):
        from pyvbmc import VBMC

        s = self.s
        self.finish("optimize")
        for j, g in enumerate(self.plan["segs"]):
            if g["op"] == "more":
                n = s.n + g["iters"]
                s.v.options.__setitem__("max_iter", n, force=True)
                s.v.options.__setitem__("max_fun_evals", 10000, force=True)
                self.rep.count("continuations")
            else:
                f = os.path.join(sim.scratch(), f"c{j}.pkl")
                it = max(0, s.n - 1 - g["back"])
                new = {"max_iter": it + 1 + g["iters"], "max_fun_evals": 10000, "ns_ent": W.Lin(6), "search_acq_fcn": list(W.real_options(self.plan["p"]["opts"]).get("search_acq_fcn") or ["AcqFcnLog"])}
                if new["search_acq_fcn"] == ["AcqFcnLog"]:
                    del new["search_acq_fcn"]
                d = digest(new)
                s.v.save(f, overwrite=True)
                old = s.v
                s.v = VBMC.load(f, iteration=it, new_options=new)
                if not self.meddle:
                    self.rep.check(digest(new) == d, "argument-changed", "the options passed to load were modified")
                if "loaded" in self.on:
                    spoil(new)
                    # the saved original is no part of the loaded object
                    for a in ("vp", "optim_state", "function_logger", "gp"):
                        spoil(getattr(old, a))
                    self.rep.fault("caller overwrites (after load)")
                self.rep.count("reloads")
            self.finish(f"segment {j} ({g['op']})")
        return self


def run(plan, rep):
    try:
        a = Caller(plan, rep, False).go()
    except Skip:
        raise
    except sim.ERRORS as e:
        if "read-only" in str(e):
            rep.bad("argument-changed", f"writes to a read-only array of the caller: {type(e).__name__}: {e}")
            return
        raise Skip(f"run failed: {type(e).__name__}: {str(e)[:80]}")
    rep.check(digest(a.arrays) == a.d0[0], "argument-changed", "the arrays passed to the constructor were modified")
    rep.check(digest(a.options) == a.d0[1], "argument-changed", "the options passed to the constructor were modified")
    for where, vp, res, d1, d2 in a.held:
        rep.check(digest(vp) == d1, "returned-object-changed", f"posterior returned by {where} changed afterwards")
        rep.check(digest(res) == d2, "returned-object-changed", f"results returned by {where} changed afterwards")
    a.s.done()
    if rep.violations:
        return
    try:
        b = Caller(plan, rep, True).go()
    except sim.ERRORS as e:
        if isinstance(e, Skip):
            e = e.args
        rep.bad("caller-breaks-run", f"with an interfering caller ({plan['when']}): {type(e).__name__}: {e}")
        return
    for (w, x), (_, y) in zip(a.sigs, b.sigs):
        d = first_diff(x, y)
        if not rep.check(d is None, "caller-changes-run", lambda: f"{w}: with an interfering caller ({plan['when']}): {d}"):
            return
    rep.trace(" ".join(plan["when"]) + str([g["op"] for g in plan["segs"]]))
