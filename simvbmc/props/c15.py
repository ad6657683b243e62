"""C15 time accounting under simulated latencies in every phase."""
import math

import numpy as np

from simvbmc import loggersim, seams, sim
from simvbmc import world as W

RULE = (
    "unit plans: logger histories with latencies and failures, and timer start/stop/reset/read histories against a model; run plans: whole runs with "
    "simulated latency (constant, random, stalls) in the target, in surrogate training or in variational fitting, with target failures. Distinct by event trace"
)
TIERS = {"quick": {"n": 200}, "thorough": {"n": 7000, "cap": 2400}}
BATCH = 12
SLOW_FIT = {}


def gen(rng, tier, i):
    if i % 4 == 1:
        return {"mode": "unit", "hist": [loggersim.gen(rng) for _ in range(BATCH)]}
    if i % 4 == 2:
        return {"mode": "timer", "hist": [gen_timer(rng) for _ in range(60)]}
    where = rng.choice(["fun", "fun", "fit", "vfit"])
    p = W.gen_problem(rng, noise=rng.choice([0, 0, 1, 2]) if where == "fun" else 0, max_iter=rng.choice([3, 5, 7]), integer=rng.random() < 0.2)
    if where != "fun":
        for k in ("active_sample_gp_update", "active_sample_vp_update"):
            p["opts"].pop(k, None)
    if where == "vfit":
        p["opts"].pop("separate_search_gp", None)
    return {
        "mode": "run",
        "where": where,
        "p": p,
        "lat": dict(kind=rng.choice(["const", "rand", "rand", "stall"]), base=rng.choice([2.0**-6, 0.25, 16.0]), seed=rng.randrange(1 << 20)),
        "faults": sim.gen_faults(rng, 0, 30, noise=p["noise"]) if rng.random() < 0.4 else {},
        "again": rng.random() < 0.3,
    }


def gen_timer(rng):
    ops = []
    for _ in range(rng.choice([5, 12, 30])):
        r = rng.random()
        n = rng.choice("abc")
        if r < 0.35:
            ops.append(["start", n])
        elif r < 0.7:
            ops.append(["stop", n])
        elif r < 0.85:
            ops.append(["get", n])
        elif r < 0.9:
            ops.append(["reset"])
        ops.append(["wait", rng.choice([0.0, 0.125, 1.0, 3.0, 1000.0])])
    return {"ops": ops}


def run_timer(h, rep):
    from pyvbmc.timer.timer import Timer

    W.start_run(0)
    t, other = Timer(), Timer()
    start, dur = {}, {}
    now = 0.0
    for i, op in enumerate(h["ops"]):
        if op[0] == "wait":
            seams.CLOCK.advance(op[1])
            now += op[1]
        elif op[0] == "start":
            t.start_timer(op[1])
            start.setdefault(op[1], now)
        elif op[0] == "stop":
            t.stop_timer(op[1])
            if op[1] in start:
                dur[op[1]] = dur.get(op[1], 0.0) + now - start.pop(op[1])
        elif op[0] == "reset":
            t.reset()
            start, dur = {}, {}
        for n in "abc":
            e, g = dur.get(n), t.get_duration(n)
            if (e is None) != (g is None) or (e is not None and abs(e - g) > 1e-6 + 1e-9 * e):
                rep.bad("timer", f"op {i} {op}: duration of {n} is {g}, expected {e}")
                return
            rep.check(other.get_duration(n) is None, "timer-shared", f"op {i}: another timer knows {n}")
    rep.sim += seams.CLOCK.advanced
    rep.trace((len(h["ops"]), sorted(dur)))


class Slow:
    """Latency in a phase other than the target."""

    def __init__(self, lat):
        self.t = W.SimTarget.__new__(W.SimTarget)
        self.t.lat = lat
        self.n = 0
        self.log = []  # (iteration, seconds)
        self.it = lambda: -1

    def hit(self):
        d = self.t.latency(self.n)
        self.n += 1
        seams.CLOCK.advance(d)
        self.log.append((self.it(), d))

    def share(self, k):
        return math.fsum(d for i, d in self.log if i == k)


def run(plan, rep):
    if plan["mode"] == "unit":
        for h in plan["hist"]:
            loggersim.run(h, rep, {"time"})
            if rep.violations:
                return
        return
    if plan["mode"] == "timer":
        for h in plan["hist"]:
            run_timer(h, rep)
            if rep.violations:
                return
        return
    p = plan["p"]
    where = plan["where"]
    slow = Slow(plan["lat"])
    extra = {}
    if where == "vfit":

        class NsEnt:
            def __call__(self, K):
                slow.hit()
                return 4 * K

            def __deepcopy__(self, memo):
                return self

        extra = {"ns_ent": NsEnt()}
    s = sim.Sim(p, rep, extra=extra, tk=dict(faults=sim.int_keys(plan["faults"]), lat=plan["lat"] if where == "fun" else None))
    s.must_build()
    slow.it = lambda: s.v.iteration if s.n == s.v.iteration else -1  # not the final boost
    if where == "fit":
        import gpyreg

        real = gpyreg.GP.fit

        def fit(*a, **k):
            slow.hit()
            return real(*a, **k)

        gpyreg.GP.fit = fit
    # calls of an attempt that failed are not part of the recorded iteration
    attempt = [0]
    tags = {}
    s.target.on_call.append(lambda t, c: tags.__setitem__(c.i, attempt[0]))
    done_by = {}
    for _ in range(8):
        n0 = s.n
        ok = s.optimize()
        for k in range(n0, s.n):
            done_by[k] = attempt[0]
        attempt[0] += 1
        if ok:
            break
        slow.log = [e for e in slow.log if e[0] < s.n]
        if not s.faulted():
            raise sim.Skip(f"run failed: {type(s.exc).__name__}: {str(s.exc)[:80]}")
    else:
        raise sim.Skip("too many failures")
    if plan["again"] and not plan["faults"]:
        n0 = s.n
        s.v.options.__setitem__("max_iter", n0 + 2, force=True)
        s.v.options.__setitem__("max_fun_evals", 400, force=True)
        s.must()
        for k in range(n0, s.n):
            done_by[k] = attempt[0]
    fl = s.v.function_logger
    calls = [c for c in s.target.calls]
    okc = [c for c in calls if c.ok]
    near = lambda a, b: abs(a - b) <= 1e-5 + 1e-7 * abs(b)
    tot = math.fsum(c.t1 - c.t0 for c in okc)
    rep.check(near(fl.total_fun_eval_time, tot), "total-time", lambda: f"total {fl.total_fun_eval_time}, successful calls took {tot}")
    by = {}
    for c in okc:
        by.setdefault(c.x.tobytes(), []).append(c.t1 - c.t0)
    n = fl.Xn + 1
    seen = {}
    for j in range(n):
        seen.setdefault(np.ascontiguousarray(fl.X_orig[j]).tobytes(), []).append(j)
    for x, ts in by.items():
        js = seen.get(x, [])
        if len(js) == 1 and int(fl.n_evals[js[0]].item()) == len(ts):
            e = math.fsum(ts) / len(ts)
            g = float(fl.fun_eval_time[js[0], 0])
            rep.check(near(g, e), "evaluation-time", lambda: f"row {js[0]}: {g}, its calls took {ts}")
    names = ("active_sampling", "gp_train", "variational_fit", "warping", "finalize", "separate_gp_train")
    T = s.h["timer"]
    for k in range(s.n):
        d = W.durations(T[k])
        mine = [c for c in calls if c.tag == k and tags[c.i] == done_by[k]]
        et = math.fsum(c.t1 - c.t0 for c in mine)
        g = {q: d.get(q) or 0.0 for q in names}
        if where == "fun":
            rep.check(near(g["active_sampling"], et), "sampling-phase-time", lambda: f"iteration {k}: active_sampling {g['active_sampling']}, target calls took {et}")
            for q in names[1:]:
                if g[q] > 1e-5 and not (q == "finalize"):
                    rep.check(False, "phase-time", f"iteration {k}: {q} {g[q]} although no time passed there")
            if k > 0:
                f = d.get("fun_time") or 0.0
                rep.check(near(f, et), "target-time", lambda: f"iteration {k}: fun_time {f}, target calls took {et}")
        elif where == "fit":
            e = slow.share(k)
            tot = g["gp_train"] + g["separate_gp_train"]
            rep.check(near(tot, e), "training-phase-time", lambda: f"iteration {k}: gp_train {g['gp_train']} + separate {g['separate_gp_train']}, training took {e}")
            rep.check(g["variational_fit"] < 1e-5 and g["finalize"] < 1e-5, "phase-time", lambda: f"iteration {k}: {g}")
            rep.check(g["active_sampling"] <= e + 1e-5, "sampling-phase-time", lambda: f"iteration {k}: {g}, all training took {e}")
        else:
            e = slow.share(k)
            rep.check(near(g["variational_fit"], e), "fit-phase-time", lambda: f"iteration {k}: variational_fit {g['variational_fit']}, fitting took {e}")
            rep.check(g["gp_train"] < 1e-5 and g["active_sampling"] < 1e-5 and g["finalize"] < 1e-5, "phase-time", lambda: f"iteration {k}: {g}")
    rep.count("slow_" + where, slow.n + len(calls))
    s.done()
