"""C07 several runs in one process, interleaved by a seeded scheduler."""
import copy
import json
import os
import random
import threading

import numpy as np

from simvbmc import seams, sim
from simvbmc import world as W
from simvbmc.canon import digest
from simvbmc.props import c03
from simvbmc.runner import Report, Skip

RULE = (
    "run plans: 2-3 runs (construct, optimise, fail and retry, save, load, continue; own log files; inputs possibly shared) in one process, switched by a seeded "
    "scheduler at target calls and clock readings, or nested in another's target; each compared with the same script executed alone. Distinct by event trace"
)
TIERS = {"quick": {"n": 45}, "thorough": {"n": 3500, "cap": 2700}}


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3])
    parts = []
    shared = rng.random() < 0.3
    for j in range(n):
        if shared and j:
            p = copy.deepcopy(parts[0]["p"])
            p["npseed"] = rng.randrange(1 << 31)
        else:
            p = W.gen_problem(rng, max_iter=rng.choice([3, 4, 6]), integer=rng.random() < 0.1)
            if rng.random() < 0.3:
                p["opts"]["display"] = rng.choice(["iter", "full"])
        steps = ["build", "opt"]
        r = rng.random()
        if r < 0.3:
            steps += ["save", f"load{rng.randrange(0, 2)}", "opt"]
        elif r < 0.45:
            steps += ["more"]
        parts.append(
            {
                "p": p,
                "steps": steps,
                "faults": {str(rng.randrange(0, 20)): rng.choice(["runtime", "nan", "keyint"])} if rng.random() < 0.25 else {},
                "log": rng.random() < 0.6,
            }
        )
    mode = rng.choice(["threads", "threads", "threads", "nest", "serial"])
    return {
        "mode": "run",
        "how": mode,
        "parts": parts,
        "shared": shared and not any(q["log"] for q in parts),
        "sched": rng.randrange(1 << 30),
        "switch": rng.choice([0.03, 0.2, 0.6, 1.0]),
        "nest_at": rng.randrange(0, 12),
    }


class Part:
    def __init__(self, k, q, tmp, rep, shared=None):
        self.k, self.q, self.tmp, self.rep = k, q, tmp, rep
        self.s = None
        self.out = []
        self.err = None
        self.state = np.random.RandomState(q["p"]["npseed"]).get_state()
        self.shared = shared
        self.yield_ = lambda: None
        self.extra = {"log_file_name": os.path.join(tmp, f"part{k}.log")} if q["log"] else None

    def script(self):
        q = self.q
        s = self.s = sim.Sim(q["p"], self.rep, name=f"p{self.k}", fresh=False, extra=self.extra, tk=dict(faults=sim.int_keys(q["faults"])))
        s.target.on_call.append(lambda t, c: self.yield_())
        f = os.path.join(self.tmp, f"part{self.k}.pkl")
        was = W.process_settings()
        try:
            for st in q["steps"]:
                self.yield_()
                n0 = len(s.target.calls)
                if st == "build":
                    if self.shared is not None:
                        s.v = shared_build(s, self.shared)
                    else:
                        s.build()
                elif st in ("opt", "more"):
                    if st == "more":
                        s.v.options.__setitem__("max_iter", s.n + 2, force=True)
                    for _ in range(5):
                        if s.optimize():
                            break
                        if not s.faulted():
                            raise s.exc
                        self.yield_()
                    else:
                        raise RuntimeError("too many failures")
                    self.out.append(c03.outcome(s.v, s.vp, s.results, s.target.calls[n0:]))
                elif st == "save":
                    s.v.save(f, overwrite=True)
                elif st.startswith("load"):
                    from pyvbmc import VBMC

                    s.v = VBMC.load(f, iteration=int(st[4:]))
        except Exception as e:
            self.err = f"{type(e).__name__}: {str(e)[:200]}"
        for o in self.out:
            strip(o)
        self.changed = W.settings_changed(was)
        log = None
        if self.extra:
            try:
                log = open(self.extra["log_file_name"]).read()
            except OSError:
                log = "(none)"
        self.final = {"out": self.out, "err": self.err, "log": log, "changed": self.changed, "end": digest(np.random.get_state())}


def strip(o):
    # durations are excepted from the property
    for it in o["iters"]:
        it.pop("timer", None)


def shared_build(s, box):
    """Several instances constructed from the very same objects."""
    from pyvbmc import VBMC

    if "opts" not in box:
        box["arrays"] = W.problem_arrays(s.p)
        o = W.real_options(s.p["opts"])
        if s.p["noise"] == 2:
            o["specify_target_noise"] = True
        elif s.p["noise"] == 1:
            o["uncertainty_handling"] = [1]
        box["opts"] = o
    a = box["arrays"]
    kw, _ = W.make_prior(s.p)
    return VBMC(s.target, a["x0"], a["lower_bounds"], a["upper_bounds"], a["plausible_lower_bounds"], a["plausible_upper_bounds"], options=box["opts"], **kw)


def alone(k, q, tmp):
    """Run a part's script by itself, in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            d = os.path.join(tmp, f"alone{k}")
            os.makedirs(d)
            W.start_run(0)
            part = Part(k, q, d, Report())
            np.random.set_state(part.state)
            part.script()
            data = json.dumps(part.final).encode()
            while data:
                n = seams.REAL_OS["write"](w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def collect(pid, r):
    data = b""
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data.decode())


class Scheduler:
    """One baton, handed over at yield points as the seed decides."""

    def __init__(self, parts, seed, prob):
        self.parts = parts
        self.rng = random.Random(f"sched-{seed}")
        self.prob = prob
        self.sem = {p: threading.Semaphore(0) for p in parts}
        self.main = threading.Semaphore(0)
        self.alive = []
        self.cur = None
        self.switches = 0
        self.trace = []
        self.points = 0

    def go(self):
        self.alive = list(self.parts)
        for p in self.parts:
            p.yield_ = self.point
            t = threading.Thread(target=self.body, args=(p,), daemon=True)
            t.start()
        seams.CLOCK.hook = self.point
        self.cur = None
        self.hand(self.rng.choice(self.alive))
        self.main.acquire()
        seams.CLOCK.hook = None

    def hand(self, p):
        self.cur = p
        np.random.set_state(p.state)
        self.sem[p].release()

    def body(self, p):
        self.sem[p].acquire()
        try:
            p.script()
        finally:
            self.alive.remove(p)
            self.trace.append(f"end{p.k}")
            if self.alive:
                self.hand(self.rng.choice(self.alive))
            else:
                self.main.release()

    def point(self):
        self.points += 1
        if len(self.alive) < 2 or self.rng.random() >= self.prob:
            return
        me = self.cur
        nxt = self.rng.choice(self.alive)
        if nxt is me:
            return
        self.switches += 1
        self.trace.append(nxt.k)
        me.state = np.random.get_state()
        self.hand(nxt)
        self.sem[me].acquire()


def run(plan, rep):
    tmp = sim.scratch()
    pids = [alone(k, q, tmp) for k, q in enumerate(plan["parts"])]
    want = [collect(*x) for x in pids]
    if all(w["err"] for w in want):
        raise Skip("runs fail alone")
    W.start_run(0)
    d = os.path.join(tmp, "together")
    os.makedirs(d)
    box = {} if plan["shared"] else None
    parts = [Part(k, q, d, rep, box) for k, q in enumerate(plan["parts"])]
    if plan["how"] == "threads":
        sc = Scheduler(parts, plan["sched"], plan["switch"])
        sc.go()
        rep.fault("thread-switch", sc.switches)
        rep.count("scheduling_points", sc.points)
        rep.trace(("t", sc.trace))
    elif plan["how"] == "nest":
        outer = parts[0]
        done = []

        def inner():
            if done or outer.s is None or len(outer.s.target.calls) <= plan["nest_at"]:
                return
            done.append(1)
            st = np.random.get_state()
            for p in parts[1:]:
                np.random.set_state(p.state)
                p.script()
                p.nested = True
            np.random.set_state(st)

        outer.yield_ = inner
        np.random.set_state(outer.state)
        outer.script()
        if not done:
            raise Skip("nesting point not reached")
        rep.fault("nested-run")
        rep.trace(("n", plan["nest_at"], [len(o["calls"]) for o in outer.out]))
    else:
        order = list(range(len(parts)))
        random.Random(plan["sched"]).shuffle(order)
        for k in order:
            np.random.set_state(parts[k].state)
            parts[k].script()
        rep.fault("serial-runs")
        rep.trace(("s", order))
    for p, w in zip(parts, want):
        g = json.loads(json.dumps(p.final))
        rep.count("compared")
        if not rep.check(g["err"] == w["err"], "run-fails-in-company", lambda: f"part {p.k} of {plan['how']}: {g['err']} (alone: {w['err']})"):
            return
        for j, (a, b) in enumerate(zip(w["out"], g["out"])):
            rep.check(a["calls"] == b["calls"], "evaluations-differ", lambda: f"part {p.k} of {plan['how']}, step {j}: evaluation {next((i for i, (x, y) in enumerate(zip(a['calls'], b['calls'])) if x != y), 'count')}")
            dd = c03.diff(a, b, -1)
            if dd:
                rep.bad(dd[0], f"part {p.k} of {plan['how']}, step {j}: {dd[1]}")
                return
        rep.check(g["log"] == w["log"], "log-differs", lambda: f"part {p.k} of {plan['how']}: {logdiff(w['log'], g['log'])}")
        # (another thread may have been inside a temporary change)
        for where, c in (("alone", w["changed"]), (plan["how"], g["changed"] if plan["how"] != "threads" else [])):
            rep.check(not c, "process-settings-changed", lambda: f"part {p.k} of {where}: {c}")
        # whoever holds the stream at the end of its script
        rep.check(g["end"] == w["end"], "random-stream-differs", f"part {p.k} of {plan['how']}")
    for p in parts:
        if p.s is not None:
            for k, n in p.s.target.fired.items():
                rep.fault(k, n)


def logdiff(a, b):
    a, b = (a or "").splitlines(), (b or "").splitlines()
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"line {i}: {x[:100]!r} vs {y[:100]!r}"
    return f"{len(a)} vs {len(b)} lines"
