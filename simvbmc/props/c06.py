"""C06 twin runs differing only in what must not matter."""
import json
import os
import random

import numpy as np

from simvbmc import seams, sim
from simvbmc import world as W
from simvbmc.canon import digest
from simvbmc.props import c03
from simvbmc.runner import Skip

RULE = (
    "run plans: a base run and 1-2 twins with the same inputs, options and NumPy state but another clock (ticks, jumps forwards and backwards, stalls), other entropy "
    "(os.urandom, random, unseeded generators, hash seed in a new interpreter), contents of uninitialised memory, display level, options given through a file instead of the dictionary (the dictionary winning over other values in the file), log file or failing log disk; compared bit for bit, and the "
    "global random stream is watched for reseeding. Distinct by event trace"
)
TIERS = {"quick": {"n": 90}, "thorough": {"n": 4000, "cap": 2400}}


def gen(rng, tier, i):
    p = W.gen_problem(rng, max_iter=rng.choice([3, 5, 7]), integer=rng.random() < 0.15)
    twins = [gen_twin(rng) for _ in range(rng.choice([1, 2]))]
    if i % 12 == 5:
        twins = [{"kind": ["hashseed"], "seed": rng.randrange(1, 1 << 30)}]
    if p["noise"] == 2 and rng.random() < 0.5:
        # the defaults for noisy targets
        for k in ("search_acq_fcn", "active_sample_gp_update", "active_sample_vp_update"):
            p["opts"].pop(k, None)
        p["opts"]["max_iter"] = 3
    return {"mode": "run", "p": p, "twins": twins, "again": rng.random() < 0.25, "seedcheck": rng.random() < 0.5}


def gen_twin(rng):
    kinds = rng.sample(["clock", "jumps", "entropy", "memory", "display", "logfile", "logfault", "latency", "optfile"], rng.choice([1, 2, 3]))
    return {"kind": kinds, "seed": rng.randrange(1 << 30)}


def twin_setup(t, tmp, n):
    r = random.Random(t["seed"])
    k = t["kind"]
    clock = {}
    if "clock" in k:
        clock["tick"] = r.choice([2.0**-20, 0.01, 3600.0, 1e-7])
    if "jumps" in k:
        clock["jumps"] = {r.randrange(1, 400): r.choice([-1e9, -3600.0, -1.0, 86400.0, 1e8]) for _ in range(r.choice([1, 3, 10]))}
    ambient = r.randrange(1, 1 << 30) if "entropy" in k else 0
    extra = {}
    if "display" in k:
        extra["display"] = r.choice(["iter", "full", "final"])
    faults = None
    if "logfile" in k or "logfault" in k:
        extra["log_file_name"] = os.path.join(tmp, f"t{n}.log")
        extra["log_file_level"] = r.choice([10, 20, 30])
        if "logfault" in k:
            faults = [{"op": r.randrange(1, 30), "kind": r.choice(["enospc", "eio", "short"]), "sticky": r.random() < 0.7, "only": ["write", "flush", "close-dirty", "fsync"]} for _ in range(3)]
    lat = dict(kind=r.choice(["rand", "stall"]), base=1.0, seed=t["seed"]) if "latency" in k else None
    return clock, ambient, extra, faults, lat


def one(p, rep, clock=None, ambient=0, extra=None, faults=None, lat=None, tmp=None, again=False, optfile=None):
    s = sim.Sim(p, rep, clock=clock, ambient=ambient, extra=extra, tk=dict(lat=lat))
    s.optfile = optfile
    if faults is not None:
        seams.DISK.reset(tmp, faults, match=lambda q: str(q).endswith(".log"))
    try:
        s.build()
    except sim.ERRORS as e:
        s.exc = e
        return s, None
    ok = s.optimize()
    if ok and again:
        s.v.options.__setitem__("max_iter", s.n + 2, force=True)
        ok = s.optimize()
    for f in seams.DISK.fired:
        rep.fault("log-" + f[1])
    if clock and clock.get("jumps"):
        rep.fault("clock-jump", seams.CLOCK.fired_jumps)
    seams.DISK.reset(None)
    if not ok:
        return s, None
    o = c03.outcome(s.v, s.vp, s.results, s.target.calls)
    for k in ("optim_state",):
        o.pop(k, None)
    for it in o["iters"]:
        it.pop("optim_state", None)
    return s, o


class Stream:
    """Watch for reseeding of the global stream."""

    def __init__(self):
        self.n = 0
        self.real = {}

    def __enter__(self):
        for k in ("seed", "set_state"):
            self.real[k] = getattr(np.random, k)
            setattr(np.random, k, self.wrap(k))
        return self

    def wrap(self, k):
        def f(*a, **kw):
            self.n += 1
            self.what = k
            return self.real[k](*a, **kw)

        return f

    def __exit__(self, *a):
        for k, f in self.real.items():
            setattr(np.random, k, f)


def run(plan, rep):
    p = plan["p"]
    seams.MEMORY.install()
    tmp = sim.scratch()
    a, base = one(p, rep, again=plan["again"])
    if base is None:
        raise Skip(f"run failed: {type(a.exc).__name__}: {str(a.exc)[:60]}")
    # the stream advances, and never returns to where it was
    rs = [digest(a.h["random_state"][k]) for k in range(a.n)]
    rep.check(len(set(rs)) == len(rs), "random-stream-rewound", lambda: f"iterations with equal random state: {rs}")
    for n, t in enumerate(plan["twins"]):
        if "hashseed" in t["kind"]:
            o = in_interpreter(plan, t)
            rep.fault("new-interpreter")
            if o is None:
                raise RuntimeError("no answer of the other interpreter")
            compare(rep, base, o, t)
            continue
        clock, ambient, extra, faults, lat = twin_setup(t, tmp, n)
        for k in t["kind"]:
            rep.fault("twin-" + k)
        of = (os.path.join(tmp, f"t{n}.ini"), t["seed"]) if "optfile" in t["kind"] else None
        seams.MEMORY.start(t["seed"] if "memory" in t["kind"] else None)
        if plan["seedcheck"] and n == 0:
            W.start_run(p["npseed"], ambient, clock)
            with Stream() as st:
                # start_run inside Sim seeds once
                b, o = one(p, rep, clock, ambient, extra, faults, lat, tmp, plan["again"], of)
            rep.check(st.n <= 1, "random-stream-reseeded", lambda: f"numpy.random.{st.what} called by the run")
        else:
            b, o = one(p, rep, clock, ambient, extra, faults, lat, tmp, plan["again"], of)
        seams.MEMORY.start(None)
        if o is None:
            rep.bad("twin-failed", f"{t['kind']} {extra}: {type(b.exc).__name__}: {b.exc}")
            return
        compare(rep, base, o, t)
        if rep.violations:
            return
        if t["kind"] != ["latency"] and not lat:
            pass
    a.done()


def compare(rep, a, b, t):
    a, b = json.loads(json.dumps(a)), json.loads(json.dumps(b))
    a["optim_state"] = b["optim_state"] = {}
    if not rep.check(a["calls"] == b["calls"], "evaluations-differ", lambda: f"twin {t['kind']}: first at {next((i for i, (x, y) in enumerate(zip(a['calls'], b['calls'])) if x != y), 'length')}"):
        return
    d = c03.diff(a, b, -1)
    rep.check(d is None, d[0] if d else "", lambda: f"twin {t['kind']}: {d[1]}")


def in_interpreter(plan, t):
    import subprocess

    from simvbmc import boot
    from simvbmc.world import enc_floats

    code = (
        "import sys, json\n"
        "from simvbmc import boot\n"
        "boot.load_system()\n"
        "from simvbmc.props import c06\n"
        "from simvbmc.runner import Report\n"
        "from simvbmc import world\n"
        "plan = world.fix_floats(json.loads(sys.stdin.read()))\n"
        "with world.Quiet():\n"
        "    s, o = c06.one(plan['p'], Report(), ambient=5, again=plan['again'])\n"
        "print('ANSWER' + json.dumps(o))\n"
    )
    env = boot.pinned_env(str(t["seed"] % 4294967295))
    env["SIMVBMC_TMP"] = sim.scratch()
    r = subprocess.run([boot.python(), "-c", code], input=json.dumps(enc_floats(plan)).encode(), env=env, cwd=boot.VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    for line in r.stdout.decode().splitlines():
        if line.startswith("ANSWER"):
            return json.loads(line[6:])
    raise RuntimeError(r.stderr.decode()[-800:])
