"""C03 resuming a saved run at any iteration reproduces the original."""
import json
import os

import numpy as np

from simvbmc import sim
from simvbmc import world as W
from simvbmc.canon import digest

RULE = (
    "run plans: a random run (warm-up end, trims, kept/undone warps, phase switches provoked by options) is saved at its end or after a target failure; "
    "it is loaded at several recorded iterations with the stored random state, in the same process or in one that never ran it, and finished; "
    "compared bit for bit. Non-trivial: at least one resumption; distinct by event trace"
)
TIERS = {"quick": {"n": 110}, "thorough": {"n": 4000, "cap": 2700}}


def gen(rng, tier, i):
    p = W.gen_problem(rng, integer=rng.random() < 0.1, max_iter=rng.choice([5, 6, 8, 10]))
    o = p["opts"]
    if rng.random() < 0.4:
        # make trims and false alarms of warm-up more likely
        o["warmup"] = True
        o["warmup_keep_threshold"] = rng.choice([0.5, 2.0])
        o["tol_stable_warmup"] = rng.choice([5, 8])
    if rng.random() < 0.3:
        o["max_fun_evals"] = rng.choice([20, 30])
    return {
        "mode": "run",
        "p": p,
        "where": rng.choice(["same", "same", "new"]),
        "fail": rng.randrange(12, 40) if rng.random() < 0.3 else None,
        "ks": [rng.random() for _ in range(2 if tier == "quick" else 4)],
        "chain": rng.random() < 0.25,
        "ambient": rng.randrange(100),
    }


def outcome(v, vp, results, calls):
    """Digests of everything a run produced."""
    h = v.iteration_history
    n = W.hist_len(h)
    out = {"n": n, "calls": [digest(c.x) for c in calls], "iters": [], "vp": digest(W.vp_sig(vp)), "vp_parts": {k: digest(x) for k, x in W.vp_sig(vp).items()}}
    for k in range(n):
        s = W.iter_sig(h, k)
        s["optim_state"] = {q: x for q, x in h["optim_state"][k].items()}
        out["iters"].append({q: digest(x) for q, x in s.items()})
    out["results"] = {q: digest(x) for q, x in W.result_sig(results).items()}
    out["record"] = digest(W.fl_sig(v.function_logger))
    out["end_random"] = digest(np.random.get_state())
    out["optim_state"] = {q: digest(x) for q, x in v.optim_state.items()}
    return out


def diff(a, b, k):
    """First difference of outcome b (resumed after iteration k) from a."""
    for q in range(min(len(a["iters"]), len(b["iters"]))):
        d = [x for x in a["iters"][q] if a["iters"][q][x] != b["iters"][q].get(x)]
        if d:
            return ("recorded-iteration-differs" if q <= k else "iteration-differs"), f"iteration {q}: {d}"
    if a["n"] != b["n"]:
        return "iteration-count", f"{a['n']} iterations, resumed run {b['n']}"
    for q in ("results", "vp_parts"):
        d = [x for x in a[q] if a[q][x] != b[q].get(x)]
        if d:
            return "outcome-differs", f"{q}: {d}"
    for q in ("record", "end_random"):
        if a[q] != b[q]:
            return "outcome-differs", q
    d = [x for x in a["optim_state"] if a["optim_state"][x] != b["optim_state"].get(x)]
    if d:
        return "outcome-differs", f"optim_state: {d}"
    return None


def resume(s, f, k, chain=None):
    """Load f at iteration k and finish; (outcome, error)."""
    from pyvbmc import VBMC

    n0 = len(s.target.calls)
    try:
        s.v = VBMC.load(f, iteration=k, set_random_state=True)
    except Exception as e:
        return None, f"load: {type(e).__name__}: {e}"
    if not s.optimize():
        return None, f"optimize: {type(s.exc).__name__}: {s.exc}"
    return outcome(s.v, s.vp, s.results, s.target.calls[n0:]), None


def run(plan, rep):
    p = plan["p"]
    tmp = sim.scratch()
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = 0
    if plan["where"] == "new":
        pid = os.fork()
        if pid == 0:
            worker(plan, r1, w2)
    s = sim.Sim(p, rep)
    s.must_build().must()
    base = outcome(s.v, s.vp, s.results, s.target.calls)
    tags = [c.tag for c in s.target.calls]
    f = os.path.join(tmp, "run.pkl")
    n = s.n
    s.v.save(f)
    last = n - 1  # resuming must leave something to do
    if plan["fail"] is not None:
        s2 = sim.Sim(p, rep, tk=dict(faults={plan["fail"]: "runtime"}))
        s2.must_build()
        if not s2.optimize():
            if not s2.faulted():
                raise sim.Skip("other failure")
            rep.fault("runtime")
            s2.v.save(f, overwrite=True)
            last = s2.n
            rep.count("saved_after_failure")
        s2.target.faults = {}
        s = s2
    if last < 1:
        raise sim.Skip("nothing to resume")
    ks = sorted({min(last - 1, int(u * last)) for u in plan["ks"]})
    jobs = []
    if plan["where"] == "new":
        os.write(w1, json.dumps({"f": f, "ks": ks}).encode() + b"\n")
        os.close(w1)
        os.close(w2)
        data = b""
        while True:
            d = os.read(r2, 1 << 16)
            if not d:
                break
            data += d
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError("worker gave no answer")
        jobs = json.loads(data.decode())
        rep.count("new_processes")
    else:
        for k in ks:
            o, err = resume(s, f, k)
            jobs.append([k, o, err])
        if plan["chain"] and not rep.violations:
            # save the resumed run and resume that one again
            g = os.path.join(tmp, "again.pkl")
            s.v.save(g)
            k = ks[0]
            o, err = resume(s, g, k)
            jobs.append([k, o, err])
            rep.count("chained")
    for k, o, err in jobs:
        rep.count("resumptions")
        if err is not None:
            rep.bad("resume-failed", f"iteration {k} of {n}: {err}")
            return
        e = [digest_calls for digest_calls, t in zip(base["calls"], tags) if t > k]
        if not rep.check(o["calls"] == e, "evaluations-differ", lambda: f"resumed at {k} of {n}: {len(o['calls'])} evaluations, original {len(e)}, first difference {next((i for i, (a, b) in enumerate(zip(o['calls'], e)) if a != b), 'length')}"):
            pass
        d = diff(base, o, k)
        if d:
            rep.bad(d[0], f"resumed at {k} of {n}: {d[1]}")
            return
    s.done()


def worker(plan, r, w):
    """A process that never saw the original run."""
    try:
        data = b""
        while not data.endswith(b"\n"):
            d = os.read(r, 1 << 16)
            if not d:
                break
            data += d
        if not data:
            os._exit(0)
        cmd = json.loads(data.decode())
        from simvbmc.runner import Report

        s = sim.Sim(plan["p"], Report(), npseed=999 + plan["ambient"], ambient=plan["ambient"])
        out = []
        for k in cmd["ks"]:
            o, err = resume(s, cmd["f"], k)
            out.append([k, o, err])
        data = json.dumps(out).encode()
        while data:
            n = os.write(w, data)
            data = data[n:]
    finally:
        os._exit(0)
