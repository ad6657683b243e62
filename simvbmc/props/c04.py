"""C04 saves are atomic under disk faults and crashes."""
import json
import os
from pathlib import Path

import numpy as np

from simvbmc import seams, sim
from simvbmc import world as W
from simvbmc.canon import digest
from simvbmc.seams import DISK

RULE = (
    "run plans: histories of 2-8 saves (posterior or whole run, with/without overwrite, four path styles) to 1-2 paths; each may meet an I/O error, full disk, "
    "short write, unpicklable content, a crash or a power loss at any of its file operations; after each the files are loaded and compared with a model. "
    "Distinct by event trace"
)
TIERS = {"quick": {"n": 300}, "thorough": {"n": 12000, "cap": 2400}}

ERR = ["enospc", "eio", "short", "edquot", "eacces"]


def gen(rng, tier, i):
    D = rng.choice([1, 2, 3])
    vps = []
    for _ in range(3):
        K = rng.choice([1, 2, 5, 400])
        vps.append([K, rng.randrange(1 << 20)])
    ops = []
    what = rng.choice(["vp", "vp", "vp", "vbmc"])
    for _ in range(rng.choice([2, 3, 5, 8])):
        f = None
        r = rng.random()
        if r < 0.35:
            f = {"kind": rng.choice(ERR), "u": rng.random(), "frac": rng.choice([0.0, 0.3, 0.9, 1.0]), "sticky": rng.random() < 0.5}
        elif r < 0.65:
            f = {"kind": rng.choice(["crash", "powerloss"]), "u": rng.random(), "frac": rng.choice([0.0, 0.3, 0.9, 1.0]), "after": rng.random() < 0.3}
        elif r < 0.75:
            f = {"kind": "unpicklable", "late": rng.random() < 0.5, "base": rng.random() < 0.3}
        elif r < 0.82:
            f = {"kind": "late-powerloss", "frac": rng.choice([0.0, 0.5])}
        ops.append({"obj": rng.randrange(3), "path": rng.randrange(rng.choice([1, 2])), "overwrite": rng.random() < 0.65, "fault": f, "style": rng.choice(["str", "path", "nosuffix", "link"])})
    return {"mode": "run", "what": what, "D": D, "vps": vps, "ops": ops, "seed": rng.randrange(1 << 30), "cut": rng.random(), "p": W.gen_problem(rng, D=D, noise=0, max_iter=2) if what == "vbmc" else None}


def make_vp(D, K, seed):
    from pyvbmc.parameter_transformer import ParameterTransformer
    from pyvbmc.variational_posterior import VariationalPosterior

    r = np.random.RandomState(seed)
    lb = np.full((1, D), -10.0)
    t = ParameterTransformer(D, lb, -lb)
    vp = VariationalPosterior(D, K, np.zeros((1, D)), parameter_transformer=t)
    vp.mu = r.randn(D, K)
    vp.sigma = np.exp(r.randn(1, K))
    vp.lambd = np.exp(r.randn(D, 1))
    vp.w = r.dirichlet(np.ones(K)).reshape(1, K)
    vp.stats = {"elbo": float(r.randn()), "seed": seed}
    return vp


class Unpicklable:
    def __init__(self, base):
        self.base = base

    def __reduce__(self):
        if self.base:
            raise KeyboardInterrupt("sim: interrupted while saving")
        raise RuntimeError("sim: cannot be serialised")


def state_digest(o):
    if type(o).__name__ == "VariationalPosterior":
        return "vp:" + digest({k: v for k, v in vars(o).items() if k != "_mode"})
    # what the object recorded and was given; loading selects the last recorded
    # iteration's posterior, surrogate and search state (compared in C03)
    s = {k: getattr(o, k, None) for k in ("D", "K", "x0", "lower_bounds", "upper_bounds", "plausible_lower_bounds", "plausible_upper_bounds", "iteration", "is_finished")}
    s["fl"] = W.fl_sig(o.function_logger)
    s["options"] = {k: repr(v) if callable(v) else v for k, v in o.options.items() if not hasattr(v, "__dict__") and not isinstance(v, list)}
    s["hist"] = [sim.hist_digest(o.iteration_history, k) for k in range(W.hist_len(o.iteration_history))]
    return "vbmc:" + digest(s)


def load(cls, path):
    """(digest, None) or (None, exception)"""
    DISK.reset(None)
    try:
        return state_digest(cls.load(path)), None
    except Exception as e:
        return None, e


def run(plan, rep):
    D = plan["D"]
    tmp = os.path.join(sim.scratch(), "d")
    os.makedirs(os.path.join(tmp, "real"))
    if plan["what"] == "vp":
        W.start_run(plan["seed"])
        from pyvbmc.variational_posterior import VariationalPosterior as cls

        objs = [make_vp(D, K, s) for K, s in plan["vps"]]
    else:
        from pyvbmc import VBMC as cls

        s = sim.Sim(plan["p"], rep)
        s.must_build()
        import copy

        a = copy.deepcopy(s.v)
        s.must()
        b = s.v
        s2 = sim.Sim(plan["p"], rep, name="t2", fresh=False)
        s2.must_build()
        objs = [a, b, s2.v]
    want = [state_digest(o) for o in objs]
    # model: path -> digest of the state it must load as (None: no file)
    model = {}
    names = {0: os.path.join(tmp, "one.pkl"), 1: os.path.join(tmp, "two.pkl")}
    counts = {}
    for i, op in enumerate(plan["ops"]):
        f = op["fault"]
        o = objs[op["obj"]]
        real = names[op["path"]]
        path = real
        if op["style"] == "path":
            path = Path(real)
        elif op["style"] == "nosuffix":
            path = real[:-4]
        elif op["style"] == "link" and op["overwrite"]:
            path = os.path.join(tmp, "real", f"l{op['path']}.pkl")
            if not os.path.lexists(path):
                os.symlink(real, path)
        before = model.get(real)
        others = {q: open(q, "rb").read() for q in names.values() if q != real and os.path.exists(q)}
        had = open(real, "rb").read() if os.path.exists(real) else None
        n_ops = 0
        if f and "u" in f:
            n_ops = dry(o, op["overwrite"], tmp, counts, op["obj"])
            f = dict(f, op=int(f["u"] * n_ops))
        where = f"save {i} ({plan['what']} {op['obj']}, overwrite={op['overwrite']}, fault {f and f['kind']} at {f and f.get('op')} of {n_ops})"
        out = attempt(o, path, op, f, tmp, rep)
        got, err = load(cls, real) if os.path.lexists(real) else (None, FileNotFoundError())
        exists = os.path.lexists(real)
        rep.count("saves")
        for q, bts in others.items():
            rep.check(os.path.exists(q) and open(q, "rb").read() == bts, "other-file-changed", where)
        new = want[op["obj"]]
        if state_digest(o) != new:
            rep.bad("save-changes-object", where)
            return
        if not op["overwrite"] and had is not None:
            rep.check(out["result"] != "ok", "overwrites-without-permission", where)
            rep.check(exists and open(real, "rb").read() == had, "overwrites-without-permission", f"{where}: existing file changed")
        elif out["result"] == "ok":
            if not rep.check(got == new, "saved-state-differs", f"{where}: reported success, loads as {got} {err!r}, expected {new}"):
                return
            model[real] = new
        elif out["result"] == "error":
            if before is not None:
                if not rep.check(got == before or got == new, "save-destroys-file", f"{where}: failed with {out['err']}, now {got} {err!r}"):
                    return
                model[real] = got
            else:
                if not rep.check(not exists or got == new, "partial-file-left", f"{where}: failed with {out['err']}, a file exists that loads as {got} {err!r}"):
                    return
                model[real] = got if exists else None
                # nothing may block a retry
                if not exists:
                    r = attempt(o, real, dict(op, overwrite=False), None, tmp, rep)
                    got, err = load(cls, real)
                    if not rep.check(r["result"] == "ok" and got == new, "retry-blocked", f"{where}: retry gave {r}, loads as {got} {err!r}"):
                        return
                    model[real] = new
        else:  # crashed
            if before is not None:
                if not rep.check(got == before or got == new, "save-destroys-file", f"{where}: process died, now {got} {err!r}"):
                    return
                model[real] = got
            else:
                if not rep.check(not exists or got is None or got == new, "different-state-loaded", f"{where}: process died, loads as {got}"):
                    return
                if exists and got is None:
                    os.unlink(real)
                model[real] = got
        if f and f["kind"] in ERR + ["unpicklable"] and out.get("fired"):
            rep.check(out["result"] == "error" or got == new, "failure-not-reported", where)
    # truncated files never load as anything
    for real, d in model.items():
        if d is None or rep.violations:
            continue
        data = open(real, "rb").read()
        for u in (plan["cut"], plan["cut"] * 0.1, 1 - 1 / len(data)):
            t = os.path.join(tmp, "cut.pkl")
            with open(t, "wb") as h:
                h.write(data[: int(u * len(data))])
            got, err = load(cls, t)
            rep.fault("truncated")
            rep.check(got is None, "truncated-file-loaded", f"{int(u * len(data))} of {len(data)} bytes load as {got}")
    rep.trace((plan["what"], [(o["fault"] and o["fault"]["kind"], o["overwrite"], o["path"]) for o in plan["ops"]], sorted((os.path.basename(k), v is not None) for k, v in model.items())))


def dry(o, overwrite, tmp, counts, key):
    """Number of file operations this save takes."""
    k = (key, overwrite)
    if k not in counts:
        d = os.path.join(os.path.dirname(tmp), "dry")
        os.makedirs(d, exist_ok=True)
        q = os.path.join(d, f"{len(counts)}.pkl")
        if overwrite:
            o.save(q)
        DISK.reset(d)
        o.save(q, overwrite=overwrite)
        counts[k] = DISK.n
        DISK.reset(None)
    return counts[k]


def attempt(o, path, op, f, tmp, rep):
    """One save under fault f: {"result": ok|error|crash}"""
    kind = f and f["kind"]
    if kind == "unpicklable":
        bad = Unpicklable(f["base"])
        st = o.stats if hasattr(o, "sigma") else o.optim_state
        name = "zz_sim" if f["late"] else "0_sim"
        if f["late"]:
            st[name] = bad
        else:
            items = dict(st)
            st.clear()
            st[name] = bad
            st.update(items)
        rep.fault("unpicklable")
        try:
            o.save(path, overwrite=op["overwrite"])
            return {"result": "ok", "fired": True}
        except BaseException as e:
            return {"result": "error", "err": f"{type(e).__name__}: {e}", "fired": not isinstance(e, FileExistsError)}
        finally:
            del st[name]
    if kind in ("crash", "powerloss", "late-powerloss"):
        return in_process(o, path, op, f, tmp, rep)
    DISK.reset(tmp, [dict(f)] if f else [])
    try:
        o.save(path, overwrite=op["overwrite"])
        r = {"result": "ok"}
    except Exception as e:
        r = {"result": "error", "err": f"{type(e).__name__}: {e}"}
    r["fired"] = bool(DISK.fired)
    for x in DISK.fired:
        rep.fault(f"{x[1]}@{x[2]}")
    # handles a failed save left open must not write later
    import gc

    gc.collect()
    DISK.reset(None)
    return r


def in_process(o, path, op, f, tmp, rep):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = {"result": "error", "err": "?"}

        def die(ff):
            seams.REAL_OS["write"](w, json.dumps({"result": "crash", "at": DISK.trace[-1][0] if DISK.trace else "-"}).encode())
            os._exit(77)

        try:
            DISK.reset(tmp, [dict(f)] if "op" in f else [], crash=die)
            try:
                o.save(path, overwrite=op["overwrite"])
                code = {"result": "ok"}
                if f["kind"] in ("late-powerloss", "powerloss"):
                    # the save was reported, then the power fails
                    seams.REAL_OS["write"](w, json.dumps({"result": "ok", "late": True}).encode())
                    DISK.crash_cb = lambda ff: os._exit(78)
                    DISK.die({"kind": "powerloss", "frac": f["frac"]})
            except Exception as e:
                code = {"result": "error", "err": f"{type(e).__name__}: {e}"}
            seams.REAL_OS["write"](w, json.dumps(code).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    out = json.loads(data.decode())
    if out["result"] == "crash":
        rep.fault(f"{f['kind']}@{out['at']}")
    elif out.get("late"):
        rep.fault("powerloss@after")
    return out
