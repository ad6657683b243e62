"""Histories of the evaluation record driven directly, against a reference.

The reference is a list of points with the observations made at each; every
operation of the plan is applied to the real FunctionLogger and to it.
Violations are tagged by the property they belong to:
  ledger (C01), error (C02), share (C18), fuse (C14), time (C15)
"""
import copy
import math

import numpy as np

from simvbmc import seams
from simvbmc import world as W
from simvbmc.canon import digest, short

TRANSFORMS = ["none", "u", "b", "m", "rot", "brot"]
GOOD_REPS = ["float", "npfloat", "arr0", "arr1", "arr11", "np32", "int", "cplx0", "list1"]
SHAPES = ["1d", "row", "view"]


def gen(rng, n_ops=None, bias=None):
    D = rng.choice([1, 1, 2, 3])
    c = dict(
        mode="unit",
        D=D,
        noise=rng.choice([0, 0, 1, 2, 2]),
        cache=rng.choice([1, 1, 2, 3, 10, 500]),
        tr=rng.choice(TRANSFORMS),
        trseed=rng.randrange(1 << 20),
        npts=rng.choice([1, 2, 3, 6, 12]),
        ptseed=rng.randrange(1 << 20),
        tick=rng.choice([0.0, 0.0, 2.0**-12]),
        perm=rng.randrange(1 << 20),
        near=rng.choice([0, 0, 0, 1, 2, 3]),
    )
    n = n_ops or rng.choice([4, 8, 15, 30, 60])
    vs = rng.choice([1.0, 1.0, 1e-3, 1e6])
    off = rng.choice([0.0, -1500.0, 1e6])
    pf = rng.choice([0.0, 0.1, 0.3]) if bias != "healthy" else 0.0
    padd = rng.choice([0.0, 0.2, 0.5])
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.04:
            ops.append(["finalize"])
        elif r < 0.07:
            ops.append(["copy"])
        elif r < 0.07 + pf:
            kinds = list(W.FAULT_EXC) + [k for k in W.FAULT_VAL if k != "string"]
            if c["noise"] == 2:
                kinds += list(W.FAULT_SD)
            how = "call" if rng.random() > padd else "add"
            k = rng.choice(kinds)
            if how == "add":
                k = rng.choice(["nan", "inf", "-inf", "complex", "vector", "none"] + (["sd0", "sdneg", "sdnan", "sdinf"] if c["noise"] else []))
            ops.append(["bad", how, rng.randrange(c["npts"]), k, rng.choice(SHAPES), rng.choice([0.0, 0.125, 2.0])])
        else:
            y = off + vs * rng.gauss(0, 1)
            sd = 10 ** rng.uniform(-3, 2)
            ops.append(
                [
                    "add" if rng.random() < padd else "call",
                    rng.randrange(c["npts"]),
                    y,
                    sd,
                    rng.choice(GOOD_REPS),
                    rng.choice(SHAPES),
                    rng.choice([0.0, 0.125, 3.0, 4096.0]),  # latency
                    rng.random() < 0.25,  # target scribbles on its argument
                    rng.choice([None, None, 0.5]),  # time given to add()
                ]
            )
    c["ops"] = ops
    return c


def transformer(c):
    from pyvbmc.parameter_transformer import ParameterTransformer

    D = c["D"]
    k = c["tr"]
    r = np.random.RandomState(c["trseed"])
    if k == "none":
        return None
    lb = np.full((1, D), -np.inf)
    ub = np.full((1, D), np.inf)
    bounded = np.zeros(D, bool)
    if k in ("b", "brot"):
        bounded[:] = True
    elif k == "m":
        bounded[:] = r.rand(D) < 0.6
    lb[0, bounded] = -1.0 - r.rand(bounded.sum()) * 3
    ub[0, bounded] = 1.0 + r.rand(bounded.sum()) * 9
    plb = np.where(np.isfinite(lb), lb + 0.2 * (ub - lb), -2.0)
    pub = np.where(np.isfinite(ub), ub - 0.2 * (ub - lb), 3.0)
    t = ParameterTransformer(D, lb, ub, plb, pub)
    if k in ("rot", "brot") and D > 1:
        q, _ = np.linalg.qr(r.randn(D, D))
        t.R_mat = q
        t.scale = np.exp(r.randn(D) * 0.3)
    return t


def points(c):
    r = np.random.RandomState(c["ptseed"])
    P = r.randn(c["npts"], c["D"]) * 0.8
    near = c.get("near", 0)
    for i in range(1, len(P)):
        # different points which a tolerant comparison would take for one
        if near == 1 and r.rand() < 0.6:
            P[i] = P[i - 1] * (1 + 10.0 ** r.uniform(-13, -6))
        elif near == 2 and r.rand() < 0.6:
            P[i] = P[r.randint(i)]
            d = r.randint(c["D"])
            P[i, d] = np.nextafter(P[i, d], 9.0) if r.rand() < 0.5 else r.randn() * 1e-9
        elif near == 3:
            P[i] = np.where(r.rand(c["D"]) < 0.5, P[i - 1], P[i])
    if len({tuple(x) for x in P}) < len(P):
        P = r.randn(c["npts"], c["D"]) * 0.8
    return P


class Ref:
    def __init__(self):
        self.rows = []  # dict(x, xo, obs=[(y, sd, t)])
        self.calls = 0
        self.adds = 0
        self.T = 0.0
        self.tvalid = True

    def row(self, x):
        for r in self.rows:
            if np.array_equal(r["x"], x):
                return r
        r = dict(x=x.copy(), xo=None, obs=[], idx=len(self.rows))
        self.rows.append(r)
        return r


def fused(obs, noise):
    if len(obs) == 1:
        return obs[0][0], obs[0][1]
    if noise:
        tau = [1 / o[1] ** 2 for o in obs]
        s = math.fsum(tau)
        y = math.fsum(t * o[0] for t, o in zip(tau, obs)) / s
        return y, 1 / math.sqrt(s)
    return math.fsum(o[0] for o in obs) / len(obs), None


class Driver:
    """The target of the logger: returns what the current operation says."""

    def __init__(self, c):
        self.c = c
        self.op = None
        self.got = None
        self.n = 0

    def __call__(self, x):
        self.n += 1
        self.got = np.array(x, dtype=float).copy()
        self.gshape = np.shape(x)
        op = self.op
        if op[0] == "bad":
            seams.CLOCK.advance(op[5])
            k = op[3]
            if k in W.FAULT_EXC:
                self.err = W.FAULT_EXC[k]()
                raise self.err
            v, sd = 1.25, 0.5
            if k in W.FAULT_SD:
                sd = W.FAULT_SD[k]
            else:
                v = W.FAULT_VAL[k]
                v = {"vector": np.array([1.0, 2.0]), "empty": np.array([]), "tuple": (1.0, 2.0, 3.0)}.get(v, v) if isinstance(v, str) else v
            if self.c["noise"] == 2:
                return v if sd == "missing" else (v, sd)
            return v
        _, _, y, sd, rep, _, lat, mut, _ = op
        seams.CLOCK.advance(lat)
        out = represent(y, rep)
        if mut:
            x *= 7.0
            x -= 3.0
        return (out, sd) if self.c["noise"] == 2 else out


def represent(y, rep):
    if rep == "npfloat":
        return np.float64(y)
    if rep == "arr0":
        return np.array(y)
    if rep == "arr1":
        return np.array([y])
    if rep == "arr11":
        return np.array([[y]])
    if rep == "np32":
        return np.float32(y)
    if rep == "int":
        return int(round(y))
    if rep == "cplx0":
        return complex(y, 0.0)
    if rep == "list1":
        return [y]
    return float(y)


def meant(y, rep):
    if rep == "np32":
        return float(np.float32(y))
    if rep == "int":
        return float(int(round(y)))
    return float(y)


def as_shape(x, sh):
    if sh == "row":
        return x.reshape(1, -1).copy()
    if sh == "view":
        big = np.full((3, x.size), 9.0)
        big[1] = x
        return big[1]
    return x.copy()


def state(fl):
    return digest({"sig": W.fl_sig(fl, times=True)})


def run(c, rep, want, order=None, check_every=True):
    """Execute plan c; report violations whose tag is in `want`."""
    from pyvbmc.function_logger import FunctionLogger

    def bad(tag, kind, detail):
        rep.count("checks")
        if tag in want:
            rep.bad(kind, detail)

    W.start_run(c["ptseed"], clock=dict(tick=c["tick"]))
    tr = transformer(c)
    P = points(c)
    drv = Driver(c)
    fl = FunctionLogger(drv, c["D"], c["noise"] > 0, c["noise"], cache_size=c["cache"], parameter_transformer=tr)
    ref = Ref()
    frozen = []  # (copy of logger, its digest)
    ops = c["ops"] if order is None else [c["ops"][i] for i in order]
    for i, op in enumerate(ops):
        drv.op = op
        if op[0] == "finalize":
            fl.finalize()
            rep.fault("finalize")
        elif op[0] == "copy":
            old, fl = fl, copy.deepcopy(fl)
            fl.fun = drv
            frozen.append((old, state(old)))
            del frozen[:-3]
        elif op[0] == "bad":
            before = state(fl)
            x = as_shape(P[op[2]], op[4])
            x0 = x.copy()
            k = op[3]
            err = None
            rep.fault(k)
            try:
                if op[1] == "add":
                    v, sd = 1.0, (0.5 if c["noise"] else None)
                    if k.startswith("sd"):
                        sd = W.FAULT_SD[k]
                    else:
                        v = {"vector": np.array([1.0, 2.0]), "none": None}.get(k, W.FAULT_VAL.get(k))
                    fl.add(x, v, sd)
                else:
                    fl(x)
            except BaseException as e:
                err = e
            if err is None:
                bad("error", "accepted-invalid", f"op {i} {op}: invalid outcome {k} accepted")
                bad("ledger", "accepted-invalid", f"op {i} {op}: invalid outcome {k} accepted")
                return None
            if op[1] == "call":
                check_error(bad, k, err, drv, i, op)
            elif not isinstance(err, (ValueError, TypeError)):
                bad("error", "wrong-error", f"op {i} {op}: {type(err).__name__}: {err}")
            if state(fl) != before:
                bad("ledger", "failed-call-left-trace", f"op {i} {op}: state changed by a rejected evaluation")
                bad("error", "failed-call-left-trace", f"op {i} {op}: state changed by a rejected evaluation")
            if not np.array_equal(x, x0):
                bad("share", "input-modified", f"op {i} {op}")
        else:
            x = as_shape(P[op[1]], op[5])
            x0 = x.copy()
            y = meant(op[2], op[4])
            sd = op[3] if c["noise"] == 2 else (1.0 if c["noise"] else None)
            t = None
            try:
                if op[0] == "call":
                    n0 = drv.n
                    before_now = seams.CLOCK.now
                    out = fl(x)
                    if drv.n != n0 + 1:
                        bad("ledger", "not-called-once", f"op {i}: target called {drv.n - n0} times")
                    t = op[6]
                    ref.calls += 1
                    xo = drv.got
                    if drv.gshape != (c["D"],):
                        bad("ledger", "argument-shape", f"op {i}: shape {drv.gshape}")
                else:
                    y = float(op[2])
                    if c["noise"] == 2:
                        out = fl.add(x, y, op[3]) if op[8] is None else fl.add(x, y, op[3], op[8])
                    elif op[8] is None:
                        out = fl.add(x, y)
                    else:
                        out = fl.add(x, y, None, op[8])
                    t = op[8]
                    ref.adds += 1
                    xo = None
            except BaseException as e:
                for tag in ("ledger", "error", "fuse"):
                    bad(tag, "healthy-evaluation-failed", f"op {i} {op}: {type(e).__name__}: {e}")
                return None
            if not np.array_equal(x, x0):
                bad("share", "input-modified", f"op {i} {op}")
            x *= 0.0  # the caller reuses its array
            r = ref.row(P[op[1]])
            if r["xo"] is None:
                if xo is None:
                    xo = P[op[1]] if tr is None else tr.inverse(P[op[1]].reshape(1, -1))[0]
                r["xo"] = xo.copy()
            r["obs"].append((y, sd, t))
            if t is not None:
                ref.T += t
            # returned values
            rep.count("checks")
            if out[2] != r["idx"]:
                bad("ledger", "returned-index", f"op {i}: index {out[2]} expected {r["idx"]}")
            fy, _ = fused(r["obs"], c["noise"])
            ly = logjac(tr, P[op[1]])
            if not close(float(out[0]), fy + ly, r["obs"], c["noise"]):
                bad("fuse", "returned-value", f"op {i}: returned {out[0]}, expected {fy + ly}")
                if len(r["obs"]) == 1:
                    bad("ledger", "returned-value", f"op {i}: returned {out[0]}, expected {fy + ly}")
        if check_every or i == len(ops) - 1:
            if not compare(fl, ref, c, tr, P, bad, i):
                return None
        for old, dg in frozen:
            if state(old) != dg:
                bad("ledger", "copy-shares-state", f"op {i}: a deep copy changed with the original")
    rep.sim += seams.CLOCK.advanced
    rep.trace((c["tr"], c["noise"], [(len(r["obs"])) for r in ref.rows], ref.calls, ref.adds))
    rep.event(state(fl))
    return fl, ref, tr, P


def logjac(tr, x):
    if tr is None:
        return 0.0
    return float(np.ravel(tr.log_abs_det_jacobian(x.reshape(1, -1)))[0])


def close(a, b, obs, noise):
    scale = max([abs(o[0]) for o in obs] + [1e-300])
    cond = len(obs)
    return abs(a - b) <= 1e-9 * scale * cond + 1e-10 * abs(b) + 1e-12


def check_error(bad, k, err, drv, i, op):
    if k in W.FAULT_EXC:
        if err is not drv.err and type(err) is not type(drv.err):
            bad("error", "exception-replaced", f"op {i} {op}: got {type(err).__name__}: {err}")
            return
        orig = W.FAULT_EXC[k]().args
        if tuple(err.args[: len(orig)]) != tuple(orig):
            bad("error", "exception-arguments-lost", f"op {i} {op}: args {err.args!r}")
        if isinstance(err, Exception) and not mentions(err.args, drv.got):
            bad("error", "input-not-reported", f"op {i} {op}: args {short(err.args)} input {drv.got}")
    elif not isinstance(err, ValueError):
        # objects that do not even unpack or convert raise their own error
        if k in ("none", "tuple", "sdmissing", "sdnone") and isinstance(err, TypeError):
            return
        bad("error", "wrong-error", f"op {i} {op}: {k} gave {type(err).__name__}: {err}")


def mentions(args, x):
    """Does the message contain the numbers of x (to printing precision)?"""
    import re

    nums = []
    for a in args:
        for m in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", str(a)):
            nums.append(float(m))
    # numbers are printed relative to the largest element
    big = max(np.max(np.abs(x)), 1e-300)
    for v in np.ravel(x):
        if not any(abs(v - n) <= 1e-4 * max(abs(v), 1e-4 * big) for n in nums):
            return False
    return True


def compare(fl, ref, c, tr, P, bad, i):
    n = fl.Xn + 1
    ok = True

    def b(tag, kind, detail):
        nonlocal ok
        ok = False
        bad(tag, kind, detail)

    if fl.func_count != ref.calls:
        b("ledger", "evaluation-count", f"op {i}: func_count {fl.func_count}, successful calls {ref.calls}")
    if fl.cache_count != ref.adds:
        b("ledger", "cache-count", f"op {i}: cache_count {fl.cache_count}, added {ref.adds}")
    if n != len(ref.rows):
        b("ledger", "number-of-points", f"op {i}: {n} rows, {len(ref.rows)} distinct points")
        return False
    arrs = dict(X_orig=fl.X_orig, y_orig=fl.y_orig, X=fl.X, y=fl.y, n_evals=fl.n_evals, X_flag=fl.X_flag)
    for k, a in arrs.items():
        if len(a) < n:
            b("ledger", "array-length", f"op {i}: {k} has {len(a)} rows for {n} points")
            return False
    if len({len(a) for a in arrs.values()}) > 1:
        b("ledger", "array-length", f"op {i}: {({k: len(a) for k, a in arrs.items()})}")
    tot = sum(len(r["obs"]) for r in ref.rows)
    if int(np.sum(fl.n_evals)) != tot:
        b("ledger", "observations-lost", f"op {i}: n_evals sums to {int(np.sum(fl.n_evals))}, {tot} observations")
    if len(fl.X_flag) > n and np.any(fl.X_flag[n:]):
        b("ledger", "unused-row-active", f"op {i}")
    ymax = -np.inf
    for j, r in enumerate(ref.rows):
        first = len(r["obs"]) == 1
        tag = "ledger" if first else "fuse"
        fy, fs = fused(r["obs"], c["noise"])
        if not np.array_equal(fl.X_orig[j], r["xo"]):
            b("ledger", "wrong-location", f"op {i} row {j}: {fl.X_orig[j]} vs received {r['xo']}")
        if not np.array_equal(fl.X[j], r["x"]):
            b("ledger", "wrong-working-location", f"op {i} row {j}: {fl.X[j]} vs {r['x']}")
        if int(fl.n_evals[j].item() if hasattr(fl.n_evals[j], "item") else fl.n_evals[j]) != len(r["obs"]):
            b("fuse", "observation-count", f"op {i} row {j}: n_evals {fl.n_evals[j]} for {len(r['obs'])} observations")
            b("ledger", "observation-count", f"op {i} row {j}: n_evals {fl.n_evals[j]} for {len(r['obs'])} observations")
        yo = float(fl.y_orig[j, 0])
        if first and yo != fy:
            b("ledger", "wrong-value", f"op {i} row {j}: y_orig {yo!r}, returned value {fy!r}")
        elif not close(yo, fy, r["obs"], c["noise"]):
            b(tag, "wrong-fused-value", f"op {i} row {j}: y_orig {yo!r}, expected {fy!r} from {short(r['obs'])}")
            b("ledger", "wrong-fused-value", f"op {i} row {j}: y_orig {yo!r}, expected {fy!r}")
        if c["noise"]:
            s = float(fl.S[j, 0])
            if abs(s - fs) > 1e-9 * fs * len(r["obs"]):
                b(tag, "wrong-noise", f"op {i} row {j}: S {s!r}, expected {fs!r} from {short(r['obs'])}")
        ly = logjac(tr, r["x"])
        yt = float(fl.y[j, 0])
        if not close(yt, fy + ly, r["obs"], c["noise"]):
            b(tag, "wrong-working-value", f"op {i} row {j}: y {yt!r}, expected {fy + ly!r}")
        if not bool(fl.X_flag[j]):
            b("ledger", "new-point-inactive", f"op {i} row {j}")
        ymax = max(ymax, yt)
        # time
        ts = [o[2] for o in r["obs"]]
        t = float(fl.fun_eval_time[j, 0])
        if all(v is not None for v in ts):
            e = math.fsum(ts) / len(ts)
            slack = 1e-9 * (1 + e) + (0 if c["tick"] == 0 else 4 * c["tick"]) + 1e-6
            if not abs(t - e) <= slack:
                b("time", "evaluation-time", f"op {i} row {j}: {t} expected {e}")
        elif len(ts) == 1 and not math.isnan(t):
            b("time", "evaluation-time", f"op {i} row {j}: {t} for a value without a time")
    if ref.rows and abs(float(fl.y_max) - ymax) > 0:
        b("ledger", "best-value", f"op {i}: y_max {fl.y_max}, best recorded {ymax}")
    slack = 1e-6 * (1 + ref.calls) + 1e-9 * ref.T + 4 * c["tick"] * ref.calls
    if abs(fl.total_fun_eval_time - ref.T) > slack:
        b("time", "total-time", f"op {i}: total {fl.total_fun_eval_time}, successful calls took {ref.T}")
    return ok


def final_by_point(fl, ref):
    out = {}
    for j in range(fl.Xn + 1):
        out[fl.X[j].tobytes()] = (
            float(fl.y_orig[j, 0]),
            float(fl.y[j, 0]),
            float(fl.S[j, 0]) if fl.noise_flag else 0.0,
            int(np.ravel(fl.n_evals[j])[0]),
        )
    return out


def order_free(c, rep, base):
    """Re-run with the observations of different points interleaved otherwise."""
    import random

    if base is None:
        return
    r = random.Random(c["perm"])
    ops = c["ops"]
    groups = {}
    for i, op in enumerate(ops):
        if op[0] in ("call", "add"):
            groups.setdefault(op[1], []).append(i)
    queues = [list(g) for g in groups.values()]
    order = []
    while queues:
        q = r.choice(queues)
        order.append(q.pop(0))
        if not q:
            queues.remove(q)
    if not order:
        return
    fl0, ref0 = base[0], base[1]
    a = final_by_point(fl0, ref0)
    res = run(c, rep, set(), order=order, check_every=False)
    if res is None:
        return
    b = final_by_point(res[0], res[1])
    rep.count("checks")
    if set(a) != set(b):
        rep.bad("order-dependent", f"points differ: {len(a)} vs {len(b)}")
        return
    for k in a:
        for u, v in zip(a[k], b[k]):
            if abs(u - v) > 1e-8 * max(abs(u), abs(v), 1.0):
                rep.bad("order-dependent", f"{a[k]} vs {b[k]}")
                return
