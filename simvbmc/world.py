"""The simulated world around PyVBMC: problems, targets, options, observation.

Everything here is built from a plan (plain JSON), so that one plan is one
exactly repeatable execution.
"""
import copy
import hashlib
import io
import logging
import math
import os
import random
import struct
import sys

import numpy as np

from simvbmc import seams
from simvbmc.canon import digest, first_diff, same, short

INF = float("inf")


# ------------------------------------------------------------------ problems
class Lin:
    """Picklable K -> a*K + b, as a user would pass for entropy sample counts."""

    def __init__(self, a, b=0):
        self.a, self.b = a, b

    def __call__(self, *n, **kw):
        (K,) = n or kw.values()
        return self.a * K + self.b

    def __repr__(self):
        return f"Lin({self.a},{self.b})"


BASE_OPTS = dict(
    display="off",
    ns_search=64,
    ns_gp_max=0,
    gp_train_n_init=9,
    gp_train_n_init_final=9,
    gp_sample_thin=1,
    ns_elbo={"lin": [0, 2]},
    elbo_starts=1,
    ns_ent={"lin": [4, 0]},
    ns_ent_fine={"lin": [8, 0]},
    ns_ent_boost={"lin": [4, 0]},
    ns_ent_fine_boost={"lin": [8, 0]},
    ns_ent_active={"lin": [4, 0]},
    ns_ent_fine_active={"lin": [8, 0]},
    max_iter_stochastic=30,
    search_optimizer="none",
    min_final_components=3,
    max_iter=8,
    max_fun_evals=200,
    min_iter=0,
    min_fun_evals=0,
    tol_stable_count=1000,
    active_importance_sampling_mcmc_samples=10,
    active_importance_sampling_vp_samples=10,
    active_importance_sampling_box_samples=10,
)


def gen_problem(rng, **want):
    """A random inference problem; `want` pins chosen aspects."""
    D = want.get("D") or rng.choice([1, 2, 2, 2, 2, 3])
    style = want.get("bounds") or rng.choice(["u", "b", "b", "m"])
    kinds = []
    for d in range(D):
        kinds.append({"u": "u", "b": "b", "m": rng.choice("ub")}[style])
    integer = bool(want.get("integer", False))
    p = dict(D=D, lb=[], ub=[], plb=[], pub=[], mu=[], s=[])
    for d in range(D):
        sc = 10 ** rng.uniform(-1.5, 2.0)
        c = rng.choice([0.0, 0.0, rng.uniform(-5, 5) * sc])
        plb, pub = c - sc * rng.uniform(0.7, 2.0), c + sc * rng.uniform(0.7, 2.0)
        if kinds[d] == "b":
            if integer and (d == 0 or rng.random() < 0.3):
                n = rng.choice([3, 6, 20])
                a = rng.choice([0, -2, 5])
                lb, ub = a - 0.5, a + n + 0.5
                plb, pub = lb + 0.2 * (ub - lb), ub - 0.2 * (ub - lb)
                kinds[d] = "i"
            else:
                w = pub - plb
                lb = plb - w * rng.choice([0.05, 0.5, 3.0])
                ub = pub + w * rng.choice([0.05, 0.5, 3.0])
        else:
            lb, ub = None, None
        p["lb"].append(lb)
        p["ub"].append(ub)
        p["plb"].append(plb)
        p["pub"].append(pub)
        p["mu"].append(plb + (pub - plb) * rng.uniform(0.25, 0.75))
        p["s"].append((pub - plb) * rng.choice([0.08, 0.2, 0.35, 0.6]))
    p["kinds"] = kinds
    p["target"] = want.get("target") or rng.choice(
        ["gauss", "gauss", "gauss", "cauchy", "banana", "bimodal", "abs", "cliff"]
    )
    p["rho"] = rng.choice([0.0, 0.0, 0.6, 0.9, -0.8])
    p["offset"] = rng.choice([0.0, -3.0, 100.0, -1500.0])
    p["noise"] = want["noise"] if "noise" in want else rng.choice([0, 0, 0, 0, 1, 2])
    p["noise_sd"] = rng.choice([0.05, 0.3, 1.5])
    p["noise_seed"] = rng.randrange(1 << 30)
    p["prior"] = want["prior"] if "prior" in want else rng.choice([None, None, None, "fun", "obj", "scipy"])
    p["npseed"] = rng.randrange(1 << 31)
    # starting points (inside the plausible box)
    nx = want.get("nx0") or rng.choice([1, 1, 1, 2, 4])
    x0 = []
    for _ in range(nx):
        x0.append([p["plb"][d] + (p["pub"][d] - p["plb"][d]) * rng.uniform(0.1, 0.9) for d in range(D)])
    p["x0"] = x0
    p["opts"] = gen_opts(rng, p, **want)
    if integer:
        p["opts"]["integer_vars"] = {"arr": [1.0 if k == "i" else 0.0 for k in kinds]}
    return p


def gen_opts(rng, p, **want):
    o = {}
    o["max_iter"] = want.get("max_iter") or rng.choice([5, 6, 8, 10, 12])
    o["fun_evals_per_iter"] = rng.choice([1, 2, 3, 5, 5])
    o["fun_eval_start"] = rng.choice([max(4, p["D"] + 2), 6, 10])
    o["bounded_transform"] = rng.choice(["probit", "logit", "student4"])
    o["ns_gp_max"] = rng.choice([0, 0, 0, 3, 6])
    if rng.random() < 0.3:
        o["search_optimizer"] = "cmaes"
        o["search_max_fun_evals"] = 12
    if rng.random() < 0.3:
        o["cache_size"] = rng.choice([1, 3, 7])
    if rng.random() < 0.15:
        o["warmup"] = False
    else:
        # leave warm-up early, by several routes
        o["tol_stable_warmup"] = rng.choice([5, 10, 15])
        o["warmup_no_impro_threshold"] = rng.choice([3, 10, 30])
        o["stop_warmup_reliability"] = rng.choice([100, INF, 0.5])
        o["warmup_keep_threshold"] = rng.choice([2.0, 10.0, 40.0])
        o["warmup_keep_threshold_false_alarm"] = rng.choice([None, 20.0, 3.0])
        if rng.random() < 0.4:
            o["skip_active_sampling_after_warmup"] = True
    wm = want.get("warp", rng.choice(["often", "often", "never", "default"]))
    if wm == "often":
        o["warp_min_k"] = 1
        o["warp_tol_reliability"] = INF
        o["warp_every_iters"] = 1
        o["incremental_warp_delay"] = rng.random() < 0.5
        o["warp_tol_improvement"] = rng.choice([0.1, -INF, -5.0, 3.0, INF])
        if o["warp_tol_improvement"] == -INF:
            o["warp_tol_sd_multiplier"] = INF
            o["warp_tol_sd_base"] = INF
        if rng.random() < 0.15:
            o["warp_undo_check"] = False
        if rng.random() < 0.3:
            o["warp_roto_corr_thresh"] = 0.5
        if rng.random() < 0.2:
            o["warp_cov_reg"] = 0.3
    elif wm == "never":
        o["warp_rotoscaling"] = False
    if rng.random() < 0.2:
        o["init_design"] = "narrow"
    if rng.random() < 0.15:
        o["gp_mean_fun"] = "const"
    if rng.random() < 0.2:
        o["k_warmup"] = rng.choice([1, 3, 4])
    if rng.random() < 0.2:
        o["do_final_boost"] = False
    if rng.random() < 0.2:
        o["min_final_components"] = rng.choice([1, 6])
    if rng.random() < 0.2:
        o["tol_weight"] = rng.choice([0.0, 0.1])
    if rng.random() < 0.15:
        o["variable_weights"] = False
    if rng.random() < 0.15:
        o["heavy_tail_search_frac"] = 0.1
        o["mvn_search_frac"] = 0.1
        o["hpd_search_frac"] = 0.3
    if rng.random() < 0.15:
        o["search_cache_frac"] = 0.2
    if rng.random() < 0.15:
        o["separate_search_gp"] = True
    if rng.random() < 0.1:
        o["always_refit_vp"] = True
    if rng.random() < 0.15:
        o["entropy_switch"] = True
        o["det_entropy_min_d"] = 1
        o["tol_stable_entropy_iters"] = rng.choice([2, 6])
    if rng.random() < 0.25:
        o["tol_stable_count"] = rng.choice([5, 10, 20])
        o["tol_sd"] = 2.0
        o["tol_skl"] = 1.0
        o["tol_improvement"] = rng.choice([0.5, INF])
    if rng.random() < 0.2:
        o["active_sample_gp_update"] = True
        if rng.random() < 0.5:
            o["active_sample_vp_update"] = True
    acqs = ["log", "plain", "vanilla"]
    if p["noise"] == 2:
        acqs += ["viqr", "noisy", "imiqr"]
        o["active_sample_gp_update"] = rng.random() < 0.3
        o["active_sample_vp_update"] = rng.random() < 0.3
    elif p["noise"] == 1:
        acqs += ["noisy"]
    a = rng.choice(acqs) if rng.random() < 0.5 else "log"
    if p["noise"] == 2 or a != "log":
        o["search_acq_fcn"] = {"acq": [a] if rng.random() < 0.8 else [a, "log"]}
    return o


def fix_floats(o):
    """JSON has no infinity: decode the strings used for it."""
    if isinstance(o, dict):
        return {k: fix_floats(v) for k, v in o.items()}
    if isinstance(o, list):
        return [fix_floats(v) for v in o]
    if o == "__inf__":
        return INF
    if o == "__-inf__":
        return -INF
    if o == "__nan__":
        return float("nan")
    return o


def enc_floats(o):
    if isinstance(o, dict):
        return {k: enc_floats(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc_floats(v) for v in o]
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        o = o.item()
    if isinstance(o, float):
        if o == INF:
            return "__inf__"
        if o == -INF:
            return "__-inf__"
        if o != o:
            return "__nan__"
    return o


def real_options(opts):
    """Plan options -> the dict a user would pass."""
    from pyvbmc import acquisition_functions as AF

    acq = {
        "log": AF.AcqFcnLog,
        "plain": AF.AcqFcn,
        "vanilla": AF.AcqFcnVanilla,
        "noisy": AF.AcqFcnNoisy,
        "viqr": AF.AcqFcnVIQR,
        "imiqr": AF.AcqFcnIMIQR,
    }
    merged = dict(BASE_OPTS)
    merged.update(opts)
    out = {}
    for k, v in merged.items():
        if isinstance(v, dict):
            if "lin" in v:
                v = Lin(*v["lin"])
            elif "acq" in v:
                v = [acq[a]() for a in v["acq"]]
            elif "arr" in v:
                v = np.array(v["arr"], dtype=float)
        out[k] = v
    return out


# ------------------------------------------------------------------- targets
def _h(seed, x, salt=b""):
    d = hashlib.blake2b(struct.pack("<q", seed) + salt + np.ascontiguousarray(x, dtype=float).tobytes(), digest_size=16).digest()
    a, b = struct.unpack("<QQ", d)
    u1 = (a + 1) / (2**64 + 2)
    u2 = b / 2**64
    return math.sqrt(-2 * math.log(u1)) * math.cos(2 * math.pi * u2)


def base_value(p, x):
    """The noiseless log density of problem p at x (original space)."""
    z = (np.asarray(x, dtype=float) - np.array(p["mu"])) / np.array(p["s"])
    k = p["target"]
    if p["D"] > 1 and p["rho"]:
        r = p["rho"]
        z = z.copy()
        z[1] = (z[1] - r * z[0]) / math.sqrt(1 - r * r)
    if k == "gauss":
        v = -0.5 * float(z @ z)
    elif k == "cauchy":
        v = -float(np.sum(np.log1p(z * z)))
    elif k == "abs":
        v = -float(np.sum(np.abs(z)))
    elif k == "banana":
        v = -0.5 * float(z[0] ** 2)
        for d in range(1, p["D"]):
            v -= 0.5 * float((z[d] - z[d - 1] ** 2 * 0.5) ** 2) / 0.5
    elif k == "bimodal":
        v = float(np.logaddexp(-0.5 * np.sum((z - 1.3) ** 2) / 0.4, -0.5 * np.sum((z + 1.3) ** 2) / 0.4))
    elif k == "cliff":
        v = -0.5 * float(z @ z) - (800.0 if z[0] > 1.2 else 0.0) - (40.0 if z[-1] < -1.0 else 0.0)
    else:
        raise KeyError(k)
    return v + p["offset"]


def prior_value(p, x):
    """Log prior used when the plan supplies one."""
    if p["prior"] is None:
        return 0.0
    if p["prior"] == "fun":
        c = (np.array(p["plb"]) + np.array(p["pub"])) / 2
        w = np.array(p["pub"]) - np.array(p["plb"])
        return -0.5 * float(np.sum(((np.asarray(x).ravel() - c) / w) ** 2)) - 1.25
    raise KeyError


class PriorFun:
    def __init__(self, p):
        self.p = {k: p[k] for k in ("prior", "plb", "pub")}

    def __call__(self, x):
        return prior_value(self.p, x)


def make_prior(p):
    """(kwargs for VBMC, callable giving the log prior as a float)"""
    if p["prior"] is None:
        return {}, lambda x: 0.0
    if p["prior"] == "fun":
        f = PriorFun(p)
        return {"log_prior": f}, f
    import pyvbmc.priors as PR
    import scipy.stats as st

    c = (np.array(p["plb"]) + np.array(p["pub"])) / 2
    w = np.array(p["pub"]) - np.array(p["plb"])
    if p["prior"] == "obj":
        a = np.array([p["lb"][d] if p["lb"][d] is not None else c[d] - 50 * w[d] for d in range(p["D"])])
        b = np.array([p["ub"][d] if p["ub"][d] is not None else c[d] + 50 * w[d] for d in range(p["D"])])
        pr = PR.SmoothBox(a, b, w)
        return {"prior": pr}, lambda x: float(np.asarray(pr.log_pdf(np.atleast_2d(x))).ravel()[0])
    pr = [st.norm(loc=c[d], scale=w[d]) for d in range(p["D"])]
    return {"prior": pr}, lambda x: float(sum(pr[d].logpdf(np.ravel(x)[d]) for d in range(p["D"])))


class TargetFault(Exception):
    pass


class WeirdError(Exception):
    """An exception with its own constructor signature."""

    def __init__(self, code, text):
        super().__init__(code, text)
        self.code = code


FAULT_EXC = {
    "value_error": lambda: ValueError("sim: bad value"),
    "runtime": lambda: RuntimeError("sim: target crashed"),
    "zero_div": lambda: ZeroDivisionError("sim: division"),
    "oserror": lambda: OSError(5, "sim: I/O error"),
    "memory": lambda: MemoryError("sim: out of memory"),
    "custom": lambda: TargetFault("sim: custom", 17),
    "weird": lambda: WeirdError(3, "sim: weird"),
    "stopiter": lambda: StopIteration("sim"),
    "keyint": lambda: KeyboardInterrupt("sim: Ctrl-C"),
    "sysexit": lambda: SystemExit(3),
    "noargs": lambda: RuntimeError(),
}
FAULT_VAL = {
    "nan": float("nan"),
    "inf": INF,
    "-inf": -INF,
    "npnan": np.float64("nan"),
    "complex": complex(1.0, 2.0),
    "vector": "vector",
    "none": None,
    "string": "abc",
    "empty": "empty",
    "tuple": "tuple",
}
FAULT_SD = {"sd0": 0.0, "sdneg": -1.0, "sdnan": float("nan"), "sdinf": INF, "sdnone": None, "sdcomplex": complex(1, 1), "sdmissing": "missing"}
REPR_KINDS = ["float", "npfloat", "arr0", "arr1", "arr11", "list1", "np32", "int"]

TARGETS = {}


def lookup_target(name):
    return TARGETS[name]


class Call:
    __slots__ = ("i", "x", "shape", "ok", "value", "sd", "t0", "t1", "fault", "lp", "tag", "dtype")


class SimTarget:
    """The user's log density, owned by the simulator."""

    def __init__(self, name, p, faults=None, lat=None, rep="float", mutate=False, hooks=None, per_call=False):
        self.name = name
        self.p = p
        self.calls = []
        self.faults = dict(faults or {})  # call index -> kind
        self.lat = lat
        self.rep = rep
        self.mutate = mutate
        self.per_call = per_call  # fresh noise at every call, not per point
        self.on_call = list(hooks or [])
        self.depth = 0
        self.fired = {}
        self.buf = np.zeros(1)
        self.max_calls = 5000
        TARGETS[name] = self

    def __reduce__(self):
        return (lookup_target, (self.name,))

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return "SimTarget"

    def salt(self):
        return str(len(self.calls)).encode() if self.per_call else b""

    def value(self, x):
        v = base_value(self.p, x)
        if self.p["noise"]:
            sd = self.sd(x)
            v = v + sd * _h(self.p["noise_seed"], x, self.salt())
        return v

    def sd(self, x):
        if self.p["noise"] == 2:
            return self.p["noise_sd"] * (0.5 + abs(_h(self.p["noise_seed"], x, b"sd" + self.salt())))
        return self.p["noise_sd"]

    def latency(self, i):
        if not self.lat:
            return 0.0
        kind = self.lat.get("kind", "const")
        base = self.lat.get("base", 0.01)
        r = random.Random(f"{self.lat.get('seed', 0)}-{i}")
        if kind == "const":
            return base
        if kind == "rand":
            return base * 2 ** r.randint(-4, 4)
        if kind == "stall":
            return base if r.random() < 0.85 else base * 4096
        if kind == "zero":
            return 0.0
        return base

    def __call__(self, x):
        c = Call()
        c.i = len(self.calls)
        c.shape = np.shape(x)
        c.dtype = str(getattr(x, "dtype", type(x)))
        c.x = np.array(x, dtype=float).copy()
        c.ok = False
        c.value = c.sd = c.fault = c.lp = None
        c.tag = None
        if c.i >= self.max_calls:
            raise SystemExit("simvbmc: target call cap")
        self.calls.append(c)
        for h in self.on_call:
            h(self, c)
        c.t0 = seams.CLOCK.now
        seams.CLOCK.advance(self.latency(c.i))
        c.t1 = seams.CLOCK.now
        f = self.faults.get(c.i)
        if f is not None:
            c.fault = f
            self.fired[f] = self.fired.get(f, 0) + 1
            if f in FAULT_EXC:
                raise FAULT_EXC[f]()
        xx = c.x.ravel()
        v = self.value(xx)
        sd = self.sd(xx) if self.p["noise"] == 2 else None
        rep = self.rep if self.rep != "mixed" else REPR_KINDS[c.i % len(REPR_KINDS)]
        out = v
        if rep == "npfloat":
            out = np.float64(v)
        elif rep == "arr0":
            out = np.array(v)
        elif rep == "arr1":
            out = np.array([v])
        elif rep == "arr11":
            out = np.array([[v]])
        elif rep == "list1":
            out = v  # a list is only accepted without a prior; keep scalar
        elif rep == "buf":
            # the same array object at every call
            self.buf[0] = v
            out = self.buf
        elif rep == "np32":
            out = np.float32(v)
            v = float(out)
        elif rep == "int":
            out = int(round(v))
            v = float(out)
        if f in FAULT_VAL:
            out = FAULT_VAL[f]
            if out == "vector" and f == "vector":
                out = np.array([1.0, 2.0])
            elif f == "empty":
                out = np.array([])
            elif f == "tuple":
                out = (1.0, 2.0, 3.0)
        elif f in FAULT_SD:
            sd = FAULT_SD[f]
        else:
            c.ok = True
            c.value = v
            c.sd = sd
        if self.mutate:
            try:
                x *= -3.0
                x += 1e6
            except Exception:
                pass
        if self.p["noise"] == 2:
            if f == "sdmissing":
                return out
            return out, sd
        return out

    def ok_calls(self):
        return [c for c in self.calls if c.ok]


# --------------------------------------------------------------------- build
def arr(v, D):
    return np.array([v], dtype=float).reshape(1, D)


def problem_arrays(p):
    D = p["D"]
    lb = arr([-np.inf if b is None else b for b in p["lb"]], D)
    ub = arr([np.inf if b is None else b for b in p["ub"]], D)
    return dict(
        x0=np.array(p["x0"], dtype=float).reshape(-1, D),
        lower_bounds=lb,
        upper_bounds=ub,
        plausible_lower_bounds=arr(p["plb"], D),
        plausible_upper_bounds=arr(p["pub"], D),
    )


class NoLiteral(Exception):
    pass


def literal(v):
    """An option value the way it is written in an options file."""
    name = type(v).__name__
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return f'float("{v}")' if not math.isfinite(v) else repr(v)
    if isinstance(v, str):
        if any(c in v for c in "%#=:\n"):
            raise NoLiteral
        return repr(v)
    if v is None:
        return "None"
    if isinstance(v, np.ndarray):
        return f"np.array({literal(v.tolist())})"
    if isinstance(v, list):
        return "[" + ", ".join(literal(x) for x in v) + "]"
    if name.startswith("AcqFcn"):
        return name + "()"
    raise NoLiteral


def to_file(opts, f, seed):
    """Move a seeded part of the options to an options file (in a seeded
    order); the rest stays, some of it with other values in the file."""

    r = random.Random(f"optfile-{seed}")
    share = r.choice([0.3, 0.7, 1.0])
    lines = []
    keep = {}
    for k, v in opts.items():
        try:
            text = literal(v)
        except NoLiteral:
            keep[k] = v
            continue
        if r.random() < share:
            lines.append((k, text))
            continue
        keep[k] = v
        decoy = {"max_iter": "1", "max_fun_evals": "7", "fun_evals_per_iter": "1", "fun_eval_start": "3", "ns_search": "50", "warmup": "False", "k_warmup": "5", "min_iter": "9"}
        if k in decoy and r.random() < 0.7:
            lines.append((k, decoy[k]))
    r.shuffle(lines)
    with open(f, "w") as o:
        o.write("[UserOptions]\n")
        for k, v in lines:
            o.write(f"# description of {k}\n{k} = {v}\n")
    return keep


def build(p, target, extra_opts=None, arrays=None, raw=None, optfile=None):
    """Construct a VBMC object for problem p around the simulated target.

    optfile: (path, seed) to give part of the options through a file.
    """
    from pyvbmc import VBMC

    opts = real_options(p["opts"])
    if p["noise"] == 2:
        opts["specify_target_noise"] = True
    elif p["noise"] == 1:
        opts["uncertainty_handling"] = [1]
    if p.get("f_vals") is not None:
        opts["f_vals"] = [float("nan") if v is None else v for v in p["f_vals"]]
    if extra_opts:
        opts.update(extra_opts)
    a = arrays if arrays is not None else problem_arrays(p)
    kw, _ = make_prior(p)
    if optfile is not None:
        opts = to_file(opts, *optfile)
        kw["options_path"] = optfile[0]
    if raw is not None:
        raw["options"] = opts
        raw["arrays"] = a
    return VBMC(
        target,
        a["x0"],
        a["lower_bounds"],
        a["upper_bounds"],
        a["plausible_lower_bounds"],
        a["plausible_upper_bounds"],
        options=opts,
        **kw,
    )


# --------------------------------------------------------------- observation
def vp_sig(vp, stats=True):
    if vp is None:
        return None
    t = vp.parameter_transformer
    s = {
        "D": vp.D,
        "K": vp.K,
        "w": np.array(vp.w, dtype=float),
        "mu": np.array(vp.mu, dtype=float),
        "sigma": np.array(vp.sigma, dtype=float),
        "lambd": np.array(vp.lambd, dtype=float),
        "tr": tr_sig(t),
    }
    if stats and vp.stats:
        s["elbo"] = vp.stats.get("elbo")
        s["elbo_sd"] = vp.stats.get("elbo_sd")
    return s


def tr_sig(t):
    return {
        "lb": t.lb_orig,
        "ub": t.ub_orig,
        "type": t.type,
        "mu": t.mu,
        "delta": t.delta,
        "scale": t.scale,
        "R": t.R_mat,
    }


def fl_sig(fl, times=False):
    n = fl.Xn + 1
    s = {
        "n": n,
        "func_count": fl.func_count,
        "cache_count": fl.cache_count,
        "X_orig": fl.X_orig[:n].copy(),
        "y_orig": fl.y_orig[:n].copy(),
        "X": fl.X[:n].copy(),
        "y": fl.y[:n].copy(),
        "n_evals": np.array(fl.n_evals[:n]),
        "X_flag": np.array(fl.X_flag[:n]),
        "S": fl.S[:n].copy() if fl.noise_flag else None,
        "y_max": fl.y_max,
        "tr": tr_sig(fl.parameter_transformer) if fl.parameter_transformer is not None else None,
    }
    if times:
        s["t"] = fl.fun_eval_time[:n].copy()
        s["T"] = fl.total_fun_eval_time
    return s


def gp_sig(gp):
    if gp is None:
        return None
    return {
        "X": gp.X,
        "y": gp.y,
        "s2": gp.s2,
        "hyp": gp.get_hyperparameters(as_array=True),
    }


PHASES = ("active_sampling", "gp_train", "variational_fit", "warping", "finalize", "separate_gp_train", "fun_time")


def durations(t):
    """Phase durations of a timer, through its public interface."""
    out = {}
    off = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        for n in PHASES:
            d = t.get_duration(n)
            if d is not None:
                out[n] = d
    finally:
        logging.disable(off)
    return out


SCALARS = (
    "iter",
    "elbo",
    "elbo_sd",
    "var_ss",
    "sKL",
    "sKL_true",
    "Ns_gp",
    "pruned",
    "func_count",
    "lcb_max",
    "n_eff",
    "r_index",
    "elcbo_impro",
    "stable",
    "warmup",
    "logging_action",
)
OBJECTS = ("vp", "gp", "function_logger")


def hist_len(h):
    """Number of complete iterations in a history."""
    a = h["random_state"] if "random_state" in h else None
    b = h["optim_state"]
    if b is None:
        return 0
    n = 0
    for e in b:
        if e is None:
            break
        n += 1
    return n


def iter_sig(h, k, objects=True, fl=True):
    s = {}
    for key in SCALARS:
        v = h[key]
        s[key] = None if v is None or len(v) <= k else v[k]
    if objects:
        s["vp"] = vp_sig(h["vp"][k])
        s["gp"] = gp_sig(h["gp"][k])
        if fl:
            s["fl"] = fl_sig(h["function_logger"][k])
        rs = h["random_state"][k] if h["random_state"] is not None and len(h["random_state"]) > k else None
        s["rs"] = digest(rs) if rs is not None else None
    return s


def result_sig(results):
    return {k: v for k, v in results.items() if k not in ("function", "version")}


def run_sig(v, vp=None, results=None, target=None, fl=True):
    h = v.iteration_history
    n = hist_len(h)
    s = {"iters": [iter_sig(h, k, fl=fl) for k in range(n)]}
    if vp is not None:
        s["vp"] = vp_sig(vp)
    if results is not None:
        s["results"] = result_sig(results)
    if target is not None:
        s["calls"] = [c.x for c in target.calls]
    return s


def phases(v):
    """Abstract trace of a run: one token per iteration (coverage measure)."""
    h = v.iteration_history
    out = []
    for k in range(hist_len(h)):
        la = h["logging_action"]
        acts = ",".join(la[k]) if la is not None and len(la) > k and la[k] else "-"
        out.append(f"{'W' if h['warmup'][k] else 'M'}{h['vp'][k].K}:{acts}")
    return "|".join(out)


class Quiet:
    """Send the system's console output nowhere."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e


def fresh_logging():
    """Put the logging system into the state of a new process."""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    for n in list(logging.Logger.manager.loggerDict):
        lg = logging.Logger.manager.loggerDict[n]
        if isinstance(lg, logging.Logger):
            for h in list(lg.handlers):
                lg.removeHandler(h)


def start_run(npseed, ambient=0, clock=None):
    """Bring every seam to the plan's initial state."""
    seams.reset_all()
    seams.AMBIENT.reset(ambient)
    random.seed(f"py-{ambient}")
    seams.CLOCK.reset(**(clock or {}))
    fresh_logging()
    TARGETS.clear()
    np.random.seed(npseed % (1 << 32))


def process_settings():
    """What a well-behaved library leaves as it found it."""
    import gc
    import logging
    import signal
    import sys
    import warnings

    root = logging.getLogger()
    return {
        "numpy error handling": sorted(np.geterr().items()) + [str(np.geterrcall())],
        "numpy print options": sorted((k, str(v)) for k, v in np.get_printoptions().items()),
        # (the optimiser package adds filters for its own warnings)
        "warning filters": [str(f) for f in warnings.filters if not f[2].__module__.startswith("cma.")],
        "root logging": [root.level, [str(type(h)) for h in root.handlers], root.disabled, logging.root.manager.disable, logging.raiseExceptions, str(logging.getLoggerClass())],
        "working directory": os.getcwd(),
        "environment": sorted(os.environ.items()),
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "garbage collector": [gc.isenabled(), gc.get_threshold()],
        "exception hooks": [str(sys.excepthook), str(sys.displayhook)],
    }


def opt_sig(v):
    """The options a run works with, as far as they are plain values."""
    out = {}
    o = v.options
    for k in sorted(o.keys(), key=str):
        # (for one variable the search optimiser is switched on purpose)
        if str(k) == "search_optimizer" and v.D == 1:
            continue
        x = o[k]
        if callable(x):
            out[str(k)] = "callable"
        elif x is None or isinstance(x, (bool, int, float, str, np.ndarray, np.generic, list, tuple, set)):
            out[str(k)] = repr(sorted(map(str, x)) if isinstance(x, set) else [type(i).__name__ for i in x] if isinstance(x, (list, tuple)) and x and hasattr(x[0], "acq_info") else x)
        else:
            out[str(k)] = type(x).__name__
    return out


def options_changed(before, v):
    now = opt_sig(v)
    return [f"option {k}: {before.get(k)} became {now.get(k)}"[:200] for k in sorted(set(before) | set(now)) if before.get(k) != now.get(k)]


def settings_changed(before):
    now = process_settings()
    if not before["root logging"][1]:
        # the first run of a process sets up the display on purpose
        before["root logging"][1] = now["root logging"][1]
    return [f"{k}: {before[k]} became {now[k]}"[:300] for k in before if before[k] != now[k]]
