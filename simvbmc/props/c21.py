"""C21 using a posterior never changes it."""
import copy
import math
import os

import numpy as np

from simvbmc import sim
from simvbmc import world as W
from simvbmc.runner import Skip

RULE = (
    "unit plans: sequences of 25 queries and parameter changes on 4 posteriors (synthetic with bounds, rotations, 1..12 components, extreme weights and scales, or taken from a run), every answer compared with an "
    "independently rebuilt copy's; run plans: queries on live, recorded and returned posteriors between continuations. Distinct by query sequence"
)
TIERS = {"quick": {"n": 170}, "thorough": {"n": 12000, "cap": 2700}}
PRIMES = [1, 2, 3, 7, 31, 97, 211, 997]


def gen(rng, tier, i):
    if i % 6 == 5:
        p = W.gen_problem(rng, max_iter=rng.choice([2, 3, 5]))
        return {"mode": "run", "p": p, "queries": gen_q(rng, 8), "segs": sim.gen_story(rng, rng.choice([1, 2])), "seed": rng.randrange(1 << 30)}
    p = W.gen_problem(rng, max_iter=rng.choice([1, 2, 4, 6]))
    return {"mode": "unit", "p": p, "source": "run" if rng.random() < 0.3 else "synth", "seed": rng.randrange(1 << 30), "hist": [{"queries": gen_q(rng, 25)} for _ in range(4)]}


def gen_q(rng, n):
    out = []
    for _ in range(n):
        k = rng.choices(
            ["sample", "pdf", "log_pdf", "get", "moments", "mode", "mtv", "kl", "text", "save", "copy", "set", "plot", "attrs"],
            [20, 20, 8, 14, 10, 4, 3, 6, 5, 4, 4, 12, 0.3, 3],
        )[0]
        out.append([k, rng.randrange(1 << 30), rng.random() < 0.5, rng.random() < 0.5, rng.choice(PRIMES), rng.choice([0, 0, 1, 2, 3])])
    return out


def rebuild(vp):
    """An independent posterior with the same parameters, never queried."""
    from pyvbmc.variational_posterior import VariationalPosterior

    st = np.random.get_state()
    c = VariationalPosterior(vp.D, vp.K, parameter_transformer=copy.deepcopy(vp.parameter_transformer))
    np.random.set_state(st)
    for a in ("mu", "w", "sigma", "lambd"):
        setattr(c, a, np.array(getattr(vp, a), dtype=float))
    for a in ("optimize_weights", "optimize_mu", "optimize_sigma", "optimize_lambd"):
        setattr(c, a, getattr(vp, a))
    c.stats = copy.deepcopy(vp.stats)
    c.bounds = copy.deepcopy(vp.bounds)
    return c


def synth(p, r):
    """A random posterior over the problem's space."""
    from pyvbmc.parameter_transformer import ParameterTransformer
    from pyvbmc.variational_posterior import VariationalPosterior

    D = p["D"]
    a = W.problem_arrays(p)
    kw = {}
    if r.rand() < 0.5:
        q, _ = np.linalg.qr(r.randn(D, D))
        kw = dict(scale=np.exp(r.randn(D) * r.choice([0.3, 2])), rotation_matrix=q if D > 1 else np.eye(1))
    t = ParameterTransformer(D, a["lower_bounds"], a["upper_bounds"], a["plausible_lower_bounds"], a["plausible_upper_bounds"], transform_type=p["opts"]["bounded_transform"], **kw)
    K = int(r.choice([1, 1, 2, 3, 5, 12]))
    vp = VariationalPosterior(D, K, parameter_transformer=t)
    sc = float(r.choice([0.05, 0.5, 1.0]))
    vp.mu = r.randn(D, K) * r.choice([0.1, 0.5, 1.0])
    vp.sigma = np.exp(r.randn(1, K) * r.choice([0.1, 1.0])) * sc
    vp.lambd = np.exp(r.randn(D, 1) * r.choice([0.1, 1.0]))
    w = np.exp(r.randn(1, K) * r.choice([0.1, 1.0, 6.0]))
    if r.rand() < 0.2:
        w[:] = 1.0
    vp.w = w / w.sum()
    if r.rand() < 0.7:
        nl = np.sqrt(np.sum(vp.lambd**2) / D)
        vp.lambd = vp.lambd / nl
        vp.sigma = vp.sigma * nl
    if r.rand() < 0.15:
        vp.optimize_weights = False
    if r.rand() < 0.1:
        vp.optimize_mu = False
    vp.stats = {"elbo": float(r.randn()), "elbo_sd": 0.1, "stable": bool(r.rand() < 0.5)}
    return vp


def dist(vp):
    """What defines the distribution."""
    return {"mu": np.array(vp.mu), "w": np.array(vp.w) / np.sum(vp.w), "scale": np.array(vp.lambd).reshape(-1, 1) * np.array(vp.sigma).reshape(1, -1), "tr": W.tr_sig(vp.parameter_transformer), "K": vp.K, "D": vp.D}


def near(a, b, rtol):
    """First difference between two answers, or None."""
    if type(a) is not type(b) and not (np.ndim(a) == np.ndim(b) and np.isscalar(a) or np.ndim(a) == 0):
        return f"{type(a).__name__} vs {type(b).__name__}"
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f"keys {list(a)} vs {list(b)}"
        for k in a:
            d = near(a[k], b[k], rtol)
            if d:
                return f"{k}: {d}"
        return None
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f"{len(a)} vs {len(b)} results"
        for j, (x, y) in enumerate(zip(a, b)):
            d = near(x, y, rtol)
            if d:
                return f"[{j}] {d}"
        return None
    if a is None or isinstance(a, (str, bool)):
        return None if a == b else f"{a!r} vs {b!r}"
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if x.shape != y.shape:
        return f"shape {x.shape} vs {y.shape}"
    if rtol == 0:
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
    else:
        with np.errstate(invalid="ignore"):
            s = np.where(np.isfinite(y), np.abs(y), 0)
            m = float(np.max(s)) if s.size else 0.0
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= rtol * (s + 1e-3 * m + 1e-280))
    if not np.all(ok):
        j = np.argmin(ok.ravel())
        return f"{x.ravel()[j]!r} vs {y.ravel()[j]!r}"
    return None


def points(vp, r, n, orig):
    """Points to evaluate densities at (from an independent generator)."""
    k = r.randint(vp.K, size=n)
    x = np.asarray(vp.mu).T[k] + r.randn(n, vp.D) * (np.asarray(vp.lambd).reshape(1, -1) * np.asarray(vp.sigma).ravel()[k][:, None]) * r.choice([0.3, 1.0, 4.0])
    if orig:
        x = vp.parameter_transformer.inverse(x)
        if r.rand() < 0.2:
            x[0] = vp.parameter_transformer.ub_orig.ravel() + 1.0
    return x


def ask(vp, q, base, other):
    """Do one query; returns (answer, arguments to check, posterior to go on with)."""
    k, seed, f1, f2, n, j = q
    r = np.random.RandomState(seed % (1 << 31))
    np.random.seed(seed % (1 << 31))
    df = [np.inf, 4.0, np.inf, 0][j]
    if k == "sample":
        return vp.sample(n, orig_flag=f1, balance_flag=f2, df=df), []
    if k in ("pdf", "log_pdf"):
        x = points(base, r, max(1, min(n, 31)), f1)
        if r.rand() < 0.1:
            x = x[0]
        x0 = x.copy()
        grad = f2 and not f1
        if k == "log_pdf":
            return vp.log_pdf(x, orig_flag=f1, df=df), [(x, x0)]
        return vp.pdf(x, orig_flag=f1, log_flag=bool(r.rand() < 0.5), grad_flag=grad and not np.isfinite(df) or False, df=df), [(x, x0)]
    if k == "get":
        return vp.get_parameters(raw_flag=f1), []
    if k == "moments":
        return vp.moments(max(n, 3), orig_flag=f1, cov_flag=f2), []
    if k == "mode":
        return vp.mode(orig_flag=f1, n_opts=[None, 1, 2, None][j]), []
    if k == "mtv":
        if f1:
            return vp.mtv(vp2=other, N=997), []
        x = points(other, r, 211, True)
        x = x[np.all(np.isfinite(x), axis=1)]
        x0 = x.copy()
        return vp.mtv(samples=x, N=997), [(x, x0)]
    if k == "kl":
        if f1:
            return vp.kl_div(vp2=other, N=997, gauss_flag=f2), []
        x = points(other, r, 211, True)
        x0 = x.copy()
        return vp.kl_div(samples=x, N=997, gauss_flag=True), [(x, x0)]
    if k == "text":
        return (str(vp) if f1 else None, (repr(vp), None)[1]), []
    if k == "attrs":
        return [np.array(vp.mu), np.array(vp.w).ravel(), (np.array(vp.lambd).reshape(-1, 1) * np.array(vp.sigma).reshape(1, -1))], []
    raise KeyError(k)


def new_theta(vp, q):
    k, seed, raw, f2, n, j = q
    r = np.random.RandomState(seed % (1 << 31))
    mu = r.randn(vp.D, vp.K) * 0.7
    sg = np.exp(r.randn(vp.K) * 0.7) * r.choice([0.1, 0.6])
    lm = np.exp(r.randn(vp.D) * 0.7)
    eta = r.randn(vp.K) * r.choice([0.2, 2.0])
    w = np.exp(eta - eta.max())
    th = []
    if vp.optimize_mu:
        th.append(mu.ravel(order="F"))
    c = []
    if vp.optimize_sigma:
        c.append(sg)
    if vp.optimize_lambd:
        c.append(lm)
    if vp.optimize_weights:
        c.append(w)
    th += [np.log(x) if raw else x for x in c]
    exp = {
        "mu": mu if vp.optimize_mu else np.array(vp.mu),
        "w": (w / w.sum()).reshape(1, -1) if vp.optimize_weights else np.array(vp.w),
        "scale": lm.reshape(-1, 1) * sg.reshape(1, -1),
    }
    nl = np.sqrt(np.sum(lm**2) / vp.D)
    exp["lambd"], exp["sigma"] = (lm / nl).reshape(-1, 1), (sg * nl).reshape(1, -1)
    return np.concatenate(th), exp


def scribble(a):
    """Overwrite every array in an answer."""
    if isinstance(a, (tuple, list)):
        for x in a:
            scribble(x)
    elif isinstance(a, np.ndarray) and a.dtype.kind == "f":
        try:
            a[...] = 7.77e3
        except ValueError:
            pass


def session(vp, other, queries, rep, where, mode=None):
    """A sequence of queries on one posterior."""
    pure = rebuild(vp)
    opure = rebuild(other)
    for qi, q in enumerate(queries):
        k = q[0]
        w = f"{where} query {qi} {k}"
        rep.count("queries")
        if k == "set":
            th, exp = new_theta(pure, q)
            t0 = th.copy()
            vp.set_parameters(th, raw_flag=q[2])
            rep.check(np.array_equal(th, t0), "argument-changed", w)
            th[...] = -1e9
            for a in ("mu", "w", "sigma", "lambd"):
                setattr(pure, a, np.array(exp[a]))
            mode = None
        elif k == "copy":
            vp = copy.deepcopy(vp)
        elif k == "save":
            f = os.path.join(sim.scratch(), "vp.pkl")
            vp.save(f, overwrite=True)
            b = type(vp).load(f)
            d = near(dist(b), dist(vp), 0)
            rep.check(d is None, "saved-posterior-differs", lambda: f"{w}: {d}")
            if q[2]:
                vp = b
        elif k == "plot":
            import matplotlib.pyplot as plt

            np.random.seed(q[1] % (1 << 31))
            vp.plot(n_samples=500)
            plt.close("all")
        else:
            # same parameters to the last bit, but nothing remembered
            c, oc = rebuild(vp), rebuild(other)
            try:
                a, args = ask(vp, q, pure, other)
            except Exception as e:
                try:
                    ask(c, q, pure, oc)
                    b = None
                except Exception as e2:
                    b = e2
                rep.check(type(b) is type(e), "query-failed", lambda: f"{w}: {type(e).__name__}: {e} (a fresh copy: {b!r})")
                rep.count("failing_queries")
                a, args = None, []
                if rep.violations:
                    return
                continue
            for x, x0 in args:
                rep.check(np.array_equal(x, x0, equal_nan=True), "argument-changed", lambda: f"{w}: the points passed in were modified")
            if k == "mode" and q[2] and mode is not None:
                d = near(a, mode, 0)
                rep.check(d is None, "answer-changed", lambda: f"{w}: mode {a}, first answer {mode}")
            else:
                b, _ = ask(c, q, pure, oc)
                d = near(a, b, 1e-12)
                rep.check(d is None, "answer-differs", lambda: f"{w}: {d} (a fresh copy's answer)")
                if k == "mode" and q[2]:
                    mode = np.array(a)
            scribble(a)
        d = near(dist(vp), dist(pure), 1e-10)
        rep.check(d is None, "posterior-changed", lambda: f"{w}: {d}")
        d = near(dist(other), dist(opure), 1e-10)
        rep.check(d is None, "other-posterior-changed", lambda: f"{w}: {d}")
        if rep.violations:
            return


def run_unit(plan, rep):
    p = plan["p"]
    W.start_run(p["npseed"])
    r = np.random.RandomState(plan["seed"])
    pool = []
    if plan["source"] == "run":
        s = sim.Sim(p, rep)
        s.must_build()
        s.must()
        pool = [s.vp, s.v.vp] + [s.h["vp"][k] for k in range(s.n)]
        # the same object twice is no second posterior
        seen = set()
        pool = [v for v in pool if not (id(v) in seen or seen.add(id(v)))]
        s.done()
    for hi, hist in enumerate(plan["hist"]):
        if pool:
            vp = pool.pop(r.randint(len(pool)))
            other = pool[r.randint(len(pool))] if pool else rebuild(vp)
        else:
            vp, other = synth(p, r), synth(p, r)
        try:
            with np.errstate(all="ignore"):
                session(vp, other, hist["queries"], rep, f"posterior {hi}")
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.bad("query-failed", f"posterior {hi}: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
        if rep.violations:
            return
    rep.trace(" ".join(q[0] for h in plan["hist"] for q in h["queries"])[:400])


def run(plan, rep):
    if plan["mode"] == "unit":
        return run_unit(plan, rep)
    p = plan["p"]
    s = sim.Sim(p, rep)
    s.must_build()
    r = np.random.RandomState(plan["seed"])

    def after(where):
        st = np.random.get_state()
        modes = {}
        vps = {"returned": s.vp, "live": s.v.vp}
        for k in range(max(0, s.n - 2), s.n):
            vps[f"iteration {k}"] = s.h["vp"][k]
        for name, vp in vps.items():
            # nobody asked these for their mode since their parameters were set
            if name == "live" or name == "returned":
                np.random.seed(5)
                c = rebuild(vp)
                a = vp.mode()
                np.random.seed(5)
                b = c.mode()
                d = near(a, b, 1e-9)
                rep.check(d is None, "stale-answer", lambda: f"{where}: mode of the {name} posterior {a}, a fresh copy's {b}")
                modes[name] = a.copy()
                scribble(a)
        for name, vp in vps.items():
            session(vp, rebuild(vp), [q for q in plan["queries"] if q[0] != "set"], rep, f"{where}: {name}", modes.get(name))
            if rep.violations:
                return
        np.random.set_state(st)

    with np.errstate(all="ignore"):
        sim.story(s, plan["segs"], after)
    s.done()
    rep.trace(" ".join(q[0] for q in plan["queries"]))
