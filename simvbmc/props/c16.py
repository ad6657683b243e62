"""C16 the log file tells the run's story once; logging trouble is harmless."""
import logging
import math
import os
import re

import numpy as np

from simvbmc import seams, sim
from simvbmc import world as W
from simvbmc.canon import digest
from simvbmc.runner import Skip
from simvbmc.seams import DISK

RULE = (
    "plans: 1..3 runs in one process with the same, different or no log file, levels, write modes and display, interleaved continuations, reloads, retries after target failures, nested runs, rotated files, "
    "handlers of the user, errors of every kind on the log disk; runs with disk errors compared with an untroubled twin. Distinct by event trace"
)
TIERS = {"quick": {"n": 230}, "thorough": {"n": 9000, "cap": 2700}}
LINE = re.compile(r"^\s*(\d+|inf)\s+\d+[\s/]")


def gen(rng, tier, i):
    runs = []
    trouble = rng.random() < 0.3
    for r in range(rng.choice([1, 2, 2, 3])):
        p = W.gen_problem(rng, max_iter=rng.choice([1, 2, 3, 5]), D=rng.choice([1, 2, 2]))
        o = p["opts"]
        o["display"] = rng.choice(["off", "off", "iter", "full"])
        f = rng.choice(["A.log", "A.log", "B.log", "sub/A.log", None])
        if f:
            o["log_file_name"] = f
            o["log_file_level"] = rng.choice(["iter", "iter", "iter", "full", 20, 10, "off", 30, 40, "final", "notify"])
            o["log_file_mode"] = rng.choice(["a", "a", "w", "w+"])
        if rng.random() < 0.2:
            o["print_iteration_header"] = rng.choice([True, False])
        if rng.random() < 0.25 and p["noise"] == 0:
            p["x0"] = [list(x) for x in p["x0"]]
            p["f_vals"] = [W.base_value(p, x) if rng.random() < 0.6 else None for x in p["x0"]]
        if p["noise"] and rng.random() < 0.3:
            o["max_repeated_observations"] = 2
        runs.append({"p": p, "faults": sim.gen_faults(rng, 0, 30, noise=p["noise"]) if rng.random() < 0.3 else {}})
    ops = [["build", r] for r in range(len(runs))]
    if rng.random() < 0.5:
        ops = [["build", 0]]
        for r in range(1, len(runs)):
            ops.insert(rng.randrange(len(ops) + 1), ["build", r])
    acts = []
    for r in range(len(runs)):
        acts += [["run", r]] * rng.choice([1, 2, 3])
    rng.shuffle(acts)
    for a in acts:
        ops.append(a)
        u = rng.random()
        if u < 0.15:
            ops.append(["load", a[1]])
        elif u < 0.22:
            ops.append(["rotate", rng.choice(["A.log", "B.log"])])
        elif u < 0.3:
            ops.append(["user", rng.choice(["VBMC", ""])])
        elif u < 0.36:
            ops.append(["rebuild", a[1]])
    plan = {"runs": runs, "hist": ops, "pre": [f for f in ("A.log", "B.log", "sub/A.log") if rng.random() < 0.3]}
    if len(runs) > 1 and rng.random() < 0.15:
        plan["nest"] = [0, rng.randrange(3, 12), 1]
    if trouble:
        n = rng.choice([1, 2, 5])
        plan["disk"] = [
            {"op": rng.randrange(0, 60), "kind": rng.choice(["eio", "enospc", "short", "edquot"]), "frac": rng.choice([0.0, 0.3, 0.9]), "sticky": rng.random() < 0.3, "only": ["write", "flush", "close", "close-dirty"]}
            for _ in range(n)
        ]
    return plan


def tokens(line):
    t = line.replace("/", " ", 1).split()
    return t


class World:
    """One execution of the plan's operations."""

    def __init__(self, plan, rep, root, disk):
        self.plan, self.rep, self.root = plan, rep, root
        self.sims = {}
        self.sigs = []
        self.files = {}  # path -> expected line groups, in order
        self.user = []
        self.n0 = {}
        os.makedirs(os.path.join(root, "sub"), exist_ok=True)
        W.start_run(plan["runs"][0]["p"]["npseed"])
        for f in plan["pre"]:
            with seams.REAL_OPEN(os.path.join(root, f), "w") as g:
                g.write("older text\n")
            self.files[f] = ["older text"]
        DISK.reset(root, disk, match=lambda q: q.endswith(".log"))

    def path(self, r):
        o = self.plan["runs"][r]["p"]["opts"]
        return o.get("log_file_name")

    def level(self, r):
        lv = self.plan["runs"][r]["p"]["opts"].get("log_file_level")
        return {"iter": 20, "full": 10, "off": 30, "final": 30, "notify": 30}.get(lv, lv)

    def expect(self, r, what):
        f = self.path(r)
        if f:
            self.files.setdefault(f, []).extend(what)

    def build(self, r):
        run = self.plan["runs"][r]
        p = dict(run["p"])
        p["opts"] = dict(p["opts"])
        f = self.path(r)
        if f:
            p["opts"]["log_file_name"] = os.path.join(self.root, f)
            if p["opts"]["log_file_mode"] != "a":
                self.files[f] = []
        s = sim.Sim(p, self.rep, name=f"t{r}", fresh=False, tk=dict(faults=sim.int_keys(run["faults"])))
        self.sims[r] = s
        np.random.seed(p["npseed"] % (1 << 32))
        s.must_build()
        n = self.plan.get("nest")
        if n and n[0] == r:
            s.target.on_call.append(self.nested)

    def nested(self, t, c):
        n = self.plan["nest"]
        if c.i == n[1] and n[2] in self.sims and not self.sims[n[2]].target.depth:
            st = np.random.get_state()
            self.rep.count("nested_runs")
            self.told(n[0])
            self.run(n[2])
            np.random.set_state(st)

    def run(self, r):
        s = self.sims[r]
        if s.target.depth:
            return
        s.target.depth = 1
        v = s.v
        n0 = self.n0[r] = s.n
        if n0 and v.is_finished:
            v.options.__setitem__("max_iter", n0 + 2, force=True)
            v.options.__setitem__("max_fun_evals", 10000, force=True)
            self.rep.count("continuations")
        ok = s.optimize()
        s.target.depth = 0
        if not ok and not s.faulted():
            raise s.exc
        lv = self.level(r)
        self.told(r)
        if lv is not None and lv <= 20 and ok:
            self.expect(r, [("final?", r, float(s.results["elbo"]), float(s.results["elbo_sd"]), int(s.results["func_count"]), int(s.vp.K))])
        if lv is not None and lv <= 30 and ok:
            self.expect(r, [("end", r, s.results["message"], float(s.results["elbo"]), float(s.results["elbo_sd"]))])
        if ok:
            self.sigs.append((r, s.n, digest(W.run_sig(s.v, s.vp, s.results, s.target))))
        else:
            self.sigs.append((r, s.n, digest([c.x for c in s.target.calls])))
            self.rep.count("interrupted_runs")

    def told(self, r):
        """Lines due for the iterations completed since the last look."""
        s = self.sims[r]
        lv = self.level(r)
        n0, self.n0[r] = self.n0[r], s.n
        if lv is None or lv > 20:
            return
        out = []
        h = s.h
        for k in range(n0, s.n):
            fl = h["function_logger"][k]
            f = lambda key: float(np.ravel(h[key][k])[0])
            out.append(("iter", r, k, int(h["func_count"][k]), f("elbo"), f("elbo_sd"), f("sKL"), int(h["vp"][k].K), f("r_index"), ", ".join(h["logging_action"][k] or []), int(fl.cache_count)))
        self.expect(r, out)

    def load(self, r):
        from pyvbmc import VBMC

        s = self.sims[r]
        if not s.n:
            return
        f = os.path.join(self.root, f"s{r}.pkl")
        s.v.save(f, overwrite=True)
        s.v = VBMC.load(f, iteration=s.n - 1)
        self.rep.count("reloads")

    def go(self):
        for op in self.plan["hist"]:
            if op[0] in ("run", "load", "rebuild") and op[1] not in self.sims:
                continue
            if op[0] in ("build", "rebuild"):
                self.build(op[1])
            elif op[0] == "run":
                self.run(op[1])
            elif op[0] == "load":
                self.load(op[1])
            elif op[0] == "rotate":
                a = os.path.join(self.root, op[1])
                if os.path.exists(a):
                    b = op[1] + f".{len(self.files)}"
                    os.rename(a, os.path.join(self.root, b))
                    self.files[b] = self.files.pop(op[1], [])
                    self.rep.count("rotations")
            elif op[0] == "user":
                h = UserHandler()
                self.user.append((op[1], h))
                logging.getLogger(op[1]).addHandler(h)
        return self


class UserHandler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def close(a, b, digits):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 0.5000001 * 10.0**-digits + 1e-9 * abs(b)


def matches(e, line, p):
    """Does this line of the file tell this expected iteration?"""
    t = tokens(line)
    fin = e[0] == "final?"
    if fin != (t[0] == "inf"):
        return "final line" if fin else "iteration line"
    if not fin and int(t[0]) != e[2]:
        return "iteration number"
    cached = p.get("f_vals") is not None and any(v is not None for v in p["f_vals"])
    extra = 1 if cached or (p["noise"] and p["opts"].get("max_repeated_observations", 0) > 0) else 0
    q = t[1:2] + t[2 + extra :]
    if int(q[0]) != (e[4] if fin else e[3]):
        return "function count"
    if cached and not fin and int(t[2]) != e[10]:
        return "cache count"
    elbo, sd = (e[2], e[3]) if fin else (e[4], e[5])
    if not close(float(q[1]), elbo, 2):
        return "ELBO"
    if not close(float(q[2]), sd, 2):
        return "ELBO SD"
    if int(q[4]) != (e[5] if fin else e[7]):
        return "components"
    if fin:
        return None if q[6:] == ["finalize"] else "action"
    if not close(float(q[3]), e[6], 2):
        return "sKL"
    R = float(q[5])
    if not (R == e[8] or (math.isnan(R) and math.isnan(e[8])) or abs(R - e[8]) <= 6e-3 * abs(e[8])):
        return "reliability index"
    if " ".join(q[6:]) != e[9]:
        return "action"
    return None


def fits(e, ln, kind, plan):
    """None if the line is the one expected, else what differs."""
    if kind == "end":
        if e[0] != "end":
            return "end of a run"
        m = re.match(r"Estimated ELBO: (\S+) \+/-(\S+)\.$", ln)
        return None if m and close(float(m.group(1)), e[3], 3) and close(float(m.group(2)), e[4], 3) else "final ELBO"
    if e[0] == "end":
        return "end of a run"
    try:
        return matches(e, ln, plan["runs"][e[1]]["p"])
    except (ValueError, IndexError):
        return "cut"


def check_file(w, f, want, complete):
    rep, plan = w.rep, w.plan
    path = os.path.join(w.root, f)
    try:
        with seams.REAL_OPEN(path, encoding="utf-8", errors="replace") as g:
            lines = g.read().split("\n")
    except OSError as e:
        rep.check(not [x for x in want if x[0] != "final?"], "log-missing", f"{f}: {e}")
        return
    msgs = [x for x in want if isinstance(x, tuple)]
    pre = "older text" in want
    if complete:
        rep.check(("older text" in lines) == pre, "log-mode", lambda: f"{f}: previous contents {'lost' if pre else 'kept'}")
    q = torn = 0
    for ln in lines:
        if LINE.match(ln):
            kind = "line"
        elif ln.startswith("Estimated ELBO:"):
            kind = "end"
        else:
            continue
        rep.count("log_lines")
        if complete:
            while q < len(msgs) and msgs[q][0] == "final?" and fits(msgs[q], ln, kind, plan) is not None:
                q += 1
            if q >= len(msgs):
                rep.bad("unexpected-log-line", f"{f}: {ln!r}, nothing more is expected")
                return
            bad = fits(msgs[q], ln, kind, plan)
            if not rep.check(bad is None, "wrong-log-line", lambda: f"{f}: {ln!r}, expected {msgs[q]} ({bad})"):
                return
            q += 1
            continue
        # lines may be lost or torn here, but not repeated or out of order
        hit = [j for j, e in enumerate(msgs) if fits(e, ln, kind, plan) is None]
        if not hit:
            torn += 1
            continue
        new = [j for j in hit if j >= q]
        if not rep.check(bool(new), "repeated-log-line", lambda: f"{f}: {ln!r} again or out of order"):
            return
        q = new[0] + 1
    if not complete:
        rep.count("torn_log_lines", torn)
        return
    rest = [e for e in msgs[q:] if e[0] != "final?"]
    rep.check(not rest, "log-line-missing", lambda: f"{f}: {len(rest)} lines missing, first {rest[0]}")
    rep.check("older text" not in want or lines[0] == "older text", "log-mode", lambda: f"{f}: starts with {lines[0]!r}")


def run(plan, rep):
    root = os.path.join(sim.scratch(), "logs")
    disk = plan.get("disk")
    troubled = bool(disk)
    raised = logging.raiseExceptions
    w = World(plan, rep, root, disk)
    try:
        w.go()
    except Skip:
        raise
    except sim.ERRORS as e:
        if DISK.fired:
            rep.bad("log-trouble-aborts", f"{type(e).__name__}: {e} after disk faults {DISK.fired}")
            return
        raise Skip(f"run failed: {type(e).__name__}: {str(e)[:80]}")
    fired = list(DISK.fired)
    for x in fired:
        rep.fault(f"log-disk {x[1]}")
    DISK.faults = {}
    DISK.sticky = None
    # open handles: at most one per live run, on its own file
    handles = {}
    for sf in DISK.open_files.values():
        handles.setdefault(os.path.relpath(sf.path, root), []).append(sf)
    names = {}
    for r, s in w.sims.items():
        for h in list(getattr(s.v.logger, "handlers", [])):
            if isinstance(h, logging.FileHandler):
                names.setdefault(r, []).append(os.path.relpath(h.baseFilename, root))
    for r, fs in names.items():
        rep.check(fs == [w.path(r)], "wrong-log-handlers", lambda: f"run {r} writes to {fs}, configured {w.path(r)}")
    for name in ("VBMC", "VBMC_init", "VBMC.stream_only", ""):
        for h in logging.getLogger(name).handlers:
            rep.check(not isinstance(h, logging.FileHandler), "shared-log-handler", lambda: f"logger {name!r} has a file handler on {h.baseFilename}")
    for name, h in w.user:
        rep.check(h in logging.getLogger(name).handlers, "user-handler-removed", f"handler of the user on {name!r} is gone")
    for f, want in w.files.items():
        check_file(w, f, want, not fired)
        if rep.violations:
            return
    for base, _, fs in os.walk(root):
        for f in fs:
            q = os.path.relpath(os.path.join(base, f), root)
            if q not in w.files and not q.endswith(".pkl"):
                own = [r for r in w.sims if w.path(r) == q]
                rep.check(bool(own), "stray-file", f"{q} was created")
    sigs = w.sigs
    if fired:
        # a twin without trouble
        rep.count("twins")
        import shutil

        shutil.rmtree(root, ignore_errors=True)
        try:
            t = World(plan, rep, root, None).go()
        except sim.ERRORS as e:
            rep.bad("log-trouble-changes-run", f"untroubled twin fails: {type(e).__name__}: {e}")
            return
        rep.check(t.sigs == sigs, "log-trouble-changes-run", lambda: f"runs with disk faults {fired} differ from the untroubled ones: {[(a, b) for a, b in zip(sigs, t.sigs) if a != b][:1]}")
    rep.check(logging.raiseExceptions == raised, "logging-system-changed", "raiseExceptions changed")
    DISK.reset(None)
    for s in w.sims.values():
        s.done()
    rep.trace(" ".join(f"{o[0]}{o[1]}" for o in plan["hist"]) + str([w.path(r) for r in w.sims]))
