"""Seeded search over plans: one forked process per plan, shrinking, replay.

The parent imports the system once (behind the seams) and never runs it; every
plan is executed in a forked child, so no plan can influence another one and a
child may be crashed at will.
"""
import hashlib
import json
import os
import random
import select
import signal
import sys
import time as _time
import traceback

from simvbmc import boot, seams
from simvbmc.world import enc_floats, fix_floats

MONO = seams.REAL["monotonic"]
NPROC = int(os.environ.get("SIMVBMC_JOBS", "0")) or min(8, os.cpu_count() or 1)
BASE = os.environ.get("SIMVBMC_BASE") or "/tmp"


class Skip(Exception):
    """The plan did not reach the situation it was made for."""


class Report:
    """What one execution of a plan observed."""

    def __init__(self):
        self.violations = []
        self.stats = {}
        self.faults = {}
        self.traces = []
        self.sim = 0.0
        self.skipped = None
        self.events = hashlib.blake2b(digest_size=12)
        self.sample = None

    def bad(self, kind, detail):
        if len(self.violations) < 20:
            self.violations.append({"kind": kind, "detail": str(detail)[:600]})

    def check(self, cond, kind, detail=""):
        self.count("checks")
        if not cond:
            self.bad(kind, detail() if callable(detail) else detail)
        return bool(cond)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def trace(self, s):
        self.traces.append(hashlib.blake2b(str(s).encode(), digest_size=8).hexdigest())
        self.event(s)

    def event(self, s):
        self.events.update(str(s).encode())

    def as_dict(self):
        return dict(
            violations=self.violations,
            stats=self.stats,
            faults=self.faults,
            traces=self.traces,
            sim=self.sim,
            skipped=self.skipped,
            events=self.events.hexdigest(),
            sample=self.sample,
        )


def plan_rng(pid, seed, index):
    return random.Random(f"{pid}/{seed}/{index}")


def _child(mod, plan, wfd, tmp):
    """Execute one plan in this (forked) process and report through wfd."""
    os.environ["SIMVBMC_TMP"] = tmp
    rep = Report()
    try:
        from simvbmc import world

        with world.Quiet():
            try:
                mod.run(fix_floats(plan), rep)
            except Skip as e:
                rep.skipped = str(e)[:200]
        out = rep.as_dict()
    except BaseException as e:  # harness trouble, never a verdict
        if isinstance(e, seams.CrashNow):
            msg = "CrashNow escaped"
        else:
            msg = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        out = {"error": msg}
    data = json.dumps(enc_floats(out), default=str).encode()
    mv = memoryview(data)
    while mv:
        n = seams.REAL_OS["write"](wfd, mv)
        mv = mv[n:]
    os._exit(0)


class Pool:
    def __init__(self, mod, jobs=None):
        self.mod = mod
        self.jobs = jobs or NPROC
        self.live = {}  # rfd -> [key, pid, buf, t0, tmp, timeout]

    def start(self, key, plan, timeout=None):
        import tempfile

        tmp = tempfile.mkdtemp(prefix="run-", dir=BASE)
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for fd in self.live:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                _child(self.mod, plan, w, tmp)
            finally:
                os._exit(3)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(w)
        self.live[r] = [key, pid, b"", MONO(), tmp, timeout or getattr(self.mod, "TIMEOUT", 120)]

    def _finish(self, r, timed_out=False):
        import shutil

        key, pid, buf, t0, tmp, _ = self.live.pop(r)
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        shutil.rmtree(tmp, ignore_errors=True)
        wall = MONO() - t0
        if timed_out:
            return key, {"timeout": True}, wall
        try:
            return key, fix_floats(json.loads(buf.decode())), wall
        except Exception:
            return key, {"error": f"child died without a report ({len(buf)} bytes)"}, wall

    def poll(self, wait=0.5):
        """Finished (key, result, wall) triples."""
        if not self.live:
            return []
        out = []
        ready, _, _ = select.select(list(self.live), [], [], wait)
        for r in ready:
            d = os.read(r, 1 << 20)
            if d:
                self.live[r][2] += d
            else:
                out.append(self._finish(r))
        now = MONO()
        for r in list(self.live):
            if now - self.live[r][3] > self.live[r][5]:
                out.append(self._finish(r, True))
        return out

    def kill(self):
        for r in list(self.live):
            self._finish(r, True)


def run_many(mod, items, jobs=None, stop=None, deadline=None, on_result=None):
    """Run (key, plan) items; returns {key: (result, wall)}."""
    pool = Pool(mod, jobs)
    res = {}
    it = iter(items)
    more = True
    try:
        while more or pool.live:
            while more and len(pool.live) < pool.jobs:
                if deadline and MONO() > deadline:
                    more = False
                    break
                if stop and stop(res):
                    more = False
                    break
                try:
                    key, plan = next(it)
                except StopIteration:
                    more = False
                    break
                pool.start(key, plan)
            for key, r, wall in pool.poll():
                res[key] = (r, wall)
                if on_result:
                    on_result(key, r, wall)
    finally:
        pool.kill()
    return res


def run_one(mod, plan, timeout=None):
    pool = Pool(mod, 1)
    pool.start(0, plan, timeout)
    while True:
        for _, r, wall in pool.poll():
            return r, wall


# ------------------------------------------------------------------ shrinking
def _paths(plan, prefix=()):
    """(path, value) of every list/dict inside plan, outermost first."""
    if isinstance(plan, dict):
        for k in sorted(plan):
            yield prefix + (k,), plan[k]
            yield from _paths(plan[k], prefix + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            yield prefix + (i,), v
            yield from _paths(v, prefix + (i,))


def _get(o, path):
    for k in path:
        o = o[k]
    return o


def _set(o, path, v):
    o = json.loads(json.dumps(o))
    t = o
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v
    return o


def _del(o, path):
    o = json.loads(json.dumps(o))
    t = o
    for k in path[:-1]:
        t = t[k]
    del t[path[-1]]
    return o


def shrinks(plan):
    """Generic smaller plans: shorter op/fault lists, fewer options."""
    for key in ("hist", "ops", "faults", "fails", "lives", "threads", "queries"):
        for path, v in _paths(plan):
            if path[-1] == key and isinstance(v, list) and v:
                n = len(v)
                size = n // 2
                while size >= 1:
                    for i in range(0, n, size):
                        w = v[:i] + v[i + size :]
                        if len(w) < n:
                            yield _set(plan, path, w)
                    size //= 2
            elif path[-1] == key and isinstance(v, dict) and v:
                for k in list(v):
                    yield _del(plan, path + (k,))
    for path, v in _paths(plan):
        if path[-1] == "opts" and isinstance(v, dict):
            keys = [k for k in v if k not in ("integer_vars",)]
            for k in keys:
                yield _del(plan, path + (k,))
        if path[-1] == "max_iter" and isinstance(v, int) and v > 2:
            yield _set(plan, path, v - 1)
    for path, v in _paths(plan):
        if path[-1] == "x0" and isinstance(v, list) and len(v) > 1:
            yield _set(plan, path, v[:1])
        if path[-1] == "lat" and v:
            yield _set(plan, path, None)
        if path[-1] == "prior" and v:
            yield _set(plan, path, None)


def kinds(result):
    return sorted({v["kind"] for v in (result or {}).get("violations", [])})


def shrink(mod, plan, kind, budget_s):
    end = MONO() + budget_s
    gen = getattr(mod, "shrinks", shrinks)
    tried = 0
    progress = True
    while progress and MONO() < end:
        progress = False
        cands = []
        for c in gen(plan):
            cands.append(c)
            if len(cands) >= 400:
                break
        i = 0
        while i < len(cands) and MONO() < end:
            batch = cands[i : i + NPROC]
            i += NPROC
            res = run_many(mod, [(j, c) for j, c in enumerate(batch)], deadline=end + 5)
            tried += len(batch)
            hit = [j for j in range(len(batch)) if j in res and kind in kinds(res[j][0])]
            if hit:
                plan = batch[hit[0]]
                progress = True
                break
    return plan, tried
