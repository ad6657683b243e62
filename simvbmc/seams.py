"""Every source of nondeterminism of the system, behind a simulator's seam.

clock    time.* functions read SimClock
entropy  os.urandom / random / unseeded numpy generators come from AMBIENT
random   the global numpy stream is seeded per run; legal extreme draws can be
         injected (RNGFAULTS)
disk     open/os.* on paths below a scratch directory go through DISK, which
         injects errors, short/torn writes and crashes
"""
import builtins
import errno
import io
import os
import random as _random
import time as _time

REAL = {
    k: getattr(_time, k)
    for k in (
        "time",
        "time_ns",
        "perf_counter",
        "perf_counter_ns",
        "monotonic",
        "monotonic_ns",
        "process_time",
        "sleep",
    )
}
REAL_OPEN = io.open
REAL_OS = {
    k: getattr(os, k)
    for k in (
        "open",
        "write",
        "close",
        "fsync",
        "replace",
        "rename",
        "link",
        "unlink",
        "remove",
        "truncate",
        "ftruncate",
        "urandom",
        "fdopen",
    )
}


# --------------------------------------------------------------------- clock
class SimClock:
    EPOCH = 1.6e9

    def __init__(self):
        self.reset()

    def reset(self, tick=0.0, jumps=None):
        self.now = self.EPOCH
        self.tick = tick
        self.reads = 0
        self.advanced = 0.0
        self.jumps = dict(jumps or {})  # read index -> seconds (may be < 0)
        self.fired_jumps = 0
        self.hook = None  # a scheduling point at every clock reading

    def advance(self, dt):
        self.now += dt
        if dt > 0:
            self.advanced += dt

    def read(self):
        if self.hook is not None:
            self.hook()
        self.reads += 1
        if self.tick:
            self.now += self.tick
            self.advanced += self.tick
        j = self.jumps.get(self.reads)
        if j is not None:
            self.now += j
            self.fired_jumps += 1
        return self.now


CLOCK = SimClock()


def _install_clock():
    c = CLOCK
    _time.time = lambda: c.read()
    _time.time_ns = lambda: int(c.read() * 1e9)
    _time.perf_counter = lambda: c.read() - c.EPOCH
    _time.perf_counter_ns = lambda: int((c.read() - c.EPOCH) * 1e9)
    _time.monotonic = lambda: c.read() - c.EPOCH
    _time.monotonic_ns = lambda: int((c.read() - c.EPOCH) * 1e9)
    _time.process_time = lambda: c.read() - c.EPOCH
    _time.sleep = lambda s: c.advance(s)


# ------------------------------------------------------------------- entropy
class Ambient:
    def __init__(self):
        self.reset(0)

    def reset(self, seed):
        self.rng = _random.Random(f"ambient-{seed}")
        self.draws = 0

    def urandom(self, n):
        self.draws += 1
        return self.rng.randbytes(n)


AMBIENT = Ambient()


def _install_entropy():
    os.urandom = AMBIENT.urandom
    _random._urandom = AMBIENT.urandom


# -------------------------------------------------------------------- memory
class Memory:
    """Seeded contents of uninitialised arrays (numpy.empty)."""

    def __init__(self):
        self.rng = None
        self.installed = False

    def start(self, seed):
        self.rng = None if seed is None else _random.Random(f"memory-{seed}")

    def install(self):
        if self.installed:
            return
        self.installed = True
        import numpy as np

        def wrap(name):
            orig = getattr(np, name)

            def f(*a, **k):
                r = orig(*a, **k)
                if self.rng is not None and r.size and r.dtype.kind in "fiub":
                    r[...] = self.rng.choice([0, 1, 7, 100])
                    if r.dtype.kind == "f" and self.rng.random() < 0.5:
                        r[...] = self.rng.choice([np.nan, 1e300, -3.5, 1e-300])
                return r

            f.__name__ = name
            setattr(np, name, f)

        wrap("empty")
        wrap("empty_like")


MEMORY = Memory()


# -------------------------------------------------------------------- random
class RngFaults:
    """Replace entries of numpy's global draws by legal extreme values."""

    NORMALS = ("randn", "standard_normal")
    UNIFORMS = ("rand", "random", "random_sample")

    def __init__(self):
        self.active = False
        self.depth = 0
        self.fired = 0
        self.rng = None

    def start(self, seed, prob, extreme):
        self.rng = _random.Random(f"rngfault-{seed}")
        self.prob = prob
        self.extreme = extreme
        self.active = True
        self.fired = 0

    def stop(self):
        self.active = False

    def hit(self, a, values):
        import numpy as np

        if not self.active:
            return a
        if np.ndim(a) == 0:
            if self.rng.random() < self.prob:
                self.fired += 1
                return type(a)(self.rng.choice(values)) if not isinstance(a, float) else float(self.rng.choice(values))
            return a
        flat = a.reshape(-1)
        n = flat.size
        if n == 0:
            return a
        k = sum(1 for _ in range(min(n, 64)) if self.rng.random() < self.prob)
        for _ in range(k):
            flat[self.rng.randrange(n)] = self.rng.choice(values)
            self.fired += 1
        return a


RNGFAULTS = RngFaults()


def install_rng_extremes():
    """Wrap numpy.random's module functions (called in a run's own process)."""
    import numpy as np

    tiny = 2.0**-53
    nv = [8.2, -8.2, 6.5, -6.5]
    uv = [tiny, 1.0 - tiny, 0.5]

    def wrap(name, values):
        orig = getattr(np.random, name)

        def f(*a, **k):
            r = orig(*a, **k)
            return RNGFAULTS.hit(r, values)

        f.__name__ = name
        setattr(np.random, name, f)

    for n in RngFaults.NORMALS:
        wrap(n, nv)
    for n in RngFaults.UNIFORMS:
        wrap(n, uv)


# ---------------------------------------------------------------------- disk
class CrashNow(BaseException):
    """Raised by the disk seam in a life that cannot really exit (tests)."""


class Disk:
    """Fault-injecting view of the file system below `root`.

    Every intercepted operation gets a number; the plan maps numbers to
    faults: {"op": n, "kind": ...}
      enospc / eio       raise the error (a write fault may first store a prefix)
      short              write() stores a prefix then raises ENOSPC
      crash              the process dies here; bytes handed to Python file
                         objects but not flushed survive only as a prefix
      powerloss          as crash, and unsynced bytes are lost as well
      eio_close / enospc_flush, replace/rename/fsync/unlink errors via kinds
    """

    def __init__(self):
        self.reset(None)

    def reset(self, root, faults=None, crash=None, match=None):
        self.root = os.path.realpath(root) if root else None
        self.faults = {f["op"]: f for f in (faults or [])}
        self.n = 0
        self.fired = []
        self.crash_cb = crash
        self.trace = []
        self.open_files = {}
        self.match = match
        self.sticky = None  # after a disk-full fault the disk stays full
        self.unsynced = {}  # closed files: bytes known to have reached the disk

    def inside(self, path):
        if self.root is None:
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        if not p.startswith(self.root + os.sep):
            return False
        if self.match is not None and not self.match(p):
            return False
        return True

    # one intercepted operation; returns fault dict or None
    def step(self, what, path):
        i = self.n
        self.n += 1
        self.trace.append((what, os.path.basename(str(path))))
        f = self.faults.get(i)
        if f is not None and f.get("only") and what not in f["only"]:
            f = None
        if f is not None:
            k = f["kind"]
            if k in ("crash", "powerloss"):
                self.fired.append((i, k, what))
                return f
            self.fired.append((i, k, what))
            return f
        if self.sticky and what in ("write", "flush", "close-dirty", "fsync"):
            return {"kind": self.sticky, "op": i}
        return None

    def err(self, kind, path):
        e = {"enospc": errno.ENOSPC, "short": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "edquot": errno.EDQUOT}.get(kind, errno.EIO)
        return OSError(e, os.strerror(e), str(path))

    def die(self, f):
        """Process death: materialise what survives on disk, then stop."""
        frac = f.get("frac", 0.0)
        for h in list(self.open_files.values()):
            h.on_crash(frac, f["kind"] == "powerloss")
        if f["kind"] == "powerloss":
            for path, synced in self.unsynced.items():
                try:
                    size = os.stat(path).st_size
                    if size > synced:
                        REAL_OS["truncate"](path, synced + int((size - synced) * frac))
                except OSError:
                    pass
        self.crash_cb(f)
        raise CrashNow()


DISK = Disk()


class SimFile(io.RawIOBase):
    """A file whose every effect is decided by DISK (binary, buffered)."""

    def __init__(self, path, flags, mode_bits=0o666, fd=None, name=None):
        super().__init__()
        self.path = os.path.abspath(os.fspath(path))
        self.name = name if name is not None else os.fspath(path)
        self._fd = REAL_OS["open"](path, flags, mode_bits) if fd is None else fd
        self._flags = flags
        self._buf = bytearray()
        self._synced = os.fstat(self._fd).st_size
        self._writable = bool(flags & (os.O_WRONLY | os.O_RDWR))
        self._readable = not (flags & os.O_WRONLY)
        self.limit = 8192
        DISK.open_files[id(self)] = self

    def readable(self):
        return self._readable

    def writable(self):
        return self._writable

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    @property
    def closed_(self):
        return self._fd is None

    def _store(self, data):
        mv = memoryview(bytes(data))
        while mv:
            n = REAL_OS["write"](self._fd, mv)
            mv = mv[n:]

    def write(self, data):
        if self._fd is None:
            raise ValueError("I/O operation on closed file.")
        b = bytes(data)
        self._buf += b
        if len(self._buf) >= self.limit:
            self._drain("write")
        return len(b)

    def _drain(self, what):
        f = DISK.step(what, self.path)
        if f is not None:
            k = f["kind"]
            if k in ("crash", "powerloss"):
                DISK.die(f)
            n = int(len(self._buf) * f.get("frac", 0.5)) if k in ("short", "enospc") else 0
            self._store(self._buf[:n])
            del self._buf[:n]
            if k in ("short", "enospc"):
                DISK.sticky = f.get("sticky") and k
            raise DISK.err(k, self.path)
        self._store(self._buf)
        self._buf.clear()

    def flush(self):
        if self._fd is None:
            return
        if self._buf:
            self._drain("flush")

    def on_crash(self, frac, powerloss):
        if self._fd is None:
            return
        n = int(len(self._buf) * frac)
        self._store(self._buf[:n])
        if powerloss:
            size = os.fstat(self._fd).st_size
            keep = self._synced + int((size - self._synced) * frac)
            if size > keep and self._writable:
                REAL_OS["ftruncate"](self._fd, keep)

    def synced(self):
        self._synced = os.fstat(self._fd).st_size

    def readinto(self, b):
        self.flush()
        data = os.read(self._fd, len(b))
        b[: len(data)] = data
        return len(data)

    def read(self, n=-1):
        self.flush()
        if n is None or n < 0:
            out = []
            while True:
                d = os.read(self._fd, 1 << 16)
                if not d:
                    return b"".join(out)
                out.append(d)
        out = bytearray()
        while len(out) < n:
            d = os.read(self._fd, n - len(out))
            if not d:
                break
            out += d
        return bytes(out)

    def readline(self, n=-1):
        out = bytearray()
        while True:
            d = os.read(self._fd, 1)
            if not d:
                break
            out += d
            if d == b"\n" or (n is not None and 0 <= n <= len(out)):
                break
        return bytes(out)

    def peek(self, n=0):
        pos = os.lseek(self._fd, 0, os.SEEK_CUR)
        d = os.read(self._fd, max(n, 1))
        os.lseek(self._fd, pos, os.SEEK_SET)
        return d

    def seek(self, off, whence=0):
        self.flush()
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, os.SEEK_CUR) + len(self._buf)

    def truncate(self, size=None):
        self.flush()
        if size is None:
            size = self.tell()
        REAL_OS["ftruncate"](self._fd, size)
        return size

    def close(self):
        if self._fd is None:
            return
        err = None
        f = None
        if self._writable:
            f = DISK.step("close-dirty" if self._buf else "close", self.path)
        if f is not None and f["kind"] in ("crash", "powerloss"):
            DISK.die(f)
        try:
            if f is not None:
                n = int(len(self._buf) * f.get("frac", 0.5))
                self._store(self._buf[:n])
                err = DISK.err(f["kind"], self.path)
            elif self._buf:
                self._store(self._buf)
        finally:
            self._buf.clear()
            fd, self._fd = self._fd, None
            DISK.open_files.pop(id(self), None)
            if self._writable:
                if os.fstat(fd).st_size > self._synced:
                    DISK.unsynced[self.path] = self._synced
                else:
                    DISK.unsynced.pop(self.path, None)
            REAL_OS["close"](fd)
            super().close()
        if err:
            raise err

    def __del__(self):
        try:
            if self._fd is not None:
                fd, self._fd = self._fd, None
                DISK.open_files.pop(id(self), None)
                if self._buf:
                    mv = bytes(self._buf)
                    REAL_OS["write"](fd, mv)
                REAL_OS["close"](fd)
        except Exception:
            pass


_FLAGS = {
    "r": os.O_RDONLY,
    "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
    "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL,
    "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
}


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int):
        h = _FD_FILES.get(file)
        if h is not None:
            _FD_FILES.pop(file)
            sf = SimFile(h[0], h[1], fd=file, name=file)
            if "b" in mode:
                return sf
            return io.TextIOWrapper(sf, encoding=encoding, errors=errors, newline=newline, write_through=True)
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if opener is None and not DISK.inside(file):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd)
    base = ([c for c in mode if c in "rwxa"] or ["r"])[0]
    flags = _FLAGS[base]
    if "+" in mode:
        flags = (flags & ~(os.O_WRONLY)) | os.O_RDWR
    if opener is not None:
        fd = opener(file, flags | os.O_CLOEXEC)
        return sim_open(fd, mode, buffering, encoding, errors, newline)
    if base != "r":
        f = DISK.step("create" if base in "wx" else "append-open", file)
        if f is not None:
            if f["kind"] in ("crash", "powerloss"):
                DISK.die(f)
            raise DISK.err(f["kind"], file)
    sf = SimFile(file, flags)
    if base == "a":
        os.lseek(sf._fd, 0, os.SEEK_END)
    if "b" in mode:
        return sf
    return io.TextIOWrapper(sf, encoding=encoding or "utf-8", errors=errors, newline=newline, write_through=True)


_FD_FILES = {}


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if dir_fd is None and DISK.inside(path) and flags & (os.O_WRONLY | os.O_RDWR):
        f = DISK.step("create", path)
        if f is not None:
            if f["kind"] in ("crash", "powerloss"):
                DISK.die(f)
            raise DISK.err(f["kind"], path)
        fd = REAL_OS["open"](path, flags, mode)
        _FD_FILES[fd] = (path, flags)
        return fd
    if dir_fd is None:
        return REAL_OS["open"](path, flags, mode)
    return REAL_OS["open"](path, flags, mode, dir_fd=dir_fd)


def _os_write(fd, data):
    h = _FD_FILES.get(fd)
    if h is not None:
        f = DISK.step("write", h[0])
        if f is not None:
            k = f["kind"]
            n = int(len(data) * f.get("frac", 0.5))
            if k in ("crash", "powerloss"):
                REAL_OS["write"](fd, bytes(data)[:n])
                DISK.die(f)
            REAL_OS["write"](fd, bytes(data)[:n])
            raise DISK.err(k, h[0])
    return REAL_OS["write"](fd, data)


def _os_close(fd):
    _FD_FILES.pop(fd, None)
    return REAL_OS["close"](fd)


def _os_fsync(fd):
    if not isinstance(fd, int):
        fd = fd.fileno()
    for h in list(DISK.open_files.values()):
        if h._fd == fd:
            f = DISK.step("fsync", h.path)
            if f is not None:
                if f["kind"] in ("crash", "powerloss"):
                    DISK.die(f)
                raise DISK.err(f["kind"], h.path)
            h.synced()
            return None
    return REAL_OS["fsync"](fd)


def _two(name):
    real = REAL_OS[name]

    def op(src, dst, *a, **k):
        if DISK.inside(dst) or DISK.inside(src):
            f = DISK.step(name, dst)
            if f is not None:
                if f["kind"] in ("crash", "powerloss"):
                    if f.get("after"):
                        real(src, dst, *a, **k)
                    DISK.die(f)
                raise DISK.err(f["kind"], dst)
            real(src, dst, *a, **k)
            u = DISK.unsynced
            a_, b_ = os.path.abspath(os.fspath(src)), os.path.abspath(os.fspath(dst))
            if name != "link":
                u.pop(b_, None)
            if a_ in u:
                u[b_] = u[a_] if name == "link" else u.pop(a_)
            return None
        return real(src, dst, *a, **k)

    return op


def _one(name):
    real = REAL_OS[name]

    def op(path, *a, **k):
        if not isinstance(path, int) and DISK.inside(path):
            f = DISK.step(name, path)
            if f is not None:
                if f["kind"] in ("crash", "powerloss"):
                    DISK.die(f)
                raise DISK.err(f["kind"], path)
        return real(path, *a, **k)

    return op


def _install_disk():
    builtins.open = sim_open
    io.open = sim_open
    os.open = _os_open
    os.write = _os_write
    os.close = _os_close
    os.fsync = _os_fsync
    os.fdatasync = _os_fsync
    for n in ("replace", "rename", "link"):
        setattr(os, n, _two(n))
    for n in ("unlink", "remove", "truncate"):
        setattr(os, n, _one(n))
    real_fdopen = REAL_OS["fdopen"]

    def fdopen(fd, mode="r", buffering=-1, encoding=None, *a, **k):
        if fd in _FD_FILES:
            return sim_open(fd, mode, buffering, encoding, *a, **k)
        return real_fdopen(fd, mode, buffering, encoding, *a, **k)

    os.fdopen = fdopen


def install():
    _install_clock()
    _install_entropy()
    _install_disk()


ADAM_CAP = 100


def install_late():
    """Bound the work of one stochastic optimization (the final boost asks for
    10000 steps whatever the options say), so that more runs fit in a budget."""
    import pyvbmc.vbmc.variational_optimization as vo

    real = getattr(vo, "minimize_adam", None)
    if real is None:
        return

    def minimize_adam(*a, **k):
        m = k.get("max_iter")
        if m is not None and ADAM_CAP:
            k["max_iter"] = min(m, ADAM_CAP)
        return real(*a, **k)

    vo.minimize_adam = minimize_adam


def reset_all():
    CLOCK.reset()
    AMBIENT.reset(0)
    DISK.reset(None)
    RNGFAULTS.stop()
    _random.seed(0)
