"""Canonical digests and structural comparison of simulated state."""
import hashlib
import math
import types

import numpy as np


def _feed(h, o, skip, seen, depth):
    if o is None:
        h.update(b"N")
    elif isinstance(o, (bool, np.bool_)):
        h.update(b"B1" if o else b"B0")
    elif isinstance(o, (int, np.integer)):
        h.update(b"I%d" % int(o))
    elif isinstance(o, (float, np.floating)):
        f = float(o) + 0.0
        h.update(b"Fnan" if math.isnan(f) else b"F" + f.hex().encode())
    elif isinstance(o, str):
        h.update(b"S" + o.encode("utf-8", "replace") + b"\0")
    elif isinstance(o, bytes):
        h.update(b"Y" + o)
    elif isinstance(o, np.ndarray):
        h.update(b"A" + str(o.shape).encode())
        if o.dtype == object:
            for e in o.ravel():
                _feed(h, e, skip, seen, depth + 1)
        elif o.dtype.kind in "fc":
            a = np.array(o, dtype=complex if o.dtype.kind == "c" else float)
            a[np.isnan(a)] = np.nan
            a = a + 0.0
            h.update(np.ascontiguousarray(a).tobytes())
        else:
            h.update(np.ascontiguousarray(o).astype(np.int64, copy=False).tobytes() if o.dtype.kind in "iub" else repr(o.tolist()).encode())
    elif isinstance(o, (list, tuple)):
        h.update(b"L%d" % len(o))
        for e in o:
            _feed(h, e, skip, seen, depth + 1)
    elif isinstance(o, (set, frozenset)):
        h.update(b"T")
        for e in sorted(repr(x) for x in o):
            h.update(e.encode())
    elif isinstance(o, dict):
        h.update(b"D")
        for k in sorted(o, key=repr):
            if k in skip:
                continue
            h.update(repr(k).encode())
            _feed(h, o[k], skip, seen, depth + 1)
    elif isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type)):
        h.update(b"f" + getattr(o, "__qualname__", "?").encode())
    elif hasattr(o, "__dict__"):
        if id(o) in seen or depth > 40:
            h.update(b"cycle")
            return
        seen = seen | {id(o)}
        h.update(b"O" + type(o).__name__.encode())
        _feed(h, vars(o), skip, seen, depth + 1)
    else:
        h.update(b"?" + repr(type(o)).encode())


SKIP_DEFAULT = frozenset(["fun", "logger", "timer"])


def digest(o, skip=SKIP_DEFAULT):
    h = hashlib.blake2b(digest_size=12)
    _feed(h, o, skip, frozenset(), 0)
    return h.hexdigest()


def same(a, b):
    """Bit-exact equality of scalars/arrays with NaN == NaN."""
    return digest(a) == digest(b)


def first_diff(a, b, path=""):
    """Where two signature structures (dict/list/scalars) first differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a or k not in b:
                return f"{path}.{k}: only on one side"
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        return None
    if digest(a) != digest(b):
        return f"{path}: {short(a)} vs {short(b)}"
    return None


def short(x, n=160):
    s = repr(x).replace("\n", " ")
    return s if len(s) <= n else s[: n - 3] + "..."
