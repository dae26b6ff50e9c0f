"""What a file says, apart from the time of writing and details of its container."""
from __future__ import annotations

import gzip
import os
import re

import numpy as np

TIME = re.compile(rb"\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?|[A-Z][a-z]{2} [A-Z][a-z]{2} [ \d]\d \d\d:\d\d:\d\d \d{4}")


def _val(a):
    a = np.asarray(a)
    if a.dtype.hasobject:
        if a.dtype.metadata and "ref" in a.dtype.metadata:
            return None
        return repr(a.tolist())
    return (a.dtype.str if a.dtype.names is None else repr(a.dtype), a.shape, a.tobytes())


def hdf(path):
    import h5py

    out = {}

    def visit(name, obj):
        if os.path.basename(name) == "history":  # H5M: program and time
            return
        at = {}
        for k in obj.attrs:
            if k.startswith("_") or k in ("title", "REFERENCE_LIST", "DIMENSION_LIST"):
                continue
            at[k] = _val(obj.attrs[k])
        if isinstance(obj, h5py.Dataset):
            out[name] = ("data", _val(obj[()]), at)
        elif isinstance(obj, h5py.Group):
            out[name] = ("group", at)
        else:
            out[name] = ("type", repr(obj.dtype))

    with h5py.File(path, "r") as f:
        visit("/", f)
        f.visititems(visit)
    return out


def content(path, strip=()):
    with open(path, "rb") as f:
        b = f.read()
    if b[:4] == b"\x89HDF":
        return hdf(path)
    if b[:2] == b"\x1f\x8b":
        b = gzip.decompress(b)
    for s in strip:
        b = b.replace(os.fsencode(s), b"")
    return TIME.sub(b"TIME", b)


def differ(a, b):
    """None or how two contents differ"""
    if type(a) is not type(b):
        return "kinds of file"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"entries {sorted(set(a) ^ set(b))}"
        bad = [k for k in a if a[k] != b[k]]
        return f"contents of {bad}" if bad else None
    if a == b:
        return None
    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f"at byte {k} (lengths {len(a)}, {len(b)}): {a[max(0, k - 20):k + 20]!r} / {b[max(0, k - 20):k + 20]!r}"


def dirs_differ(x, y, extra=False):
    """compare the files below two directories; extra: x may contain further ones"""
    def ls(d):
        return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)

    a, b = ls(x), ls(y)
    if (set(b) - set(a)) if extra else a != b:
        return f"files {a} / {b}"
    for k in b:
        d = differ(content(os.path.join(x, k), (os.path.abspath(x),)), content(os.path.join(y, k), (os.path.abspath(y),)))
        if d:
            return f"{k} differs: {d}"
    return None
