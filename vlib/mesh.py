"""Mesh recipes (small JSON-able descriptions drawn by Hypothesis), the plain
meshes they describe, and comparison of plain meshes.

A *plain* mesh is a dict of numpy arrays; nothing here is meshio's own code, except
``to_mesh`` (builds the object handed to the code under test) and ``plain`` (reads
the attributes of a returned object).
"""
from __future__ import annotations

import re
from dataclasses import dataclass, field, replace  # noqa: F401

import numpy as np
from hypothesis import strategies as st

from .core import Violation, require

NN = {
    "vertex": 1, "line": 2, "triangle": 3, "quad": 4, "quad8": 8, "tetra": 4,
    "hexahedron": 8, "hexahedron20": 20, "hexahedron24": 24, "wedge": 6, "pyramid": 5,
    "line3": 3, "triangle6": 6, "triangle7": 7, "quad9": 9, "tetra10": 10,
    "hexahedron27": 27, "wedge15": 15, "wedge18": 18, "pyramid13": 13, "pyramid14": 14,
    "line4": 4, "triangle10": 10, "quad16": 16, "tetra20": 20, "wedge40": 40,
    "hexahedron64": 64, "line5": 5, "triangle15": 15, "quad25": 25, "tetra35": 35,
    "wedge75": 75, "hexahedron125": 125, "line6": 6, "triangle21": 21, "quad36": 36,
    "tetra56": 56, "wedge126": 126, "hexahedron216": 216, "line7": 7,
    "triangle28": 28, "quad49": 49, "tetra84": 84, "wedge196": 196,
    "hexahedron343": 343, "line8": 8, "triangle36": 36, "quad64": 64,
    "tetra120": 120, "wedge288": 288, "hexahedron512": 512, "line9": 9,
    "triangle45": 45, "quad81": 81, "tetra165": 165, "wedge405": 405,
    "hexahedron729": 729, "line10": 10, "triangle55": 55, "quad100": 100,
    "tetra220": 220, "wedge550": 550, "hexahedron1000": 1000,
    "hexahedron1331": 1331, "line11": 11, "triangle66": 66, "quad121": 121,
    "tetra286": 286,
}
TDIM = {"vertex": 0}
for _t in NN:
    if _t.startswith("line"):
        TDIM[_t] = 1
    elif _t.startswith(("triangle", "quad")):
        TDIM[_t] = 2
    elif _t != "vertex":
        TDIM[_t] = 3
TDIM["polygon"] = 2
for _t, _d in (("CURVE", 1), ("TRIANGLE", 2), ("QUADRILATERAL", 2), ("TETRAHEDRON", 3), ("HEXAHEDRON", 3), ("WEDGE", 3), ("PYRAMID", 3)):
    TDIM["VTK_LAGRANGE_" + _t] = _d
# cell types with a variable number of nodes: the widths we generate
VAR = {
    "polygon": tuple(range(3, 9)),
    "VTK_LAGRANGE_CURVE": (2, 3, 4, 5, 6),
    "VTK_LAGRANGE_TRIANGLE": (3, 6, 10, 15),
    "VTK_LAGRANGE_QUADRILATERAL": (4, 9, 16),
    "VTK_LAGRANGE_TETRAHEDRON": (4, 10, 20),
    "VTK_LAGRANGE_HEXAHEDRON": (8, 27),
    "VTK_LAGRANGE_WEDGE": (6, 18),
    "VTK_LAGRANGE_PYRAMID": (5, 14),
}

# ---------------------------------------------------------------- recipe -> arrays


def fill(rng, shape, dt, mode):
    """Deterministic values for one array."""
    d = np.dtype(dt)
    if d.kind == "f":
        if mode in ("int", "zero-up", "pos-int"):
            a = rng.integers(-9, 10, size=shape).astype(float)
        elif mode == "unit":
            a = rng.uniform(-1, 1, size=shape)
        elif mode == "pos":
            a = rng.uniform(0.001, 1000, size=shape)
        elif mode == "dec":  # few decimals
            a = rng.integers(-9999, 10000, size=shape) / 100.0
        elif mode == "wide":
            a = rng.uniform(1, 10, size=shape) * 10.0 ** rng.integers(-30, 31, size=shape)
            a = a * rng.choice([-1.0, 1.0], size=shape)
        elif mode == "huge":
            e = 290 if d.itemsize == 8 else 37
            a = rng.uniform(1, 10, size=shape) * 10.0 ** rng.integers(-e, e + 1, size=shape)
            a = a * rng.choice([-1.0, 1.0], size=shape)
        elif mode == "special":
            fi = np.finfo(d)
            pool = [0.0, -0.0, 1 / 3, -1 / 3, 0.1, 123456789.123456789, 1e-5, 1e16, -1e16,
                    float(fi.max), float(-fi.max), float(fi.tiny), float(fi.eps), 1 + float(fi.eps),
                    np.pi, -1.0, 1e5, 99999.5, 0.5, 9.969209968386869e36]
            a = rng.choice(np.array(pool), size=shape)
        elif mode == "nan":
            pool = [0.0, 1.5, -2.25, np.nan, np.inf, -np.inf, 1e10]
            a = rng.choice(np.array(pool), size=shape)
        else:
            raise ValueError(mode)
        return np.asarray(a, dtype=d)
    info = np.iinfo(d)
    if mode in ("int", "dec"):
        lo, hi = max(info.min, -9), 9
    elif mode in ("unit", "pos"):
        lo, hi = max(info.min, -30000 if mode == "unit" else 0), min(info.max, 30000)
    elif mode == "zero-up":
        lo, hi = 0, 5
    elif mode == "pos-int":
        lo, hi = 1, 9
    else:
        lo, hi = info.min, info.max
    a = rng.integers(lo, hi, size=shape, dtype=d.newbyteorder("="), endpoint=True)
    if mode in ("special", "wide", "huge", "nan") and a.size:
        m = rng.random(shape) < 0.3
        ext = [info.min, info.max]
        if info.bits > 8:
            ext.append(info.min + (2 if info.bits == 64 else 1) if info.min else info.max - 1)  # netCDF's fill values
        a[m] = rng.choice(np.array(ext, dtype=d.newbyteorder("=")), size=int(m.sum()))
    return np.asarray(a, dtype=d)


def conn(rng, n, nc, k, dt):
    if n < k:
        return np.asarray(rng.integers(0, n, size=(nc, k)), dtype=dt)
    if n * nc <= 100_000:
        a = rng.random((nc, n)).argsort(axis=1)[:, :k]
    else:
        base = rng.integers(0, n, size=(nc, 1))
        perm = rng.permutation(k)
        a = (base + perm[None, :]) % n
    return np.asarray(a, dtype=dt)


def pattern(rng, a, mode, same=None):
    """Now and then, values with structure: constant, zero, sorted, repeated, the same in all arrays."""
    if same is not None and a.size and a.dtype.kind in "iuf" and mode not in ("pos", "pos-int"):
        a[...] = (np.arange(a.size).reshape(a.shape) % same)
        return a
    u = rng.random()
    if not a.size or u > 0.25 or a.dtype.kind not in "iuf":
        return a
    if u < 0.06:
        a[...] = a.flat[0]
    elif u < 0.14:
        if mode in ("pos", "pos-int"):
            a[...] = a.flat[0]
        else:
            a[...] = 0
    elif u < 0.17:
        a.sort(axis=0)
    elif u < 0.20:
        a[...] = a[0]
    else:
        a[...] = a[rng.integers(0, min(len(a), 3), size=len(a))]
    return a


def build(r):
    """recipe -> plain mesh"""
    rng = np.random.Generator(np.random.PCG64(r["seed"]))
    n = r["n"]
    points = fill(rng, (n, r["dim"]), r.get("pdt", "f8"), r.get("pm", "unit"))
    u = rng.random()
    if n and u < 0.08:  # flat
        points[:, -1] = 0
    elif n and u < 0.12:
        points[:, -1] = points[0, -1]
    elif n and u < 0.18:  # points that coincide
        m = rng.random(n) < 0.5
        points[m] = points[rng.integers(0, n, size=int(m.sum()))]
    elif n and u < 0.23 and points.dtype.kind == "f" and points.dtype.itemsize == 8 and r.get("pm", "unit") in ("unit", "wide"):  # that nearly coincide
        m = rng.random(n) < 0.6
        k = int(m.sum())
        points[m] = points[rng.integers(0, n, size=k)] * (1 + (rng.random((k, r["dim"])) < 0.5) * (2.0**-52, 1e-14, 1e-11, 1e-8, 1e-5)[int(rng.integers(0, 5))])
    cells = []
    for b in r["blocks"]:
        t, nc, dt = b[:3]
        k = b[3] if len(b) > 3 else NN[t]
        cells.append((t, conn(rng, n, nc, k, dt)))
    p = {"points": points, "cells": cells, "point_data": {}, "cell_data": {},
         "point_sets": {}, "cell_sets": {}, "field_data": {}, "lay": r.get("lay", "C")}
    u = rng.random()
    same = 1 if u < 0.06 else 5 if u < 0.09 else None
    for name, dt, shape, mode in r.get("pd", []):
        p["point_data"][name] = pattern(rng, fill(rng, (n, *shape), dt, mode), mode, same)
    for name, dt, shape, mode in r.get("cd", []):
        p["cell_data"][name] = [
            pattern(rng, fill(rng, (len(c), *shape), dt, mode), mode, same) for _, c in cells
        ]
    for name, dt, shape, mode in r.get("fd", []):
        p["field_data"][name] = fill(rng, tuple(shape), dt, mode)
    put = (lambda x: x) if r["seed"] % 3 == 1 else np.sort  # sets don't have to be in order
    for name, size in r.get("psets", []):
        p["point_sets"][name] = put(rng.permutation(n)[: min(size, n)])
    for name, sizes in r.get("csets", []):
        p["cell_sets"][name] = [
            put(rng.permutation(len(c))[: min(s, len(c))])
            for s, (_, c) in zip(sizes, cells)
        ]
    return p


LAYOUTS = ("C", "F", "strided", "readonly", "reversed", "setlists", "swapped", "swapped")


def relayout(x, lay):
    """A fresh array with the same values and dtype, laid out differently in memory."""
    if not isinstance(x, np.ndarray):
        return list(x) if isinstance(x, list) else x
    if lay == "F":
        return np.array(x, order="F")
    if lay == "strided":
        b = np.empty(tuple(2 * s + 1 for s in x.shape), dtype=x.dtype)
        if x.dtype.kind in "iufc":
            b.fill(77)
        v = b[tuple(slice(0, 2 * s, 2) for s in x.shape)]
        v[...] = x
        return v
    if lay == "swapped" and x.dtype.kind in "iufc":  # as the reader of binary VTK files returns them
        return np.array(x, dtype=x.dtype.newbyteorder("S"), order="C")
    if lay == "reversed":
        return np.array(x[::-1], order="C")[::-1]
    y = np.array(x, order="C")
    if lay == "readonly":
        y.setflags(write=False)
    return y


def to_mesh(p, **kw):
    import meshio

    lay = p.get("lay", "C")

    def c(x):
        return relayout(x, lay)

    def s(x):
        return x.tolist() if lay == "setlists" and isinstance(x, np.ndarray) else relayout(x, lay)

    args = dict(
        point_data={k: c(v) for k, v in p["point_data"].items()},
        cell_data={k: [c(x) for x in v] for k, v in p["cell_data"].items()},
        field_data={k: c(v) for k, v in p["field_data"].items()},
        point_sets={k: s(v) for k, v in p["point_sets"].items()},
        cell_sets={k: [s(x) for x in v] for k, v in p["cell_sets"].items()},
    )
    args.update(kw)
    return meshio.Mesh(
        c(p["points"]),
        [(t, c(d) if isinstance(d, np.ndarray) else [[list(f) for f in cell] for cell in d]) for t, d in p["cells"]],
        **args,
    )


def plain(m):
    """Mesh object -> plain mesh (deep copies)."""

    def a(x):
        if isinstance(x, np.ma.MaskedArray) and np.ma.getmaskarray(x).any():
            raise Violation(f"values {x.data[np.ma.getmaskarray(x)][:3]} are masked out in the array handed to the user")
        return np.array(x)

    return {
        "points": a(m.points),
        "cells": [
            (c.type, a(c.data) if not c.type.startswith("polyhedron") else [[list(map(int, f)) for f in cell] for cell in c.data])
            for c in m.cells
        ],
        "point_data": {k: a(v) for k, v in m.point_data.items()},
        "cell_data": {k: [a(x) for x in v] for k, v in m.cell_data.items()},
        "field_data": {k: list(v) if k == "med:nom" else a(v) for k, v in m.field_data.items()},
        "point_sets": {k: a(v) for k, v in m.point_sets.items()},
        "cell_sets": {k: [None if x is None else a(x) for x in v] for k, v in m.cell_sets.items()},
        "periodic": getattr(m, "gmsh_periodic", None),
    }


# ---------------------------------------------------------------- normalisations


def pad3(p):
    """2D points get a zero third coordinate."""
    q = dict(p)
    pts = p["points"]
    if pts.shape[1] == 2:
        q["points"] = np.column_stack([pts, np.zeros_like(pts[:, 0])])
    return q


def merge_adjacent(p, types=None):
    """Consecutive blocks of one type (and width) become one block."""
    groups = []
    for i, (t, d) in enumerate(p["cells"]):
        if (groups and p["cells"][groups[-1][0]][0] == t
                and (types is None or t in types)
                and np.shape(p["cells"][groups[-1][0]][1])[1:] == np.shape(d)[1:]):
            groups[-1].append(i)
        else:
            groups.append([i])
    return regroup(p, groups)


def regroup(p, groups):
    q = dict(p)
    groups = [g for g in groups if g]
    q["cells"] = [
        (p["cells"][g[0]][0], np.concatenate([p["cells"][i][1] for i in g])) for g in groups
    ]
    q["cell_data"] = {
        k: [np.concatenate([v[i] for i in g]) for g in groups]
        for k, v in p["cell_data"].items()
    }
    cs = {}
    for k, v in p["cell_sets"].items():
        out = []
        for g in groups:
            off, parts = 0, []
            for i in g:
                if v[i] is not None:
                    parts.append(np.asarray(v[i], dtype=int) + off)
                off += len(p["cells"][i][1])
            out.append(np.concatenate(parts) if parts else np.zeros(0, int))
        cs[k] = out
    q["cell_sets"] = cs
    return q


def group_by_type(p, order=None):
    """One block per type; types in order of first appearance (or ``order``)."""
    types = []
    for t, _ in p["cells"]:
        if t not in types:
            types.append(t)
    if order is not None:
        types.sort(key=order.index)
    groups = [[i for i, (u, _) in enumerate(p["cells"]) if u == t] for t in types]
    return regroup(p, groups)


def without(p, *keys):
    q = dict(p)
    for k in keys:
        q[k] = {}
    return q


# ---------------------------------------------------------------- comparison


def arr_diff(a, b, what, rtol=0.0, atol=0.0, dtype=None, bits=True, cast=False):
    """a expected, b got -> None or message"""
    a, b = np.asarray(a), np.asarray(b)
    if cast and b.dtype != a.dtype and b.dtype.kind in "iuf" and a.dtype.kind in "iuf":
        with np.errstate(all="ignore"):
            c = b.astype(a.dtype)
        if a.dtype.kind in "iu" and b.dtype.kind == "f" and b.size and not np.array_equal(c.astype(b.dtype), b):
            return f"{what}: values {b.ravel()[:5]} are not integers of {a.dtype}"
        b = c
    if a.shape != b.shape:
        return f"{what}: shape {b.shape}, expected {a.shape}"
    if dtype == "exact" and a.dtype.newbyteorder("=") != b.dtype.newbyteorder("="):
        return f"{what}: dtype {b.dtype}, expected {a.dtype}"
    if dtype == "kind" and ("i" if a.dtype.kind == "u" else a.dtype.kind) != (
        "i" if b.dtype.kind == "u" else b.dtype.kind
    ):
        return f"{what}: dtype {b.dtype}, expected kind of {a.dtype}"
    if a.size == 0:
        return None
    if a.dtype.kind in "iub" and b.dtype.kind in "iub":
        bad = a.astype(object) != b.astype(object) if (a.dtype.kind != b.dtype.kind) else a != b
    elif rtol == 0 and atol == 0:
        bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
        if bits and not bad.any() and a.dtype.kind == "f" and b.dtype.kind == "f":
            bad = np.signbit(a) != np.signbit(b)
            bad &= ~np.isnan(a)
    else:
        with np.errstate(all="ignore"):
            x, y = a.astype(float), b.astype(float)
            bad = ~((np.abs(x - y) <= atol + rtol * np.abs(x)) | (x == y) | (np.isnan(x) & np.isnan(y)))
    if np.any(bad):
        i = tuple(int(j[0]) for j in np.nonzero(bad))
        return (f"{what}: {int(np.sum(bad))} of {a.size} entries differ, first at {list(i)}: "
                f"got {b[i]!r}, expected {a[i]!r}")
    return None


@dataclass
class Cmp:
    rtol: float = 0.0  # points
    atol: float = 0.0
    drtol: float = 0.0  # data
    datol: float = 0.0
    pdtype: object = None  # None | "kind" | "exact"
    ddtype: object = None
    bits: bool = True
    point_data: bool = True
    cell_data: bool = True
    field_data: bool = False
    sets: bool = False
    ignore_extra: tuple = ()  # data names that may appear in addition
    blocks_exact: bool = True
    set_order: bool = False
    periodic: bool = False
    cast: bool = False  # the format has one numeric type: compare after converting back


def cells_diff(ea, ga):
    if [t for t, _ in ea] != [t for t, _ in ga] or [len(d) for _, d in ea] != [len(d) for _, d in ga]:
        return (f"cell blocks {[(t, len(d)) for t, d in ga]}, "
                f"expected {[(t, len(d)) for t, d in ea]}")
    for i, ((t, a), (_, b)) in enumerate(zip(ea, ga)):
        if t.startswith("polyhedron"):
            if [[list(map(int, f)) for f in c] for c in a] != [[list(map(int, f)) for f in c] for c in b]:
                return f"cells[{i}] ({t}): {b} expected {a}"
            continue
        if np.asarray(b).dtype.kind not in "iu":
            return f"cells[{i}] ({t}): connectivity dtype {np.asarray(b).dtype}"
        d = arr_diff(a, b, f"cells[{i}] ({t})")
        if d:
            return d
    return None


def mesh_diff(e, g, c=Cmp()):
    d = arr_diff(e["points"], g["points"], "points", c.rtol, c.atol, c.pdtype, c.bits, c.cast)
    if d:
        return d
    d = cells_diff(e["cells"], g["cells"])
    if d:
        return d
    if c.point_data:
        ks = [k for k in g["point_data"] if k in e["point_data"] or k not in c.ignore_extra]
        if sorted(ks) != sorted(e["point_data"]):
            return f"point_data names {sorted(g['point_data'])}, expected {sorted(e['point_data'])}"
        for k, v in e["point_data"].items():
            d = arr_diff(v, g["point_data"][k], f"point_data[{k!r}]", c.drtol, c.datol, c.ddtype, c.bits, c.cast)
            if d:
                return d
    if c.cell_data:
        ks = [k for k in g["cell_data"] if k in e["cell_data"] or k not in c.ignore_extra]
        if sorted(ks) != sorted(e["cell_data"]):
            return f"cell_data names {sorted(g['cell_data'])}, expected {sorted(e['cell_data'])}"
        for k, v in e["cell_data"].items():
            w = g["cell_data"][k]
            if len(w) != len(v):
                return f"cell_data[{k!r}] has {len(w)} blocks, expected {len(v)}"
            for i in range(len(v)):
                d = arr_diff(v[i], w[i], f"cell_data[{k!r}][{i}]", c.drtol, c.datol, c.ddtype, c.bits, c.cast)
                if d:
                    return d
    if c.field_data:
        if sorted(g["field_data"]) != sorted(e["field_data"]):
            return f"field_data names {sorted(g['field_data'])}, expected {sorted(e['field_data'])}"
        for k, v in e["field_data"].items():
            d = arr_diff(v, g["field_data"][k], f"field_data[{k!r}]", c.drtol, c.datol, c.ddtype, c.bits, c.cast)
            if d:
                return d
    if c.sets:
        d = sets_diff(e, g, c.set_order)
        if d:
            return d
    if c.periodic:
        return periodic_diff(e.get("periodic"), g.get("periodic"), c.rtol)
    return None


def periodic_diff(a, b, rtol):
    a, b = a or [], b or []
    if len(a) != len(b):
        return f"{len(b)} periodic links, expected {len(a)}"
    for i, (x, y) in enumerate(zip(a, b)):
        if int(x[0]) != int(y[0]) or tuple(map(int, x[1])) != tuple(map(int, y[1])):
            return f"periodic link {i}: {y[:2]}, expected {x[:2]}"
        ax = np.zeros(0) if x[2] is None else x[2]
        ay = np.zeros(0) if y[2] is None else y[2]
        d = arr_diff(ax, ay, f"periodic[{i}] affine", max(rtol, 1e-15)) or arr_diff(x[3], y[3], f"periodic[{i}] nodes")
        if d:
            return d
    return None


def _norm(s, order):
    s = [] if s is None else [int(x) for x in np.asarray(s).ravel()]
    return s if order else sorted(s)


def arr_dicts_same(a, b):
    """dictionaries of integer arrays with the same entries"""
    return set(a) == set(b) and all(np.asarray(a[k]).shape == np.asarray(b[k]).shape and np.array_equal(a[k], b[k]) for k in a)


def sets_diff(e, g, order=False):
    if sorted(e["point_sets"]) != sorted(g["point_sets"]):
        return f"point_sets names {sorted(g['point_sets'])}, expected {sorted(e['point_sets'])}"
    for k, v in e["point_sets"].items():
        a, b = _norm(v, order), _norm(g["point_sets"][k], order)
        if a != b:
            return f"point_sets[{k!r}] = {b}, expected {a}"
    if sorted(e["cell_sets"]) != sorted(g["cell_sets"]):
        return f"cell_sets names {sorted(g['cell_sets'])}, expected {sorted(e['cell_sets'])}"
    for k, v in e["cell_sets"].items():
        w = g["cell_sets"][k]
        if len(w) != len(v):
            return f"cell_sets[{k!r}] has {len(w)} blocks, expected {len(v)}"
        for i in range(len(v)):
            a, b = _norm(v[i], order), _norm(w[i], order)
            if a != b:
                return f"cell_sets[{k!r}][{i}] = {b}, expected {a}"
    return None


def assert_same(e, g, c=Cmp(), what=""):
    d = mesh_diff(e, g, c)
    if d:
        raise Violation(f"{what}: {d}" if what else d)


def internally_consistent(m):
    """Every invariant a Mesh handed to the user must satisfy."""
    n = len(m.points)
    require(np.asarray(m.points).ndim == 2, f"points has shape {np.shape(m.points)}")
    for i, c in enumerate(m.cells):
        if c.type.startswith("polyhedron"):
            continue
        d = np.asarray(c.data)
        require(d.ndim == 2, f"cells[{i}] has shape {d.shape}")
        if c.type in NN:
            require(d.shape[1] == NN[c.type], f"cells[{i}] ({c.type}) has width {d.shape[1]}")
    for k, v in m.point_data.items():
        require(len(v) == n, f"point_data[{k!r}] has {len(v)} rows for {n} points")
    for k, v in m.cell_data.items():
        require(len(v) == len(m.cells), f"cell_data[{k!r}] has {len(v)} blocks for {len(m.cells)}")
        for i, (x, c) in enumerate(zip(v, m.cells)):
            require(len(x) == len(c.data), f"cell_data[{k!r}][{i}] has {len(x)} rows for {len(c.data)} cells")


# ---------------------------------------------------------------- strategies


@dataclass
class Data:
    dtypes: tuple = ("f8",)
    shapes: tuple = ((),)
    modes: tuple = ("int", "unit", "wide", "special")
    names: tuple = ("a", "u", "temp", "B2", "vel_x", "Z", "displacement", "q1", "_h", "name2", "k", "longer_name_with_digits_0123")
    max: int = 3
    min: int = 0
    chars: str = ""  # characters of further, random names
    avoid: str = ""  # pattern of names that mean something to the format


LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^`{|}~"
ANYNAME = PUNCT + LETTERS + "éß日"


def chars(without="", plus=""):
    return "".join(c for c in ANYNAME if c not in without) + plus


@dataclass
class Dom:
    types: tuple = ("triangle",)
    dims: tuple = (3,)
    pdt: tuple = ("f8",)
    pmodes: tuple = ("int", "unit", "wide", "special")
    idt: tuple = ("i8",)
    max_blocks: int = 4
    min_blocks: int = 1
    unique: bool = False
    adjacent_same: bool = True
    pd: object = None
    cd: object = None
    min_cells: int = 1
    max_extra: int = 6  # additional points
    large: tuple = ()  # choice of large sizes (n_points = n_cells)
    psets: tuple = ()  # candidate names
    csets: tuple = ()
    schars: str = ""  # characters of further, random names of sets
    set_min: int = 0
    max_cells: int = 5
    seedbits: int = 30
    same_dtype_per_mesh: bool = True
    layouts: tuple = LAYOUTS[1:]


BIGSIZES = st.one_of(
    st.sampled_from([127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4096, 4097, 8191, 8192, 8192, 8193]),
    st.integers(64, 5000),
)


def tagval(rng, lo=0, hi=9):
    """An identifier: usually small, sometimes one that collides under a sloppy key
    (dim * 2**k + tag, concatenated decimals, narrow integers)."""
    if rng.random() < 0.6:
        return int(rng.integers(lo, hi))
    base = (10, 100, 128, 255, 256, 1000, 1024, 4096, 10000, 32768, 65535, 65536, 100000, 1000000, 1 << 24, 1 << 30)
    return int(base[int(rng.integers(0, len(base)))]) + int(rng.integers(0, 4))


def enlarge(draw, r, limit, cells=60000):
    n = min(draw(BIGSIZES), limit)
    r["n"] = max(r["n"], n)
    if r["blocks"]:
        b = r["blocks"][draw(st.integers(0, len(r["blocks"]) - 1))]
        k = b[3] if len(b) > 3 else NN[b[0]]
        nc = min(draw(BIGSIZES), limit, max(1, cells // k))
        b[1] = max(b[1], nc)
        for c in r["blocks"]:
            if np.iinfo(c[2]).max <= r["n"]:
                c[2] = "i8"
    return r


@st.composite
def big_recipes(draw, dom: Dom, limit=9000):
    """Meshes of some hundred to some thousand points and cells."""
    return enlarge(draw, draw(recipes(replace(dom, large=()))), limit)


HUGESIZES = st.one_of(st.integers(65537, 70000), st.sampled_from([32767, 32768, 65535, 65536]))


@st.composite
def huge_recipes(draw, dom: Dom):
    """More points, and of the smaller cell types more cells, than 16 bits can count."""
    r = draw(recipes(replace(dom, large=())))
    r["n"] = draw(HUGESIZES)
    if r["blocks"]:
        b = r["blocks"][draw(st.integers(0, len(r["blocks"]) - 1))]
        b[1] = min(draw(HUGESIZES), 200_000 // (b[3] if len(b) > 3 else NN[b[0]]))
        for c in r["blocks"]:
            if np.iinfo(c[2]).max <= r["n"]:
                c[2] = "i8"
    return r


@st.composite
def big_cases(draw, cases, limit=4000):
    """The same cases with a mesh of some hundred to some thousand points and cells."""
    c = draw(cases)
    ms = c["mesh"] if isinstance(c["mesh"], list) else [c["mesh"]]
    enlarge(draw, ms[draw(st.integers(0, len(ms) - 1))], limit, 20000)
    return c


@st.composite
def set_names(draw, dom, base):
    names = draw(st.lists(st.sampled_from(base), unique=True, max_size=min(3, len(base))))
    if dom.schars and names and draw(st.integers(0, 4)) == 4:
        k = draw(st.text(alphabet=dom.schars, min_size=1, max_size=8)).strip() or "s"
        if k not in names:
            names[draw(st.integers(0, len(names) - 1))] = k
    return names


@st.composite
def recipes(draw, dom: Dom):
    r = {"dim": draw(st.sampled_from(dom.dims))}
    if dom.layouts and draw(st.integers(0, 3)) == 3:
        r["lay"] = draw(st.sampled_from(dom.layouts))
    r["pdt"] = draw(st.sampled_from(dom.pdt))
    r["pm"] = draw(st.sampled_from(dom.pmodes))
    big = bool(dom.large) and draw(st.integers(0, 24)) == 24
    nb = draw(st.integers(dom.min_blocks, dom.max_blocks))
    idt = draw(st.sampled_from(dom.idt))
    blocks = []
    used = set()
    for i in range(nb):
        cand = [t for t in dom.types if not (dom.unique and t in used)]
        if not dom.adjacent_same and blocks:
            cand = [t for t in cand if t != blocks[-1][0]]
        if not cand:
            break
        t = draw(st.sampled_from(cand))
        used.add(t)
        nc = draw(st.integers(dom.min_cells, dom.max_cells))
        b = [t, nc, idt]
        if t in VAR:
            b.append(draw(st.sampled_from(VAR[t])))
        blocks.append(b)
    kmax = max([b[3] if len(b) > 3 else NN[b[0]] for b in blocks], default=1)
    n = kmax + draw(st.integers(0, dom.max_extra))
    if big:
        size = draw(st.sampled_from(dom.large))
        n = max(n, size)
        if blocks:
            blocks[draw(st.integers(0, len(blocks) - 1))][1] = size
    for b in blocks:
        if np.iinfo(b[2]).max < n:
            b[2] = "i8"
    r["n"] = n
    r["blocks"] = blocks
    for key, d in (("pd", dom.pd), ("cd", dom.cd)):
        r[key] = draw(data_list(d)) if d is not None else []
    if dom.psets:
        names = draw(set_names(dom, dom.psets))
        r["psets"] = [[k, draw(st.integers(dom.set_min, max(n, dom.set_min)))] for k in names]
    if dom.csets:
        names = draw(set_names(dom, dom.csets))
        r["csets"] = [[k, [draw(st.integers(dom.set_min, max(b[1], dom.set_min))) for b in blocks]] for k in names]
    r["seed"] = draw(st.integers(0, 2**dom.seedbits))
    return r


@st.composite
def data_list(draw, d: Data):
    names = draw(st.lists(st.sampled_from(d.names), unique=True, min_size=d.min, max_size=min(d.max, len(d.names))))
    if d.chars and names and draw(st.integers(0, 4)) == 4:
        k = draw(st.text(alphabet=d.chars, min_size=1, max_size=8))
        if k not in names and not (d.avoid and re.search(d.avoid, k)):
            names[draw(st.integers(0, len(names) - 1))] = k
    return [
        [k, draw(st.sampled_from(d.dtypes)), list(draw(st.sampled_from(d.shapes))), draw(st.sampled_from(d.modes))]
        for k in names
    ]


def classify_recipe(r):
    """(nontrivial, labels): non-trivial = >1 block, or any data/sets, or non-unit size."""
    labels = []
    nb = len(r["blocks"])
    labels.append(f"blocks={min(nb, 4)}{'+' if nb > 4 else ''}")
    labels += [f"type:{b[0]}" for b in r["blocks"]]
    if r.get("pd"):
        labels.append("point_data")
    if r.get("cd"):
        labels.append("cell_data")
    if r.get("psets"):
        labels.append("point_sets")
    if r.get("csets"):
        labels.append("cell_sets")
    if r["n"] > 90:
        labels.append("large")
    labels.append(f"dim={r['dim']}")
    nt = nb > 1 or bool(r.get("pd") or r.get("cd") or r.get("psets") or r.get("csets")) or (
        bool(r["blocks"]) and sum(b[1] for b in r["blocks"]) > 1
    )
    return nt, labels
