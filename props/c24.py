"""Conversion chains: a mesh read from one format is written to another, and so on."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib import mesh as M
from vlib.core import Suite, Violation, require, sut
from vlib.fmt_misc import fl_flat
from vlib.registry import VARIANTS, load_all

from .common import do_read, do_write, got_plain, mesh_for, plain_for

load_all()

RULE = (
    "Hypothesis draws a mesh (cell types from one of the families the formats share, coordinates and data that every format can represent, plus labels, sets and field data as several readers produce "
    "them) and a walk of 1-6 formats among those that can store its cells; each mesh read is passed to the next writer as it is; non-trivial: at least two conversions. "
    "odd/: a mesh of the variant's domain plus 1-2 arrays of drawn dtype and shape; always non-trivial."
)
# formats whose reader needs more than the path, or that cannot be told apart in a walk
VS = [v for v in VARIANTS.values() if v.writer is None and v.reader is None and v.fmt != "svg" and not v.group.endswith("-out")]
REORDER = ("su2",)  # cells are sorted by their marker
FAMILIES = {
    "tri": (("triangle",), (2, 3)), "surf": (("triangle", "quad"), (2, 3)), "quad": (("quad",), (2, 3)), "lines": (("line", "triangle"), (2, 3)), "tet": (("tetra",), (3,)),
    "tettri": (("triangle", "tetra"), (3,)), "hex": (("hexahedron",), (3,)), "vol": (("tetra", "hexahedron", "wedge", "pyramid"), (3,)), "all": (("line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"), (3,)),
    "tri6": (("triangle6",), (2, 3)), "tet10": (("tetra10", "triangle6"), (3,)), "line": (("line",), (3,)), "vert": (("vertex", "line", "triangle"), (3,)),
}


def grid(rng, shape):
    """values which are exact in single precision and in six digits"""
    return rng.integers(-2000, 2000, shape) / 8


@st.composite
def cases(draw):
    fam = draw(st.sampled_from(sorted(FAMILIES)))
    types, dims = FAMILIES[fam]
    some = [t for t in types if len(types) < 3 or draw(st.booleans())] or [types[-1]]
    return {
        "family": fam, "dim": draw(st.sampled_from(dims)), "blocks": [[t, draw(st.integers(1, 4))] for t in some], "extra": draw(st.integers(0, 3)), "seed": draw(st.integers(0, 2**30)),
        "pd": draw(st.booleans()), "cd": draw(st.booleans()), "walk": draw(st.lists(st.integers(0, 10**6), min_size=1, max_size=6)),
        "exotic": draw(st.sampled_from(["", "", "", "pair", "column", "tensor", "names", "narrow", "nan"])),
        "edit": draw(st.integers(0, 7)),
        "labels": draw(st.lists(st.sampled_from(["gmsh", "medit", "int", "flags", "vec", "csets", "psets", "field", "avs", "netgen"]), unique=True, max_size=3)),
    }


def start(case):
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    n = max(M.NN[t] for t, _ in case["blocks"]) + case["extra"]
    # distinct points
    pts = grid(rng, (n, case["dim"]))
    pts[:, 0] = rng.permutation(n) * 3 / 8
    cells = [(t, M.conn(rng, n, k, M.NN[t], "i8")) for t, k in case["blocks"]]
    p = {"points": pts, "cells": cells, "point_data": {}, "cell_data": {}, "point_sets": {}, "cell_sets": {}, "field_data": {}, "lay": "C"}
    if case["pd"]:
        p["point_data"]["a"] = grid(rng, n)
    if case["cd"]:
        p["cell_data"]["b"] = [grid(rng, len(c)) for _, c in cells]
    lab = case["labels"]
    ints = lambda: [rng.integers(1, 9, len(c)) for _, c in cells]
    if "gmsh" in lab:
        p["cell_data"]["gmsh:physical"] = ints()
        p["cell_data"]["gmsh:geometrical"] = ints()
        p["field_data"]["wall"] = np.array([3, 2])
    if "medit" in lab:
        p["cell_data"]["medit:ref"] = ints()
        p["point_data"]["medit:ref"] = rng.integers(0, 9, n)
    if "int" in lab:
        p["cell_data"]["tag"] = ints()
    if "flags" in lab:
        p["point_data"]["flag"] = rng.integers(0, 2, n)
    if "vec" in lab:
        p["point_data"]["v"] = grid(rng, (n, 3))
        p["cell_data"]["w"] = [grid(rng, (len(c), 3)) for _, c in cells]
    if "avs" in lab:
        p["cell_data"]["avsucd:material"] = ints()
    if "netgen" in lab:
        p["cell_data"]["netgen:index"] = ints()
    if "csets" in lab:
        p["cell_sets"]["left"] = [np.sort(rng.permutation(len(c))[: int(rng.integers(0, len(c) + 1))]) for _, c in cells]
    if "psets" in lab:
        p["point_sets"]["fixed"] = np.sort(rng.permutation(n)[: int(rng.integers(1, n + 1))])
    x = case["exotic"]
    if x == "pair":
        p["point_data"]["pair"] = rng.integers(0, 9, (n, 2))
        p["cell_data"]["pair"] = [rng.integers(0, 9, (len(c), 2)) for _, c in cells]
    elif x == "column":
        p["point_data"]["col"] = grid(rng, (n, 1))
        p["cell_data"]["icol"] = [rng.integers(0, 9, (len(c), 1)) for _, c in cells]
    elif x == "tensor":
        p["point_data"]["T"] = grid(rng, (n, 3, 3))
        p["cell_data"]["S"] = [grid(rng, (len(c), 2, 2)) for _, c in cells]
    elif x == "names":
        for k in ("with blank", "comma, quote' \"x\"", "a<b>&c", "ünï"):
            p["point_data"][k] = grid(rng, n)
            p["cell_data"][k] = [rng.integers(0, 9, len(c)) for _, c in cells]
        p["point_sets"]["set 1"] = np.arange(n)
        p["cell_sets"]["set, 2"] = [np.arange(len(c)) for _, c in cells]
    elif x == "narrow":
        p["point_data"]["i1"] = rng.integers(-9, 9, n).astype("i1")
        p["point_data"]["u8"] = rng.integers(0, 9, n).astype("u8")
        p["cell_data"]["u2"] = [rng.integers(0, 9, len(c)).astype("u2") for _, c in cells]
        p["cell_data"]["bool"] = [rng.integers(0, 2, len(c)).astype(bool) for _, c in cells]
    elif x == "nan":
        p["point_data"]["nan"] = np.where(rng.random(n) < 0.5, np.nan, np.inf)
        p["cell_data"]["nan"] = [np.full(len(c), np.nan) for _, c in cells]
    if "field" in lab:
        p["field_data"]["time"] = np.array([1.5])
    return p


def content(points, cells, a, b):
    """what a conversion has to keep: per cell type the corners, the point data at the corners and the cell data"""
    pts = np.asarray(points, "f8")
    if pts.shape[1] == 2:
        pts = np.column_stack([pts, np.zeros(len(pts))])
    out = {}
    for i, (t, c) in enumerate(cells):
        c = np.asarray(c).astype("i8")
        x, y, z = pts[c], None if a is None else np.asarray(a, "f8").reshape(len(pts))[c], None if b is None else np.asarray(b[i], "f8").reshape(len(c))
        if t in out:
            o = out[t]
            x, y, z = np.concatenate([o[0], x]), y if y is None else np.concatenate([o[1], y]), z if z is None else np.concatenate([o[2], z])
        out[t] = (x, y, z)
    return out


def model(p):
    return content(p["points"], p["cells"], p["point_data"].get("a"), p["cell_data"].get("b"))


def same(x, y):
    return x is not None and y is not None and x.shape == y.shape and np.array_equal(x, y)


def anyorder(x):
    """cells of one type in a canonical order"""
    flat = np.column_stack([v.reshape(len(v), -1) for v in x if v is not None])
    o = np.lexsort(flat.T[::-1])
    return tuple(None if v is None else v[o] for v in x)


def generic(d):
    """does the format take any scalar float data?"""
    return d is not None and d.max > 1 and "f8" in d.dtypes and () in d.shapes and any(":" not in k for k in d.names)


def predict(v, p):
    """(stores the cells?, stores a?, stores b?) by the model of the format"""
    types = {t for t, _ in p["cells"]}
    d = v.dom
    if not types <= set(d.types) or p["points"].shape[1] not in d.dims or len(p["cells"]) > d.max_blocks:
        return False, False, False
    if d.unique and len(types) < len(p["cells"]):
        return False, False, False
    if v.fmt == "flac3d" and fl_flat(p):  # no orientation
        return False, False, False
    q = dict(p, point_data={k: x for k, x in p["point_data"].items() if k == "a" and generic(d.pd)}, cell_data={k: x for k, x in p["cell_data"].items() if k == "b" and generic(d.cd)},
             point_sets={}, cell_sets={}, field_data={})
    try:
        e = v.expect(q)
    except IndexError:  # nothing left
        return False, False, False
    now, then = model(q), model(e)
    if set(now) != set(then) or not all(same(now[t][0], then[t][0]) for t in now):
        return False, False, False
    return True, "a" in q["point_data"] and all(same(now[t][1], then[t][1]) for t in now), "b" in q["cell_data"] and all(same(now[t][2], then[t][2]) for t in now)


def check(case, ctx):
    import meshio

    p = start(case)
    want = model(p)
    m = M.to_mesh(p)
    a, b = case["pd"], case["cd"]
    trail = []
    loose = False
    cur = p
    for k, w in enumerate(case["walk"]):
        if k and k == case["edit"]:  # a user adds results to the mesh that was read
            rng = np.random.Generator(np.random.PCG64(case["seed"] + k))
            m.point_data["a"] = grid(rng, len(m.points))
            m.cell_data["b"] = [grid(rng, len(c)) for c in m.cells]
            a = b = True
            cur = M.plain(m)
            want = model(cur)
        cand = []
        probe = {"points": np.asarray(cur["points"]), "cells": cur["cells"], "point_data": {}, "cell_data": {}, "point_sets": {}, "cell_sets": {}, "field_data": {}, "lay": "C"}
        if a:
            probe["point_data"]["a"] = np.asarray(cur["point_data"]["a"]).reshape(len(cur["points"]))
        if b:
            probe["cell_data"]["b"] = [np.asarray(x).reshape(-1) for x in cur["cell_data"]["b"]]
        for v in VS:
            if v.id.startswith("gmsh4") and "gmsh:dim_tags" not in cur["point_data"] and len(cur["cells"]) > 1:
                continue  # refused: entity information required
            ok, ka, kb = predict(v, probe)
            if ok:
                cand.append((v, ka, kb))
        v, ka, kb = cand[w % len(cand)]
        trail.append(v.id)
        ctx.label(f"to:{v.fmt}")
        if k:
            ctx.label(f"from:{trail[-2].split('-')[0]}")
        where = "conversion " + " -> ".join(trail)
        path = ctx.path(f"m{k}" + v.ext)
        try:
            with sut(where + " (write)"):
                meshio.write(path, m, file_format=v.write_format, **v.kwargs)
        except Violation:
            if not case["exotic"]:
                raise
            ctx.label(f"{case['exotic']} refused by {v.fmt}")  # refusing data the format does not know is fine, garbling it is not
            return
        with sut(where + " (read)"):
            m = meshio.read(path, file_format=v.fmt)
        M.internally_consistent(m)
        a, b = a and ka, b and kb
        cur = M.plain(m)
        require(not a or "a" in cur["point_data"], f"{where}: point data lost")
        require(not b or "b" in cur["cell_data"], f"{where}: cell data lost")
        got = content(cur["points"], cur["cells"], cur["point_data"]["a"] if a else None, cur["cell_data"]["b"] if b else None)
        require(set(got) == set(want), f"{where}: cell types {sorted(got)}, expected {sorted(want)}")
        loose = loose or v.fmt in REORDER
        for t in want:
            if loose:
                w_, g_ = (tuple(y if z else None for y, z in zip(x[t], (True, a, b))) for x in (want, got))
                want[t], got[t] = anyorder(w_), anyorder(g_)
            for i, what in enumerate(("corners", "point data", "cell data")):
                if (i == 1 and not a) or (i == 2 and not b):
                    continue
                if not same(want[t][i], got[t][i]):
                    raise Violation(f"{where}: {what} of the {t} cells changed: {got[t][i].tolist()}, expected {want[t][i].tolist()}"[:600])


def cl(case):
    return len(case["walk"]) > 1, [f"family={case['family']}", f"hops={len(case['walk'])}", *(f"with:{x}" for x in case["labels"]), *(["point_data"] if case["pd"] else []), *(["cell_data"] if case["cd"] else [])]


# ---------------------------------------------------------------- data of unusual type or shape

ODD_TYPES = ["bool", "f2", "g", "u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "f4", "f8"]
ODD_SHAPES = [(), (), (), (1,), (2,), (3,), (4,), (5,), (6,), (7,), (9,), (10,), (2, 2), (3, 3), (1, 1), (2, 3), (4, 4), (2, 2, 2)]
ODD = st.tuples(st.sampled_from(ODD_TYPES), st.sampled_from(ODD_SHAPES), st.sampled_from(["point", "cell"]))


def odd_cases(v):
    return st.fixed_dictionaries({"mesh": M.recipes(M.replace(v.dom, large=())), "odd": st.lists(ODD, min_size=1, max_size=2)})


def odd_array(rng, dt, n, sh):
    a = rng.integers(0, 2 if dt == "bool" else 100, (n, *sh))
    if dt in ("f2", "g", "f4", "f8"):
        a = a / 4
    return a.astype(dt)


def alike(e, g, what):
    """the values are those given, at most padded to three components"""
    require(len(e) == len(g), f"{what}: {len(g)} rows, expected {len(e)}")
    x, y = np.asarray(e).reshape(len(e), -1) if e.size else e.reshape(len(e), int(np.prod(e.shape[1:]))), np.asarray(g).reshape(len(g), -1) if g.size else g.reshape(len(g), int(np.prod(g.shape[1:])))
    if x.shape[1] < y.shape[1]:
        require(not y[:, x.shape[1]:].any(), f"{what}: shape {g.shape}, expected {e.shape}")
        y = y[:, :x.shape[1]]
    require(x.shape == y.shape, f"{what}: shape {g.shape}, expected {e.shape}")
    ok = y.dtype.kind in "biuf" and np.array_equal(x.astype(float), y.astype(float))
    require(ok, f"{what}: values {y.ravel()[:8].tolist()} ({y.dtype}), expected {x.ravel()[:8].tolist()} ({x.dtype})")


def check_odd(v):
    def check(case, ctx):
        import meshio

        p = plain_for(v, case["mesh"])
        want = v.expect(p)
        rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 3))
        q = {**p, "point_data": dict(p["point_data"]), "cell_data": dict(p["cell_data"])}
        names = []
        for k, (dt, sh, kind) in enumerate(case["odd"]):
            names.append(f"odd{k}")
            if kind == "point":
                q["point_data"][names[-1]] = odd_array(rng, dt, len(p["points"]), sh)
            else:
                q["cell_data"][names[-1]] = [odd_array(rng, dt, len(c), sh) for _, c in p["cells"]]
        path = ctx.path("m" + v.ext)
        try:
            do_write(v, mesh_for(v, q), path)
        except (Exception, SystemExit):
            ctx.label("refused")
            return
        what = f"{v.id} with data {case['odd']}"
        with sut(f"read {what}"):
            m = do_read(v, path)
        M.internally_consistent(m)
        g = got_plain(v, m)
        found = set()
        for name in names:
            if name in q["point_data"] and name in g["point_data"]:
                found.add(name)
                alike((v.expect(q) if v.fmt == "gmsh" else q)["point_data"][name], g["point_data"][name], f"{what}: point data {name}")
            elif name in q["cell_data"] and name in g["cell_data"]:
                found.add(name)
                if v.fmt == "med" and q["cell_data"][name][0].ndim > 2:  # values at Gauss points or nodes
                    continue
                if v.fmt == "tecplot":  # cells change their type
                    alike(np.concatenate(v.expect(q)["cell_data"][name]), np.concatenate(g["cell_data"][name]), f"{what}: cell data {name}")
                    continue
                for t in {t for t, _ in want["cells"]} & {t for t, _ in p["cells"]}:
                    e, f = ([x for (t2, _), x in zip(h["cells"], h["cell_data"][name]) if t == t2] for h in (q, g))
                    alike(np.concatenate(e), np.concatenate(f), f"{what}: cell data {name} of {t}")
            require(name not in (g["cell_data"] if name in q["point_data"] else g["point_data"]), f"{what}: {name} is read as data of another kind")
        ctx.label("stored" if len(found) == len(names) else "stored in part" if found else "left out")
        for kind in ("point_data", "cell_data"):
            # the odd data may have become the labels of a format which stores nothing else
            skip = {k for k in want[kind] if ":" in k and (k not in p[kind] or np.concatenate([np.ravel(x) for x in p[kind][k]]).dtype.kind not in "iu")}
            want[kind], g[kind] = ({k: x for k, x in h[kind].items() if k in want[kind] and k not in skip} for h in (want, g))
        if v.fmt == "su2" and any(kind == "cell" for _, _, kind in case["odd"]):  # cells are sorted by their label
            return
        M.assert_same(want, g, M.replace(v.cmp, ddtype=None if v.cmp.ddtype != "exact" else "exact"), f"{what}: the rest")

    return check


def cl_odd(case):
    return True, sorted({f"{k}:{dt}" for dt, _, k in case["odd"]})


def odd_suites():
    return [Suite(f"odd/{v.id}", odd_cases(v), check_odd(v), quick=60, classify=cl_odd) for v in VARIANTS.values() if not v.group.endswith("-out")]


def suites():
    return odd_suites() + [Suite("walks", cases(), check, quick=2400, thorough=100000, classify=cl, shards=8)]
