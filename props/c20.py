"""Mesh objects: construction, per-type views, sets <-> data, copies."""
from __future__ import annotations

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import mesh as M
from vlib.core import Suite, require, sut

RULE = (
    "Hypothesis draws mesh recipes (blocks of any types in any order, data, sets whose members per block are arrays, lists or None) and, for "
    "the history suite, a sequence of set/data conversions replayed against a dictionary model; non-trivial: more than one block, data or sets."
)

TYPES = ("triangle", "quad", "line", "tetra", "vertex", "hexahedron20", "wedge", "polygon", "VTK_LAGRANGE_CURVE", "triangle6")
NAMES = ("a", "B", "left", "right side", "c_1", "ü", "x:y", "d-e", "-", "set-key")
DATA = M.Data(dtypes=("f8", "i4", "i8", "u1", "f4"), shapes=((), (), (3,)), modes=("int", "zero-up", "special"))
DOM = M.Dom(types=TYPES, dims=(3, 2), pdt=("f8", "f4", "i4"), idt=("i8", "i4", "u4"), max_blocks=6, pd=DATA, cd=DATA, psets=NAMES, csets=NAMES)
# every cell type there is, empty blocks among them
ALL = M.replace(DOM, types=tuple(M.NN) + tuple(M.VAR), min_cells=0, max_cells=3)
FLAVOUR = st.lists(st.sampled_from(["arr", "arr", "list", "none", "i4"]), min_size=6, max_size=6)


def flavour(x, f):
    if f == "none":
        return None
    if f == "list":
        return [int(i) for i in x]
    return np.array(x, dtype="i4" if f == "i4" else "i8")


def model(case):
    p = M.build(case["mesh"])
    fl = case["fl"]
    for k, (name, v) in enumerate(list(p["cell_sets"].items())):
        p["cell_sets"][name] = [flavour(x, fl[(i + k) % 6]) for i, x in enumerate(v)]
    return p


def rows(x):
    return [] if x is None else [int(i) for i in x]


def polys_ok(p):
    """views concatenate blocks of one type: polygons/Lagrange of different width cannot be"""
    w = {}
    for t, c in p["cells"]:
        w.setdefault(t, set()).add(c.shape[1])
    return all(len(s) == 1 for s in w.values())


def data_ok(p, v):
    return True


def check_views(case, ctx):
    import meshio

    p = model(case)
    with sut("Mesh()"):
        m = M.to_mesh(p)
    types = list(dict.fromkeys(t for t, _ in p["cells"]))
    require([c.type for c in m.cells] == [t for t, _ in p["cells"]], "types of the cell blocks")
    for c, (t, d) in zip(m.cells, p["cells"]):
        require(len(c) == len(d) and c.dim == M.TDIM[t], f"len/dim of a {t} block")
    if polys_ok(p):
        with sut("cells_dict"):
            cd = m.cells_dict
        require(list(cd) == types, f"cells_dict keys {list(cd)}, expected {types}")
        for t in types:
            e = np.concatenate([d for u, d in p["cells"] if u == t])
            require(M.arr_diff(e, cd[t], "cells_dict") is None, f"cells_dict[{t!r}]")
            with sut("get_cells_type"):
                g = m.get_cells_type(t)
            require(M.arr_diff(e, g, "get_cells_type") is None, f"get_cells_type({t!r})")
    with sut("get_cells_type of an absent type"):
        absent = next(t for t in ("pyramid", "tetra10", "quad8", "line4", "wedge15", "triangle10", "quad9") if t not in types)
        g = m.get_cells_type(absent)
    require(np.shape(g) == (0, M.NN[absent]), f"get_cells_type of an absent type has shape {np.shape(g)}")
    with sut("cell_data_dict"):
        cdd = m.cell_data_dict
    require(list(cdd) == list(p["cell_data"]), "cell_data_dict keys")
    for k, v in p["cell_data"].items():
        require(list(cdd[k]) == types, f"cell_data_dict[{k!r}] keys {list(cdd[k])}")
        for t in types:
            e = np.concatenate([x for x, (u, _) in zip(v, p["cells"]) if u == t])
            d = M.arr_diff(e, cdd[k][t], f"cell_data_dict[{k!r}][{t!r}]")
            require(d is None, d)
            with sut("get_cell_data"):
                g = m.get_cell_data(k, t)
            d = M.arr_diff(e, g, f"get_cell_data({k!r}, {t!r})")
            require(d is None, d)
    with sut("cell_sets_dict"):
        csd = m.cell_sets_dict
    require(list(csd) == list(p["cell_sets"]), "cell_sets_dict keys")
    for k, v in p["cell_sets"].items():
        e = {}
        off = {}
        for (t, d), x in zip(p["cells"], v):
            e.setdefault(t, []).extend(i + off.get(t, 0) for i in rows(x))
            off[t] = off.get(t, 0) + len(d)
        e = {t: x for t, x in e.items() if x}
        g = {t: rows(x) for t, x in csd[k].items()}
        require(g == e, f"cell_sets_dict[{k!r}] = {g}, expected {e}")
    with sut("repr"):
        s = repr(m)
    require(f"Number of points: {len(p['points'])}" in s, "repr: number of points")
    for c in m.cells:
        repr(c)
    # the views do not touch the mesh
    same_model(p, m, "after the views")


def same_model(p, m, what):
    g = M.plain(m)
    d = M.mesh_diff(dict(p, point_sets={}, cell_sets={}, field_data={}), g, M.Cmp(pdtype="exact", ddtype="exact"))
    require(d is None, f"{what}: {d}")
    require(list(m.point_data) == list(p["point_data"]), f"{what}: point_data names {list(m.point_data)}")
    require(list(m.cell_data) == list(p["cell_data"]), f"{what}: cell_data names {list(m.cell_data)}")
    a = {k: rows(v) for k, v in p["point_sets"].items()}
    b = {k: rows(v) for k, v in m.point_sets.items()}
    require(list(a.items()) == list(b.items()), f"{what}: point_sets {b}, expected {a}")
    a = {k: [rows(x) for x in v] for k, v in p["cell_sets"].items()}
    b = {k: [rows(x) for x in v] for k, v in m.cell_sets.items()}
    require(list(a.items()) == list(b.items()), f"{what}: cell_sets {b}, expected {a}")


# ---------------------------------------------------------------- construction


def as_lists(x):
    return x.tolist()


def check_construct(case, ctx):
    import meshio

    p = model(case)
    how = case["how"]
    pts = p["points"].tolist() if how["points"] else p["points"].copy()
    types = [t for t, _ in p["cells"]]
    if how["cells"] == "dict" and len(set(types)) == len(types):
        cells = {t: d.tolist() if how["lists"] else d.copy() for t, d in p["cells"]}
    elif how["cells"] == "blocks":
        cells = [meshio.CellBlock(t, d.tolist() if how["lists"] else d.copy()) for t, d in p["cells"]]
    elif how["cells"] == "mixed":
        cells = [(t, d.copy()) if i % 2 else meshio.CellBlock(t, d.copy()) for i, (t, d) in enumerate(p["cells"])]
    else:
        cells = [(t, d.tolist() if how["lists"] else d.copy()) for t, d in p["cells"]]
    pd = {k: v.tolist() if how["lists"] else v.copy() for k, v in p["point_data"].items()}
    cd = {k: [x.tolist() if how["lists"] else x.copy() for x in v] for k, v in p["cell_data"].items()}
    kw = dict(point_data=pd or None, cell_data=cd or None, point_sets=copy.deepcopy(p["point_sets"]) or None, cell_sets=copy.deepcopy(p["cell_sets"]) or None)
    bad = case["bad"]
    n = len(p["points"])
    expect_fail = False
    if bad == "pd-short" and pd:
        k = list(pd)[0]
        pd[k] = pd[k][:-1]
        expect_fail = True
    elif bad == "pd-long" and pd:
        k = list(pd)[-1]
        pd[k] = np.concatenate([p["point_data"][k], p["point_data"][k][:1]])
        expect_fail = True
    elif bad == "cd-blocks-less" and cd:
        k = list(cd)[-1]
        cd[k] = cd[k][:-1]
        expect_fail = True
    elif bad == "cd-blocks-more" and cd:
        k = list(cd)[0]
        cd[k] = cd[k] + [cd[k][0]]
        expect_fail = True
    elif bad == "cd-len" and cd:
        k = list(cd)[-1]
        j = case["mesh"]["seed"] % len(cd[k])
        a = p["cell_data"][k][j]
        cd[k][j] = a[:-1] if case["mesh"]["seed"] % 2 else np.concatenate([a, a[:1]])
        expect_fail = True
    try:
        m = meshio.Mesh(pts, cells, **kw)
    except ValueError as e:
        require(expect_fail, f"Mesh() refused consistent data: {e}")
        ctx.label("refused")
        return
    except Exception as e:
        require(False, f"Mesh(): {type(e).__name__}: {e}")
    require(not expect_fail, f"Mesh() accepted inconsistent data ({bad})")
    for c, (t, d) in zip(m.cells, p["cells"]):
        require(isinstance(c.data, np.ndarray) and c.type == t and np.array_equal(c.data, d), "cells")
    require(len(m.cells) == len(p["cells"]), "number of cell blocks")
    require(isinstance(m.points, np.ndarray) and np.array_equal(m.points, p["points"]), "points")
    for k, v in p["point_data"].items():
        require(isinstance(m.point_data[k], np.ndarray) and np.array_equal(m.point_data[k], v), "point data")
    for k, v in p["cell_data"].items():
        require(len(m.cell_data[k]) == len(v) and all(isinstance(a, np.ndarray) and np.array_equal(a, b) for a, b in zip(m.cell_data[k], v)), "cell data")


# ---------------------------------------------------------------- copies


def scribble(m):
    m.points[...] = 7
    for c in m.cells:
        c.data[...] = 0
    for v in m.point_data.values():
        v[...] = 3
    for v in m.cell_data.values():
        for x in v:
            x[...] = 3
        v.append(np.zeros(1))
    for v in m.point_sets.values():
        if len(v):
            v[0] = 12345
    for v in m.cell_sets.values():
        for x in v:
            if x is not None and len(x):
                x[0] = 12345
        v.append(None)
    m.point_data["new"] = np.zeros(len(m.points))
    m.cell_data["new"] = []
    m.point_sets["new"] = [1]
    m.cell_sets["new"] = []
    m.field_data["new"] = 1
    m.cells.append(None)


def check_copy(case, ctx):
    p = model(case)
    a = M.to_mesh(p)
    with sut("copy"):
        b = a.copy()
    same_model(p, b, "the copy")
    scribble(b)
    same_model(p, a, "the original after changing its copy")
    b = a.copy()
    scribble(a)
    same_model(p, b, "the copy after changing the original")


# ---------------------------------------------------------------- sets <-> data

OPS = st.lists(st.one_of(
    st.tuples(st.just("cs2d"), st.sampled_from([None, None, "mat", "a", "p-q"])),
    st.tuples(st.just("ps2d"), st.sampled_from([None, None, "mat", "a", "p-q"])),
    st.tuples(st.just("cd2s"), st.integers(0, 5)),
    st.tuples(st.just("pd2s"), st.integers(0, 5)),
    st.tuples(st.just("roundtrip-c"), st.just(0)),
    st.tuples(st.just("roundtrip-p"), st.just(0)),
).map(list), min_size=1, max_size=8)


def to_sets_names(key, tags):
    names = list(dict.fromkeys(key.split("-")))
    if len(names) != len(tags) or min(tags) < 0:
        names = [f"set-{key}-{t}" for t in tags]
    return names


def check_history(case, ctx):
    p = model(case)
    for v in p["cell_sets"].values():
        for i, x in enumerate(v):
            if isinstance(x, np.ndarray):
                v[i] = x.astype(int)
    m = M.to_mesh(p)
    q = {**p, "point_data": dict(p["point_data"]), "cell_data": {k: list(v) for k, v in p["cell_data"].items()},
         "point_sets": dict(p["point_sets"]), "cell_sets": dict(p["cell_sets"])}
    n = len(p["points"])
    for step, (op, arg) in enumerate(case["ops"]):
        what = f"step {step} ({op} {arg})"
        if op == "roundtrip-c":
            if not q["cell_sets"]:
                continue
            op, arg, back = "cs2d", None, True
        elif op == "roundtrip-p":
            if not q["point_sets"]:
                continue
            op, arg, back = "ps2d", None, True
        else:
            back = False
        before = {k: [rows(x) for x in v] for k, v in q["cell_sets"].items()}, {k: rows(v) for k, v in q["point_sets"].items()}
        if op == "cs2d":
            with sut(what):
                m.cell_sets_to_data(arg) if case["kw"] else m.cell_sets_to_data(data_name=arg)
            if q["cell_sets"]:
                name = arg if arg is not None else "-".join(q["cell_sets"])
                out = []
                for j, (_, c) in enumerate(p["cells"]):
                    a = [-1] * len(c)
                    for i, v in enumerate(q["cell_sets"].values()):
                        for r in rows(v[j]):
                            a[r] = i
                    out.append(np.array(a, dtype=int))
                q["cell_data"][name] = out
                q["cell_sets"] = {}
                key = name
        elif op == "ps2d":
            with sut(what):
                m.point_sets_to_data(data_name=arg)
            if q["point_sets"]:
                name = arg if arg is not None else "-".join(q["point_sets"])
                a = [-1] * n
                for i, v in enumerate(q["point_sets"].values()):
                    for r in rows(v):
                        a[r] = i
                q["point_data"][name] = np.array(a, dtype=int)
                q["point_sets"] = {}
                key = name
        kind = op
        if back:
            kind = "cd2s" if op == "cs2d" else "pd2s"
        if kind == "cd2s":
            keys = list(q["cell_data"])
            if not keys:
                continue
            if not back:
                key = keys[arg % len(keys)]
            v = q["cell_data"][key]
            if v and v[0].ndim > 1:
                continue
            if any(x.dtype.kind not in "iu" for x in v):
                try:
                    m.cell_data_to_sets(key)
                except RuntimeError:
                    ctx.label("non-int refused")
                    same_model(q, m, what)
                    continue
                except Exception as e:
                    require(False, f"{what}: {type(e).__name__}: {e}")
                require(False, f"{what}: float data converted to sets")
            with sut(what):
                m.cell_data_to_sets(key)
            tags = sorted({int(i) for x in v for i in x})
            for name, t in zip(to_sets_names(key, tags), tags):
                q["cell_sets"][name] = [np.array([i for i, y in enumerate(x) if int(y) == t], dtype=int) for x in v]
            del q["cell_data"][key]
            ctx.label("cell data -> sets")
            if back:
                partition = all(
                    sorted(i for s in before[0].values() for i in s[j]) == list(range(len(c))) for j, (_, c) in enumerate(p["cells"])
                ) and all(any(s) for s in before[0].values()) and not any("-" in k for k in before[0])
                if partition:
                    ctx.label("cell partition round trip")
                    now = {k: [rows(x) for x in v] for k, v in m.cell_sets.items()}
                    require(now == {k: [sorted(x) for x in v] for k, v in before[0].items()}, f"{what}: a partition does not survive sets -> data -> sets: {now}")
        elif kind == "pd2s":
            keys = list(q["point_data"])
            if not keys:
                continue
            if not back:
                key = keys[arg % len(keys)]
            v = q["point_data"][key]
            if v.ndim > 1:
                continue
            if v.dtype.kind not in "iu":
                try:
                    m.point_data_to_sets(key)
                except RuntimeError:
                    ctx.label("non-int refused")
                    same_model(q, m, what)
                    continue
                except Exception as e:
                    require(False, f"{what}: {type(e).__name__}: {e}")
                require(False, f"{what}: float data converted to sets")
            with sut(what):
                m.point_data_to_sets(key)
            tags = sorted({int(i) for i in v})
            for name, t in zip(to_sets_names(key, tags), tags):
                q["point_sets"][name] = np.array([i for i, y in enumerate(v) if int(y) == t], dtype=int)
            del q["point_data"][key]
            ctx.label("point data -> sets")
            if back:
                partition = sorted(i for s in before[1].values() for i in s) == list(range(n)) and all(before[1].values()) and not any("-" in k for k in before[1])
                if partition:
                    ctx.label("point partition round trip")
                    now = {k: rows(v) for k, v in m.point_sets.items()}
                    require(now == {k: sorted(v) for k, v in before[1].items()}, f"{what}: a partition does not survive sets -> data -> sets: {now}")
        same_model(q, m, what)


# partitions: sets that cover everything once
@st.composite
def partition_cases(draw):
    names = draw(st.lists(st.sampled_from(["a", "B", "left", "right side", "ü", "x:y", "c_1"]), unique=True, min_size=1, max_size=4))
    r = draw(M.recipes(M.Dom(types=("triangle", "line", "quad", "tetra"), max_blocks=4, layouts=())))
    r["n"] = max(r["n"], 4)
    return {"mesh": r, "names": names, "seed": draw(st.integers(0, 2**30))}


def check_partition(case, ctx):
    p = M.build(case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    names = case["names"]
    nall = sum(len(c) for _, c in p["cells"])
    k = min(len(names), nall, len(p["points"]))
    names = names[:k]

    def assign(n):
        a = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
        return rng.permutation(a)

    a = np.split(assign(nall), np.cumsum([len(c) for _, c in p["cells"]])[:-1])
    p["cell_sets"] = {nm: [np.where(x == i)[0] for x in a] for i, nm in enumerate(names)}
    b = assign(len(p["points"]))
    p["point_sets"] = {nm: np.where(b == i)[0] for i, nm in enumerate(names)}
    m = M.to_mesh(p)
    with sut("sets -> data -> sets"):
        m.point_sets_to_data()
        m.cell_sets_to_data()
    require(m.point_sets == {} and m.cell_sets == {}, "sets are left")
    key = "-".join(names)
    require(list(m.point_data) == [key] and list(m.cell_data) == [key], f"data names {list(m.point_data)} {list(m.cell_data)}, expected {key!r}")
    with sut("sets -> data -> sets"):
        m.cell_data_to_sets(key)
        m.point_data_to_sets(key)
    same_model(p, m, "partition, sets -> data -> sets")


def cl(case):
    return M.classify_recipe(case["mesh"])


def with_mesh(**kw):
    return st.fixed_dictionaries({"mesh": M.recipes(DOM), "fl": FLAVOUR, **kw})


HOW = st.fixed_dictionaries({"points": st.booleans(), "lists": st.booleans(), "cells": st.sampled_from(["tuples", "dict", "blocks", "mixed"])})


def suites():
    return [
        Suite("views", with_mesh(), check_views, quick=2400, classify=cl, shards=3),
        Suite("views-all-types", st.fixed_dictionaries({"mesh": M.recipes(ALL), "fl": FLAVOUR}), check_views, quick=1200, classify=cl, shards=2),
        Suite("views-huge", st.fixed_dictionaries({"mesh": M.huge_recipes(DOM), "fl": FLAVOUR}), check_views, quick=12, classify=cl, shards=2, hang_s=300),
        Suite("history-huge", st.fixed_dictionaries({"mesh": M.huge_recipes(M.replace(DOM, layouts=())), "fl": FLAVOUR, "ops": OPS, "kw": st.booleans()}), check_history, quick=12, classify=cl, shards=2, hang_s=300),
        Suite("construct", with_mesh(how=HOW, bad=st.sampled_from(["", "", "pd-short", "pd-long", "cd-blocks-less", "cd-blocks-more", "cd-len"])),
              check_construct, quick=2400, classify=cl, shards=3),
        Suite("copy", st.fixed_dictionaries({"mesh": M.recipes(M.replace(DOM, layouts=())), "fl": FLAVOUR}), check_copy, quick=800, classify=cl, shards=2),
        Suite("history", st.fixed_dictionaries({"mesh": M.recipes(M.replace(DOM, layouts=())), "fl": FLAVOUR, "ops": OPS, "kw": st.booleans()}), check_history, quick=3000, classify=cl, shards=4),
        Suite("partition", partition_cases(), check_partition, quick=1200, shards=2),
    ]
