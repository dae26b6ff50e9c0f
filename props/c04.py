"""XDMF time series: any history of writes, then reads in any order."""
from __future__ import annotations

import contextlib
import copy
import os
import xml.etree.ElementTree as ET

import numpy as np
from hypothesis import strategies as st

from vlib import fmt_xdmf as X
from vlib import mesh as M
from vlib.core import Suite, Violation, oracle, require, sut

RULE = (
    "Hypothesis draws a mesh recipe, a data format, how the cells are passed, where the file lies relative to the working "
    "directory, a history of 0-8 write_data calls (time, point/cell arrays per step) and a sequence of reads in any order with "
    "repeats; non-trivial: at least two steps or data present."
)

TIMES = st.one_of(st.integers(-5, 100), st.floats(allow_nan=False, allow_infinity=False, width=64),
                  st.sampled_from([0.0, 1e-12, 0.1, 1 / 3, 1e300, 3.3333333333333335e-05]))

STEP = st.fixed_dictionaries({"t": TIMES, "pd": M.data_list(X.XDATA), "cd": M.data_list(X.XDATA), "npt": st.booleans()})
CASES = st.fixed_dictionaries({
    "mesh": M.recipes(M.Dom(types=X.XT, dims=(3, 2), pdt=("f8", "f4"), idt=("i8", "i4", "u8"), max_blocks=3)),
    "fmt": st.sampled_from(["HDF", "XML", "Binary"]),
    "cells_as": st.sampled_from(["tuples", "blocks", "dict"]),
    "where": st.sampled_from(["cwd", "abs", "sub"]),
    "steps": st.lists(STEP, max_size=6),
    "reuse": st.booleans(),
    "lay": st.sampled_from(["C", "C", "F", "strided", "readonly", "reversed", "swapped"]),
    "reads": st.lists(st.integers(0, 50), max_size=10),
    "cd_as": st.sampled_from(["list", "list", "dict"]),
    "move": st.booleans(),
    "crash": st.sampled_from([None, None, None, 0, 1, 2, 4]),
})


class Crash(Exception):
    """the simulation whose results are written fails"""


def prepare(case):
    case = copy.deepcopy(case)
    p = M.build(case["mesh"])
    n = len(p["points"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 5))
    steps = []
    if case["reuse"]:  # the same arrays in every step
        for s in case["steps"]:
            s["pd"], s["cd"] = case["steps"][0]["pd"], case["steps"][0]["cd"]
    for s in case["steps"]:
        pd = {k: M.pattern(rng, M.fill(rng, (n, *sh), dt, md), md) for k, dt, sh, md in s["pd"]}
        cd = {k: [M.pattern(rng, M.fill(rng, (len(c), *sh), dt, md), md) for _, c in p["cells"]] for k, dt, sh, md in s["cd"]}
        t = np.float64(s["t"]) if s["npt"] else s["t"]
        steps.append((t, pd, cd))
    return p, steps


def target(case, ctx):
    w = case["where"]
    if w == "cwd":
        return "ts.xdmf"
    if w == "abs":
        os.mkdir(ctx.path("d"))
        return ctx.path("d/ts.xdmf")
    os.makedirs("a/b")
    return "a/b/ts.xdmf"


def into(buf, key, a):
    b = buf.setdefault((key, a.shape, a.dtype.str), np.empty_like(a))
    b[...] = a
    return b


def write(case, ctx):
    import meshio

    p, steps = prepare(case)
    path = target(case, ctx)
    lay = case["lay"]
    cells = [(t, M.relayout(c, lay)) for t, c in p["cells"]]
    how = case["cells_as"]
    if how == "blocks":
        arg = [meshio.CellBlock(t, c) for t, c in cells]
    elif how == "dict" and len({t for t, _ in cells}) == len(cells):
        arg = dict(cells)
    else:
        arg = cells
    keep = copy.deepcopy(steps)
    pts = M.relayout(p["points"], lay)
    as_dict = case["cd_as"] == "dict" and len({t for t, _ in cells}) == len(cells)
    crash = case["crash"] if case["crash"] is not None and case["crash"] <= len(steps) else None
    with sut("write time series"), contextlib.suppress(Crash):
        with meshio.xdmf.TimeSeriesWriter(path, data_format=case["fmt"]) as w:
            w.write_points_cells(pts, arg)
            buf, given = {}, []
            for k, (t, pd, cd) in enumerate(steps):
                if k == crash:
                    raise Crash
                if case["reuse"]:
                    # the caller keeps one array per (shape, dtype) and overwrites it
                    pd = {k: into(buf, k, v) for k, v in pd.items()}
                    cd = {k: [into(buf, (k, i), x) for i, x in enumerate(v)] for k, v in cd.items()}
                else:
                    pd = {k: M.relayout(v, lay) for k, v in pd.items()}
                    cd = {k: [M.relayout(x, lay) for x in v] for k, v in cd.items()}
                    given.append((pd, cd))
                if as_dict:  # as older versions of meshio wanted it
                    cd = {name: {t: x for (t, _), x in zip(cells, v)} for name, v in cd.items()}
                w.write_data(t, point_data=pd or None, cell_data=cd or None)
                require(all(isinstance(v, dict) == as_dict for v in cd.values()), "the writer changed the dictionary it was given")
            for b in buf.values():
                b.fill(99)
    for (t, c), (_, d) in zip(p["cells"], cells):
        require(np.array_equal(c, d), "the writer changed the cells it was given")
    require(np.array_equal(pts, p["points"]), "the writer changed the points it was given")
    for a, b in zip(keep, given):
        for k in a[1]:
            d = M.arr_diff(a[1][k], b[0][k], "point data after writing")
            require(d is None, d)
        for k in a[2]:
            for x, y in zip(a[2][k], b[1][k]):
                d = M.arr_diff(x, y, "cell data after writing")
                require(d is None, d)
    if crash is not None:
        # what had been written by then is in the file
        keep = keep[:crash]
    if case["move"] and case["where"] != "cwd":
        top = "a" if case["where"] == "sub" else ctx.path("d")
        os.rename(top, ctx.path("elsewhere"))
        path = os.path.join("elsewhere", "b/ts.xdmf" if case["where"] == "sub" else "ts.xdmf")
        if case["where"] == "abs":
            path = ctx.path(path)
    return p, keep, path


def expected(p, step):
    q = dict(p)
    q["point_data"], q["cell_data"] = step[1], step[2]
    return X.xexp(q)


CMP = M.Cmp(pdtype="exact", ddtype="exact")


def check_rt(case, ctx):
    import meshio

    p, steps, path = write(case, ctx)
    with sut("read time series"):
        with meshio.xdmf.TimeSeriesReader(path) as r:
            require(r.num_steps == len(steps), f"num_steps {r.num_steps}, expected {len(steps)}")
            order = [i % len(steps) for i in case["reads"]] if steps else []
            pts, cells = r.read_points_cells()
            for k in list(range(len(steps))) + order:
                t, pd, cd = r.read_data(k)
                require(t == float(steps[k][0]), f"step {k}: time {t!r}, expected {float(steps[k][0])!r}")
                g = {"points": pts, "cells": [(c.type, c.data) for c in cells], "point_data": pd, "cell_data": cd}
                M.assert_same(expected(p, steps[k]), g, CMP, f"step {k}")
            if not steps:
                g = {"points": pts, "cells": [(c.type, c.data) for c in cells], "point_data": {}, "cell_data": {}}
                M.assert_same(expected(p, (0, {}, {})), g, CMP, "mesh")


PAIRS = st.fixed_dictionaries({"a": CASES, "b": CASES, "turns": st.lists(st.integers(0, 2), max_size=24), "same": st.booleans(), "twice": st.booleans()})


def check_pair(case, ctx):
    """Two series written, then read, at the same time."""
    import meshio

    jobs = []
    for k, c in ((0, case["a"]), (1, case["b"])):
        p, steps = prepare(c)
        d = ctx.path(f"d{k}" if case["same"] else "d")
        os.makedirs(d, exist_ok=True)
        jobs.append((c, p, steps, os.path.join(d, "ts.xdmf" if case["same"] else f"ts-{k}.xdmf")))

    def writing(c, p, steps, path):
        with meshio.xdmf.TimeSeriesWriter(path, data_format=c["fmt"]) as w:
            yield
            w.write_points_cells(p["points"], p["cells"])
            yield
            for t, pd, cd in steps:
                w.write_data(t, point_data=pd or None, cell_data=cd or None)
                yield

    def reading(c, p, steps, path):
        with meshio.xdmf.TimeSeriesReader(path) as r:
            yield
            require(r.num_steps == len(steps), f"num_steps {r.num_steps}, expected {len(steps)}")
            pts, cells = r.read_points_cells()
            yield
            for k in list(range(len(steps))) + [i % len(steps) for i in c["reads"] if steps]:
                t, pd, cd = r.read_data(k)
                require(t == float(steps[k][0]), f"step {k}: time {t!r}, expected {float(steps[k][0])!r}")
                M.assert_same(expected(p, steps[k]), {"points": pts, "cells": [(c.type, c.data) for c in cells], "point_data": pd, "cell_data": cd}, CMP, f"{os.path.basename(path)}, step {k}")
                yield

    for act in (writing, reading):
        todo = [act(*j) for j in (jobs + jobs[:1] if act is reading and case["twice"] else jobs)]
        turns = list(case["turns"])
        with sut(f"{act.__name__} two time series"):
            while todo:
                i = int(turns.pop()) % len(todo) if turns else 0
                if next(todo[i], "end") == "end":
                    todo.pop(i)


def cl_pair(case):
    a, la = cl(case["a"])
    b, lb = cl(case["b"])
    return a and b and len(set(case["turns"])) > 1, sorted(set(la) | set(lb))


def check_out(case, ctx):
    p, steps, path = write(case, ctx)
    path = os.path.abspath(path)
    with oracle("time series file"):
        root = ET.parse(path).getroot()
        (dom,) = root
        grids = dom.findall("Grid")
        (coll,) = [g for g in grids if g.attrib.get("GridType") == "Collection"]
        (mesh,) = [g for g in grids if g.attrib.get("GridType") == "Uniform"]
        assert coll.attrib["CollectionType"] == "Temporal"
        pts, cells = X.parse_grid_mesh(mesh, path, case["fmt"])
        gs = list(coll)
        assert len(gs) == len(steps), "number of time steps"
        out = []
        for g in gs:
            (t,) = g.findall("Time")
            inc = [c for c in g if c.tag == "{http://www.w3.org/2003/XInclude}include"]
            assert len(inc) == 1 and f'@Name="{mesh.attrib["Name"]}"' in inc[0].attrib["xpointer"]
            pd, cr = X.parse_attrs(g, path, case["fmt"])
            out.append((float(t.attrib["Value"]), pd, X.split(cr, cells)))
    for k, (t, pd, cd) in enumerate(out):
        if t != float(steps[k][0]):
            raise Violation(f"step {k}: time {t!r} in the file, expected {steps[k][0]!r}")
        M.assert_same(expected(p, steps[k]), {"points": pts, "cells": cells, "point_data": pd, "cell_data": cd}, CMP, f"file, step {k}")
    M.assert_same(expected(p, (0, {}, {})), {"points": pts, "cells": cells, "point_data": {}, "cell_data": {}}, CMP, "file, mesh")


def check_foreign(case, ctx):
    """Mesh inside the grids of the collection (as FEniCS writes it)."""
    import meshio

    p, steps = prepare(case)
    if not steps:
        return
    path = ctx.path("f.xdmf")
    t0, c0 = p["cells"][0]
    name = {v: k for k, v in X.TNAME.items()}[t0]

    def di(parent, a, kind):
        e = ET.SubElement(parent, "DataItem", {
            "Dimensions": " ".join(map(str, a.shape)), "Format": "XML", "Precision": str(a.dtype.itemsize),
            kind: {"f": "Float", "i": "Int", "u": "UInt"}[a.dtype.kind]})
        e.text = "\n" + " ".join(repr(x) for x in a.ravel().tolist()) + "\n"

    root = ET.Element("Xdmf", Version="3.0")
    dom = ET.SubElement(root, "Domain")
    coll = ET.SubElement(dom, "Grid", Name="TimeSeries", GridType="Collection", CollectionType="Temporal")
    kind = "NumberType" if case["fmt"] == "XML" else "DataType"
    for k, (t, pd, cd) in enumerate(steps):
        g = ET.SubElement(coll, "Grid", Name="m", GridType="Uniform")
        if k == 0:
            to = ET.SubElement(g, "Topology", {"Type" if case["fmt"] == "HDF" else "TopologyType": name, "NumberOfElements": str(len(c0))})
            di(to, c0, kind)
            ge = ET.SubElement(g, "Geometry", GeometryType="XYZ"[: p["points"].shape[1]])
            di(ge, p["points"], kind)
        ET.SubElement(g, "Time", Value=repr(float(t)))
        for nm, a in pd.items():
            at = ET.SubElement(g, "Attribute", Name=nm, Center="Node", AttributeType="Scalar")
            di(at, a, kind)
        for nm, v in cd.items():
            at = ET.SubElement(g, "Attribute", Name=nm, Center="Cell", AttributeType="Scalar")
            di(at, v[0], kind)
    ET.ElementTree(root).write(path)
    q = dict(p)
    q["cells"] = [(t0, c0)]
    with sut("read time series"):
        with meshio.xdmf.TimeSeriesReader(path) as r:
            pts, cells = r.read_points_cells()
            for k in [i % len(steps) for i in case["reads"]] + list(range(len(steps))):
                t, pd, cd = r.read_data(k)
                require(t == float(steps[k][0]), f"step {k}: time {t!r}, expected {float(steps[k][0])!r}")
                q["point_data"] = steps[k][1]
                q["cell_data"] = {a: [b[0]] for a, b in steps[k][2].items()}
                M.assert_same(q, {"points": pts, "cells": [(c.type, c.data) for c in cells], "point_data": pd, "cell_data": cd}, CMP, f"step {k}")


def cl(case):
    nt, labels = M.classify_recipe(case["mesh"])
    labels = [x for x in labels if not x.startswith("type:")]
    n = len(case["steps"])
    data = any(s["pd"] or s["cd"] for s in case["steps"])
    return n >= 2 or data, labels + [f"steps={n}", case["fmt"], "where:" + case["where"], "cells:" + case["cells_as"], "layout:" + case["lay"]]


def suites():
    return [
        Suite("history/read", CASES, check_rt, quick=1600, classify=cl, shards=4),
        Suite("history/file", CASES, check_out, quick=800, classify=cl, shards=2),
        Suite("history/pair", PAIRS, check_pair, quick=400, classify=cl_pair, shards=2),
        Suite("history/foreign", CASES, check_foreign, quick=600, classify=cl, shards=2),
    ]
