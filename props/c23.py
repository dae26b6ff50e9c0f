"""Files cut off at any point: an error or a part of the mesh; never a hang, never made-up content."""
from __future__ import annotations

from collections import Counter
from dataclasses import replace

import numpy as np
from hypothesis import strategies as st

from vlib import mesh as M
from vlib.core import Suite, require, sut
from vlib.registry import VARIANTS

from .c22 import write_file
from .common import do_read, mesh_for, plain_for

RULE = (
    "Hypothesis draws, per format variant, a mesh recipe and a place to cut the written file (anywhere, at a line end, shortly before the end); non-trivial: the cut removes "
    "something other than white space and the mesh has more than one cell or block, or data or sets; distinct by hash of recipe and cut."
)

# formats which announce how many points and cells follow
COUNTED = {"vtk", "vtu", "gmsh", "ply", "off", "su2", "tetgen", "ugrid", "avsucd", "medit", "netgen", "ansys", "xdmf", "tecplot"}
LIB = {"h5m", "hmf", "cgns", "exodus", "med"}  # HDF5 and netCDF check their own files


def binary(v):
    return v.id.endswith(("-bin", "meshb", "b4", "b8", "b8l", "r4", "r8", "neuroglancer")) or "-bin" in v.id


def rows(a):
    return [np.asarray(x).tobytes() for x in a]


def cell_rows(m):
    return [(c.type, np.asarray(x).astype(np.int64).tobytes()) for c in m.cells if not c.type.startswith("polyhedron") for x in c.data]


def extra(g, f):
    return sum((Counter(g) - Counter(f)).values())


def cut_at(b, c):
    if c["mode"] == "tail":
        k = len(b) - c["pos"] % min(len(b), 200)
    else:
        k = c["pos"] * len(b) // 1000003
    if c["mode"] == "line" or (c["mode"] == "tail" and c["snap"]):
        k = b[:k].rfind(b"\n") + 1
    return k


def check(v):
    def run(case, ctx):
        p = plain_for(v, case["mesh"])
        path = ctx.path("m" + v.ext)
        with sut(f"write {v.id}"):
            write_file(v, mesh_for(v, p), path)
            full = do_read(v, path)
        with open(path, "rb") as f:
            b = f.read()
        k = cut_at(b, case["cut"])
        with open(path, "wb") as f:
            f.write(b[:k])
        try:
            g = do_read(v, path)
        except MemoryError:
            require(False, f"{v.id}: 4 GB are not enough to read {k} of {len(b)} bytes")
        except (Exception, SystemExit) as e:
            ctx.label("error:" + type(e).__name__)
            return
        what = f"{v.id}: file cut to {k} of {len(b)} bytes"
        n = len(g.points)
        for i, c in enumerate(g.cells):
            if len(c.data) and c.type in M.NN:
                require(np.shape(c.data)[1:] == (M.NN[c.type],), f"{what}: cells[{i}] ({c.type}) has shape {np.shape(c.data)}")
        for key, x in g.point_data.items():
            require(len(x) == n, f"{what}: point_data[{key!r}] has {len(x)} rows for {n} points")
        for key, x in g.cell_data.items():
            require([len(y) for y in x] == [len(c.data) for c in g.cells], f"{what}: cell_data[{key!r}] has lengths {[len(y) for y in x]}, cells {[len(c.data) for c in g.cells]}")
        if b[k:].strip() == b"":
            ctx.label("only white space cut")
        ctx.label("same size" if n == len(full.points) and len(cell_rows(g)) == len(cell_rows(full)) else "partial mesh")

        # nothing is made up; a number cut in two may spoil one row
        spare = 1 if not binary(v) and k and b[k - 1 : k] not in b"\n" else 0
        if v.fmt == "stl":  # the spoilt point is no longer shared with other facets
            spare *= 2
        if n and np.shape(g.points)[1:] == np.shape(full.points)[1:]:
            bad = extra(rows(np.asarray(g.points, full.points.dtype)), rows(full.points))
        else:
            bad = n
        badc = extra(cell_rows(g), cell_rows(full))
        require(bad + badc <= spare, f"{what}: {bad} points and {badc} cells which are not in the complete file")
        if n == len(full.points):
            for key, x in g.point_data.items():
                require(key in full.point_data, f"{what}: point data {key!r} which is not in the complete file")
                a, e = np.asarray(x), np.asarray(full.point_data[key])
                if a.shape == e.shape and a.dtype == e.dtype:
                    d = sum(r != s for r, s in zip(rows(a), rows(e)))
                    require(d <= spare, f"{what}: {d} rows of point data {key!r} differ from the complete file")
        if v.fmt in COUNTED:
            require(n in (0, len(full.points)), f"{what}: {n} of {len(full.points)} points without an error")
            bg, bf = ([(c.type, len(c.data)) for c in m.cells] for m in (g, full))
            if not spare and v.fmt != "su2":  # the SU2 reader collects the cells of all markers
                require(bg == bf[: len(bg)], f"{what}: cell blocks {bg} of {bf} without an error")

    return run


CUTS = st.fixed_dictionaries({"mode": st.sampled_from(["line", "byte", "tail", "line", "byte"]), "pos": st.integers(0, 1000002), "snap": st.booleans()})


def classify(case):
    nt, labels = M.classify_recipe(case["mesh"])
    return nt, labels + ["cut:" + case["cut"]["mode"]]


def suites():
    return [
        Suite(f"cut/{v.id}", st.fixed_dictionaries({"mesh": M.recipes(replace(v.dom, large=())), "cut": CUTS}), check(v), quick=160, classify=classify, hang_s=15)
        for v in VARIANTS.values() if v.fmt not in LIB and v.id != "xdmf-bin" and not v.group.endswith("-out")
    ]
