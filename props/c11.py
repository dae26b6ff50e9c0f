"""Foreign VTK legacy / VTU files."""
from __future__ import annotations

import numpy as np

from vlib import foreign_vtk as F
from vlib import mesh as M
from vlib.core import Suite, sut

RULE = (
    "Hypothesis draws a mesh recipe plus an encoding style (legacy/structured/VTU: version, ascii or binary, section order, "
    "comments, line breaks, number formats, pieces, appended/raw/base64, compressors, header types); the file is written by "
    "an independent encoder; a case is non-trivial when it has more than one cell or block, or carries data; distinct by hash."
)


def check_legacy(case, ctx):
    import meshio

    p = M.build(case["mesh"])
    path = ctx.path("f.vtk")
    F.write_vtk_foreign(p, case["style"], path)
    with sut("read foreign vtk"):
        g = meshio.read(path)
    M.internally_consistent(g)
    M.assert_same(F.expect_foreign(p), F.flat_data(M.plain(g)), M.Cmp(pdtype="exact", ddtype="exact"), "foreign vtk")


def check_struct(case, ctx):
    import meshio

    case = dict(case)
    p = F.build_structured(case)
    path = ctx.path("f.vtk")
    F.write_structured(case, p, path)
    with sut("read structured vtk"):
        g = meshio.read(path)
    M.internally_consistent(g)
    M.assert_same(F.flat_data(p), F.flat_data(M.plain(g)), M.Cmp(rtol=1e-6 if case["dt"] == "f4" else 1e-14, atol=1e-14), "structured vtk")


def check_vtu(case, ctx):
    import meshio

    ps = F.vtu_pieces(case)
    path = ctx.path("f.vtu")
    F.write_vtu_foreign(ps, case["style"], path)
    with sut("read foreign vtu"):
        g = meshio.read(path)
    M.internally_consistent(g)
    e = F.vtu_concat(ps)
    cmp = M.Cmp(pdtype="exact", ddtype="exact")
    M.assert_same(e, M.plain(g), cmp, "foreign vtu")
    if case["style"]["fd"]:
        d = M.arr_diff(np.array([0.5, 2.25]), np.asarray(g.field_data["TimeValue"]).ravel(), "FieldData")
        M.require(d is None, d)


def cl(case):
    if "kind" in case:
        return True, ["kind:" + case["kind"]]
    m = case["mesh"]
    nt, labels = M.classify_recipe(m[0] if isinstance(m, list) else m)
    s = case["style"]
    labels = [x for x in labels if not x.startswith("type:")]
    if isinstance(m, list):
        labels += [f"enc:{s['enc']}", f"comp:{s['comp']}", f"pieces={len(m)}"]
    else:
        labels += ["ascii" if s["ascii"] else "binary"]
    return nt, labels


def suites():
    out = []
    for v in ("2.0", "3.0", "4.2", "5.1"):
        out.append(Suite(f"foreign/vtk{v}", F.vtk_foreign_cases(v), check_legacy, quick=800, classify=cl, shards=2))
        out.append(Suite(f"foreign-big/vtk{v}", M.big_cases(F.vtk_foreign_cases(v)), check_legacy, quick=40, classify=cl, shards=2))
    out.append(Suite("foreign-big/vtu", M.big_cases(F.vtu_foreign_cases()), check_vtu, quick=120, classify=cl, shards=4))
    out.append(Suite("foreign/vtk-structured", F.structured_cases(), check_struct, quick=1500, classify=cl, shards=2))
    out.append(Suite("foreign/vtu", F.vtu_foreign_cases(), check_vtu, quick=2500, classify=cl, shards=4))
    return out
