"""Writers that cannot store every cell type: the rest of the mesh must not suffer."""
from __future__ import annotations

import dataclasses
import os
import re
from xml.etree import ElementTree as ET

import numpy as np
from hypothesis import strategies as st

from vlib import files
from vlib import mesh as M
from vlib.core import Skip, Suite, Violation, oracle, require, sut
from vlib.fmt_misc import FL, FLB, TEC
from vlib.fmt_simple import MEDIT
from vlib.registry import VARIANTS

from .common import RULE_MESH, do_read, do_write, mesh_for

RULE = RULE_MESH + " Here the recipe mixes cell types the format stores with ones it does not (non-trivial: both kinds present)."

ALL = ("vertex", "line", "line3", "triangle", "triangle6", "quad", "quad8", "quad9", "polygon", "tetra", "tetra10", "hexahedron", "hexahedron20", "wedge",
       "wedge15", "pyramid", "pyramid13", "triangle10")


def fixed(*types):
    return lambda p: set(types)


def tec_ok(p):
    t = {t for t, _ in p["cells"]} & set(TEC)
    md = max((M.TDIM[x] for x in t), default=0)
    return {x for x in t if M.TDIM[x] == md}


def dol_ok(p):
    return {"tetra"} if any(t == "tetra" for t, _ in p["cells"]) else {"triangle"}


def su2_ok(p):
    return {"line", "triangle", "quad"} if p["points"].shape[1] == 2 else {"triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"}


TRI = fixed("triangle")
# variant -> types stored; the writer announces (warns) that it skips the others
SKIPS = {
    "cgns": fixed("tetra"), "dolfin-tri": dol_ok, "dolfin-tet": dol_ok, "flac3d-ascii-all": fixed(*FL, *FLB), "flac3d-bin-all": fixed(*FL, *FLB),
    "h5m": fixed("line", "triangle", "tetra"), "medit": fixed(*MEDIT.values()), "meshb": fixed(*MEDIT.values()), "neuroglancer": TRI, "off": TRI,
    "stl-ascii": TRI, "stl-bin": TRI, "wkt": TRI, "ply-ascii": fixed("vertex", "line", "triangle", "quad", "polygon"),
    "ply-bin": fixed("vertex", "line", "triangle", "quad", "polygon"), "su2-2d": su2_ok, "su2-3d": su2_ok, "tecplot": tec_ok, "tetgen": fixed("tetra"),
    "ugrid-ascii": fixed("triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"),
}


def find(name):
    """first registered variant whose id starts with name"""
    if name in VARIANTS:
        return VARIANTS[name]
    c = [v for k, v in VARIANTS.items() if k.startswith(name)]
    require(c, f"no variant {name}")
    return c[0]


def sub(p, types):
    return M.regroup(p, [[i] for i, (t, _) in enumerate(p["cells"]) if t in types])


FULL = M.Cmp(pdtype="exact", ddtype="exact", sets=True, field_data=True)


def skip_check(v, ok):
    def check(case, ctx):
        p = M.build(case["mesh"])
        good = ok(p)
        q = sub(p, good)
        if not q["cells"]:
            raise Skip
        os.mkdir("a"), os.mkdir("b")
        with sut(f"{v.id}: write of a mesh with other cells"):
            do_write(v, mesh_for(v, p), ctx.path("a/m" + v.ext))
        with sut(f"{v.id}: write of the supported part"):
            do_write(v, mesh_for(v, q), ctx.path("b/m" + v.ext))
        with sut(f"{v.id}: read"):
            ga = do_read(v, ctx.path("a/m" + v.ext))
            gb = do_read(v, ctx.path("b/m" + v.ext))
        M.internally_consistent(ga)
        n = sum(len(c) for _, c in q["cells"])
        got = sum(len(c.data) for c in ga.cells)
        require(got == n, f"{v.id}: {got} cells read back, {n} of the mesh's cells are supported")
        M.assert_same(M.plain(gb), M.plain(ga), FULL, f"{v.id}: file differs from the one of the supported part alone")
        d = files.dirs_differ("a", "b")
        require(d is None, f"{v.id}: file differs from the one of the supported part alone: {d}")
        ctx.label("mixed" if len(q["cells"]) < len(p["cells"]) else "all supported")

    return check


# formats without a way to skip: they must refuse (or skip) rather than write something else
REFUSE = {
    "abaqus": ("vertex", "polygon", "pyramid", "triangle10"), "ansys": ("vertex", "line", "triangle6", "tetra10", "polygon"), "avsucd": ("line3", "triangle6", "polygon", "tetra10"),
    "exodus": ("polygon", "triangle10", "pyramid13"), "gmsh22": ("polygon", "VTK_LAGRANGE_CURVE"), "gmsh41": ("polygon", "VTK_LAGRANGE_CURVE"), "gmsh40": ("polygon",),
    "hmf": ("polygon", "triangle10"), "mdpa": ("polygon", "pyramid", "triangle10"), "med": ("quad9", "polygon", "triangle10"), "nastran": ("line3", "polygon", "triangle10"),
    "netgen": ("line3", "quad9", "polygon"), "obj": ("vertex", "line", "tetra", "triangle6"), "permas": ("polygon", "pyramid13", "triangle10"), "vtk": ("triangle10", "wedge40"),
    "vtu": ("triangle10", "wedge40"), "xdmf": ("polygon", "triangle10"),
}


def refuse_check(v, bad):
    def check(case, ctx):
        p = M.build(case["mesh"])
        if not any(t in bad for t, _ in p["cells"]):
            raise Skip
        q = sub(p, {t for t, _ in p["cells"]} - set(bad))
        os.mkdir("a"), os.mkdir("b")
        try:
            do_write(v, mesh_for(v, p), ctx.path("a/m" + v.ext))
        except Exception:
            return
        if not q["cells"]:
            # everything skipped: then nothing may come back
            try:
                g = do_read(v, ctx.path("a/m" + v.ext))
            except (Exception, SystemExit):
                return
            require(sum(len(c.data) for c in g.cells) == 0, f"{v.id}: unsupported cells came back as {[c.type for c in g.cells]}")
            return
        with sut(f"{v.id}: file with unsupported cells"):
            do_write(v, mesh_for(v, q), ctx.path("b/m" + v.ext))
            ga = do_read(v, ctx.path("a/m" + v.ext))
            gb = do_read(v, ctx.path("b/m" + v.ext))
        M.assert_same(M.plain(gb), M.plain(ga), FULL, f"{v.id}: unsupported cells accepted but stored as something else")

    return check


# ------------------------------------------------------------------ SVG
@st.composite
def svg_cases(draw):
    r = draw(M.recipes(M.Dom(types=("line", "triangle", "quad", "vertex", "triangle6"), dims=(2, 3), pdt=("f8", "f8", "f4", "i4"), pmodes=("int", "unit", "dec", "pos"),
                             idt=("i8", "i4", "u4"), max_blocks=5, pd=M.Data(max=1), cd=M.Data(max=1))))
    return {"mesh": r, "flat": draw(st.integers(0, 5)) > 0, "kw": draw(st.fixed_dictionaries({}, optional={
        "float_fmt": st.sampled_from([".3f", ".6f", ".8e", "g"]), "image_width": st.sampled_from([None, 100, 37.5, 1]), "stroke_width": st.sampled_from(["1", "0.2"]),
        "fill": st.just("none"), "stroke": st.just("#123456")}))}


def svg_check(case, ctx):
    import meshio

    p = M.build(case["mesh"])
    pts = p["points"]
    if pts.shape[1] == 3:
        pts = pts.copy()
        if case["flat"]:
            pts[:, 2] = 0
        p["points"] = pts
        if not case["flat"] and np.any(pts[:, 2] != 0):
            try:
                meshio.write(ctx.path("m.svg"), M.to_mesh(p), **case["kw"])
            except meshio.WriteError:
                return
            raise Violation("a mesh that is not flat was written as SVG")
    with sut("svg write"):
        meshio.write(ctx.path("m.svg"), M.to_mesh(p), **case["kw"])
    with oracle("svg output"):
        root = ET.parse(ctx.path("m.svg")).getroot()
        ns = "{http://www.w3.org/2000/svg}"
        require(root.tag == ns + "svg", f"root element {root.tag}")
        vb = [float(x) for x in root.get("viewBox").split()]
        style = root.find(ns + "style").text
        paths = []
        for e in root.findall(ns + "path"):
            d = e.get("d")
            num = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?"
            require(re.fullmatch(rf"M {num} {num}(L {num} {num})+Z?", d), f"path {d!r}")
            paths.append((d.endswith("Z"), np.array([float(x) for x in re.findall(num, d)]).reshape(-1, 2)))
    kw = case["kw"]
    x, y = pts[:, 0].astype(float), pts[:, 1].astype(float)
    w = x.max() - x.min()
    iw = kw.get("image_width", 100)
    s = iw / w if iw is not None and w != 0 else 1.0
    xy = np.column_stack([x * s, (y.max() + y.min() - y) * s])
    tol = {".3f": 6e-4, ".6f": 6e-7, ".8e": 0.0, "g": 0.0}[kw.get("float_fmt", ".3f")]
    rt = {".8e": 2e-8, "g": 1e-5}.get(kw.get("float_fmt"), 1e-12)
    scale = np.abs(xy).max() + 1
    tol = tol + rt * scale + (1e-5 * scale if pts.dtype == np.float32 else 0)
    want = [(t != "line", xy[c]) for t, cc in p["cells"] if t in ("line", "triangle", "quad") for c in cc]
    require(len(paths) == len(want), f"{len(paths)} paths for {len(want)} cells")
    for k, ((ca, a), (cb, b)) in enumerate(zip(want, paths)):
        require(ca == cb and a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol), f"path {k}: {b.tolist()} (closed: {cb}), expected {a.tolist()} (closed: {ca})")
    require(np.allclose(vb, [x.min() * s, y.min() * s, w * s, (y.max() - y.min()) * s], rtol=0, atol=2 * tol), f"viewBox {vb}")
    for k, name in (("fill", "fill"), ("stroke", "stroke"), ("stroke_width", "stroke-width")):
        if k in kw:
            require(re.search(rf"(?<![-\w]){name}: ?{re.escape(kw[k])}", style), f"style {style!r}")


def cl(case):
    t = [b[0] for b in case["mesh"]["blocks"]]
    return len(set(t)) > 1, ["type:" + x for x in set(t)]


def suites():
    out = []
    for name, ok in SKIPS.items():
        v = find(name)
        dom = dataclasses.replace(v.dom, types=tuple(dict.fromkeys([*v.dom.types, *ALL])) + v.dom.types * max(1, 12 // len(v.dom.types)), max_blocks=5, unique=v.dom.unique or name == "cgns", large=(),
                                  pdt=("f8",), pmodes=("unit", "dec"), idt=("i8",))
        strat = M.recipes(dom).map(lambda r: {"mesh": r})
        out.append(Suite(f"skip/{name}", strat, skip_check(v, ok), quick=200, classify=cl))
    for name, bad in REFUSE.items():
        v = find(name)
        dom = dataclasses.replace(v.dom, types=v.dom.types + bad * max(1, len(v.dom.types) // len(bad)), max_blocks=4, large=(), pdt=("f8",), pmodes=("unit", "dec"),
                                  psets=(), csets=())
        strat = M.recipes(dom).map(lambda r: {"mesh": r})
        out.append(Suite(f"refuse/{name}", strat, refuse_check(v, bad), quick=100, classify=cl))
    out.append(Suite("svg", svg_cases(), svg_check, quick=600, classify=cl))
    return out
