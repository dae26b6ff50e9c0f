"""XDMF, Exodus II, MED and H5M files as other programs write them, plus the mesh they describe."""
from __future__ import annotations

import os
import xml.etree.ElementTree as ET

import numpy as np
from hypothesis import strategies as st

from . import fmt_xdmf as X
from .fmt_fem import mk
from .fmt_hdf import EXO, H5M, MED, MEDN, NOPFL
from .foreign_fem import B, flags, num, pick
from .mesh import NN, Data, Dom, build, data_list, fill, merge_adjacent, pad3, recipes

# ------------------------------------------------------------------ XDMF
XNAME = {"vertex": ["Polyvertex"], "line": ["Polyline"], "line3": ["Edge_3"], "triangle": ["Triangle"], "triangle6": ["Triangle_6", "Tri_6"], "quad": ["Quadrilateral"], "quad8": ["Quadrilateral_8", "Quad_8"],
         "quad9": ["Quadrilateral_9", "Quad_9"], "tetra": ["Tetrahedron"], "tetra10": ["Tetrahedron_10", "Tet_10"], "pyramid": ["Pyramid"], "pyramid13": ["Pyramid_13"], "wedge": ["Wedge"],
         "wedge15": ["Wedge_15"], "wedge18": ["Wedge_18"], "hexahedron": ["Hexahedron"], "hexahedron20": ["Hexahedron_20", "Hex_20"], "hexahedron24": ["Hexahedron_24", "Hex_24"],
         "hexahedron27": ["Hexahedron_27", "Hex_27"], "hexahedron64": ["Hexahedron_64", "Hex_64"]}
XCODE = {"vertex": 1, "line": 2, "triangle": 4, "quad": 5, "tetra": 6, "pyramid": 7, "wedge": 8, "hexahedron": 9, "line3": 0x22, "quad9": 0x23, "triangle6": 0x24, "quad8": 0x25, "tetra10": 0x26, "pyramid13": 0x27,
         "wedge15": 0x28, "wedge18": 0x29, "hexahedron20": 0x30, "hexahedron24": 0x31, "hexahedron27": 0x32, "hexahedron64": 0x33}
NT = {"i": "Int", "u": "UInt", "f": "Float"}


class XW:
    """writes data items in the style asked for"""

    def __init__(self, s, rng, d, stem="data"):
        self.s, self.rng, self.d, self.k, self.h5, self.stem = s, rng, d, 0, None, stem
        self.made = []  # (path to item, array)

    def item(self, parent, a, ref=None, isfloat4=False):
        s, rng = self.s, self.rng
        a = np.ascontiguousarray(a)
        if ref is not None:
            e = ET.SubElement(parent, "DataItem", Reference="XML")
            e.text = pick(rng, ["", "\n   "]) + ref + pick(rng, ["", "\n"])
            if s["refattr"]:
                e.set("Reference", ref)
                e.text = None
            return
        fmt = s["fmt"] if s["fmt"] != "mixed" else pick(rng, ["XML", "HDF", "Binary"])
        at = {"Dimensions": pick(rng, ["", " "] if s["ws"] else [""]) + " ".join(map(str, a.shape))}
        default_type = a.dtype.kind == "f" and s["defaults"]
        if not default_type:
            at["NumberType" if s["numbertype"] else "DataType"] = NT[a.dtype.kind]
        if not (a.dtype.itemsize == 4 and s["defaults"]):
            at["Precision"] = str(a.dtype.itemsize)
        if not (fmt == "XML" and s["defaults"]):
            at["Format"] = fmt
        if s["names"]:
            at["Name"] = f"item {self.k}"
        e = ET.SubElement(parent, "DataItem", **at)
        if fmt == "XML":
            f = (lambda v: str(int(v))) if a.dtype.kind in "iu" else (lambda v: num(rng, v)) if a.dtype.itemsize == 8 else (lambda v: f"{float(v):.9g}")
            rows = a.reshape(len(a), -1) if a.ndim else a
            sep = pick(rng, [" ", "  ", "\t", "\n"]) if s["ws"] else " "
            e.text = ("\n" if s["ws"] else "") + "\n".join(sep.join(f(v) for v in r) for r in rows) + ("\n   " if s["ws"] else "")
            if s["ragged"]:  # any white space between any two numbers
                e.text = "".join(pick(rng, ["", "\n"]) if not i else tok + pick(rng, [" ", " ", "\n", "  ", "\n      ", "\t"]) for i, tok in enumerate(["", *e.text.split()]))
        elif fmt == "Binary":
            fn = os.path.join(self.d, f"{self.stem}{self.k}.bin")
            a.tofile(fn)
            e.text = (os.path.basename(fn) if rng.random() < 0.7 else fn) + ("\n" if s["ws"] else "")
        else:
            import h5py

            if self.h5 is None:
                self.h5 = h5py.File(os.path.join(self.d, f"{self.stem}.h5"), "w")
            key = pick(rng, [f"data{self.k}", f"Mesh/{self.k}/x", f"/a/b/c {self.k}" if not s["ws"] else f"a/b/{self.k}"])
            self.h5.create_dataset(key, data=a, **({"compression": "gzip"} if rng.random() < 0.3 and a.size else {}))
            sl = "" if s["noslash"] and not key.startswith("/") else "/"
            e.text = pick(rng, ["", "\n   "] if s["ws"] else [""]) + f"{self.stem}.h5:{sl}{key.lstrip('/')}" + pick(rng, ["", "\n"])
        self.k += 1

    def close(self):
        if self.h5 is not None:
            self.h5.close()


def key(s, which):
    return which if s["xdmf2keys"] else "Type"


def put_mesh(grid, p, s, w, rng, path):
    """Topology and Geometry; returns the cells as read and path to the geometry item"""
    cells = [(t, np.asarray(c)) for t, c in p["cells"]]

    def topo():
        if len(cells) == 1 and not s["mixed"]:
            t, c = cells[0]
            e = ET.SubElement(grid, "Topology", **{key(s, "TopologyType"): pick(rng, XNAME[t]), "NumberOfElements": str(len(c)), "NodesPerElement": str(c.shape[1])})
            w.item(e, c)
        else:
            out = []
            for t, c in cells:
                for row in c:
                    out.append(XCODE[t])
                    if t in ("vertex", "line"):
                        out.append(len(row))
                    out.extend(int(x) for x in row)
            e = ET.SubElement(grid, "Topology", **{key(s, "TopologyType"): "Mixed", "NumberOfElements": str(sum(len(c) for _, c in cells))})
            w.item(e, np.array(out, dtype=cells[0][1].dtype))

    def geo():
        e = ET.SubElement(grid, "Geometry", **{key(s, "GeometryType"): "XYZ" if p["points"].shape[1] == 3 else "XY"})
        w.item(e, p["points"])

    for f in ((geo, topo) if s["geofirst"] else (topo, geo)):
        f()


def put_attr(grid, name, a, center, s, w, rng, ref=None):
    at = {"Name": name}
    if not (center == "Node" and s["defaults"]):
        at["Center"] = center
    if not s["defaults"]:
        at["AttributeType" if s["xdmf2keys"] else "Type"] = {1: "Scalar", 2: "Vector"}.get(a.ndim, "Matrix")
    if rng.random() < 0.3:
        at["Active"] = "1"
    w.item(ET.SubElement(grid, "Attribute", **at), a, ref)


def xtext(root, s):
    if s["ws"]:
        ET.indent(root, "  ")
    b = ET.tostring(root, encoding="utf-8", xml_declaration=s["decl"])
    if s["doctype"]:
        i = b.index(b"<Xdmf")
        b = b[:i] + b'<!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>\n<!-- written elsewhere -->\n' + b[i:]
    if s["comments"]:
        b = b.replace(b"</Grid>", b"<!-- <Topology/> --></Grid>", 1)
    return b


def xmerge(p, cells_mixed):
    return merge_adjacent(p) if cells_mixed else p


def xdmf(case, d):
    s = case["style"]
    p = build(case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    v2 = s["version"].startswith("2")
    s = dict(s)
    if v2:
        p = pad3(p)
        s["xdmf2keys"] = True
    root = ET.Element("Xdmf", Version=s["version"])
    dom = ET.SubElement(root, "Domain")
    at = {"Name": "Grid"} if s["names"] else {}
    if v2 or s["gridtype"]:
        at["GridType"] = "Uniform"
    grid = ET.SubElement(dom, "Grid", **at)
    w = XW(s, rng, d)
    attrs = [("Node", k, v) for k, v in p["point_data"].items()] + [("Cell", k, np.concatenate(v)) for k, v in p["cell_data"].items()]
    if s["attrfirst"]:
        for c, k, a in attrs:
            put_attr(grid, k, a, c, s, w, rng)
        put_mesh(grid, p, s, w, rng, "")
    else:
        put_mesh(grid, p, s, w, rng, "")
        for c, k, a in attrs:
            put_attr(grid, k, a, c, s, w, rng)
    if s["reference"]:
        put_attr(grid, "xyz again", p["points"], "Node", s, w, rng, ref="/Xdmf/Domain/Grid/Geometry/DataItem")
        p["point_data"]["xyz again"] = p["points"]
    if s["info"]:  # tag names as meshio 2 wrote them
        inner = ET.Element("main")
        for nm in [XNAMES[i] for i in rng.permutation(len(XNAMES))[: int(rng.integers(1, 4))]]:
            num_, dim_ = int(rng.integers(-3, 1000)), int(rng.integers(0, 4))
            ET.SubElement(inner, "map", key=nm, dim=str(dim_)).text = str(num_)
            p["field_data"][nm] = np.array([num_, dim_])
        e = ET.Element("Information", Name="Information", Value=str(len(inner)))
        e.text = ET.tostring(inner, encoding="unicode")
        grid.insert(int(rng.integers(0, len(grid) + 1)), e)
    if v2 and s["gridattr"]:
        put_attr(grid, "whole", np.array([1.5, 2.5]), "Grid", s, w, rng)
    w.close()
    fn = os.path.join(d, "f.xdmf")
    with open(fn, "wb") as f:
        f.write(xtext(root, s))
    e = merge_adjacent(p) if len(p["cells"]) > 1 or s["mixed"] else p
    return e, fn


XSTYLE = flags("info", "gridattr", "ragged", "defaults", "numbertype", "names", "ws", "noslash", "refattr", "xdmf2keys", "mixed", "geofirst", "attrfirst", "decl", "doctype", "comments", "reference", "gridtype",
               fmt=st.sampled_from(["XML", "HDF", "Binary", "mixed"]), version=st.sampled_from(["2.0", "2.1", "2.2", "3.0", "3.0", "3.3"]))
XNAMES = ("a", "u", "temp", "B2", "vel x", "p&q", "a<b", "ünï")
XD = Data(dtypes=("f8", "f8", "f4", "i8", "i4", "u8", "u4", "i1", "u1"), shapes=((), (), (1,), (2,), (3,), (6,), (9,), (3, 3), (5,)), modes=("int", "unit", "wide", "special"), names=XNAMES)
XDMF_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(XNAME), dims=(3, 2), pdt=("f8", "f4"), idt=("i8", "i4", "u8", "u4", "i2", "u1"), layouts=(), pd=XD, cd=XD)),
    "style": XSTYLE,
})


def xdmf_series(case, d):
    """-> points/cells plain, [(t, point_data, cell_data)], filename"""
    s = dict(case["style"])
    p = build(case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    s["noslash"] = False
    n = len(p["points"])
    root = ET.Element("Xdmf", Version="3.0")
    dom = ET.SubElement(root, "Domain")
    w = XW(s, rng, d, "series")
    steps = []
    layout = case["layout"]
    coll = ET.Element("Grid", Name="TimeSeries", GridType="Collection", CollectionType="Temporal")
    if layout == "mesh first":
        put_mesh(ET.SubElement(dom, "Grid", Name="mesh", GridType="Uniform"), p, s, w, rng, "")
    dom.append(coll)
    if layout == "mesh last":
        put_mesh(ET.SubElement(dom, "Grid", Name="mesh", GridType="Uniform"), p, s, w, rng, "")
    s["defaults"] = False
    for k, sp in enumerate(case["steps"]):
        g = ET.SubElement(coll, "Grid", Name=f"g{k}", GridType="Uniform")
        if layout == "in step" and (k == 0 or s["mixed"]):
            put_mesh(g, p, s, w, rng, "")
        elif s["names"]:
            ET.SubElement(g, "{http://www.w3.org/2003/XInclude}include", xpointer='xpointer(//Grid[@Name="mesh"]/*[self::Topology or self::Geometry])')
        pd = {a: fill(rng, (n, *sh), dt, md) for a, dt, sh, md in sp["pd"]}
        cd = {a: [fill(rng, (len(c), *sh), dt, md) for _, c in p["cells"]] for a, dt, sh, md in sp["cd"]}
        if not s["attrfirst"]:
            ET.SubElement(g, "Time", Value=repr(sp["t"]))
        for a, v in pd.items():
            put_attr(g, a, v, "Node", s, w, rng)
        for a, v in cd.items():
            put_attr(g, a, np.concatenate(v), "Cell", s, w, rng)
        if s["attrfirst"]:
            ET.SubElement(g, "Time", Value=repr(sp["t"]))
        steps.append((sp["t"], pd, cd))
    w.close()
    fn = os.path.join(d, "ts.xdmf")
    with open(fn, "wb") as f:
        f.write(xtext(root, s))
    mixed = len(p["cells"]) > 1 or s["mixed"]
    out = []
    for t, pd, cd in steps:
        e = mk(p["points"], p["cells"], pd, cd)
        out.append((t, merge_adjacent(e) if mixed else e))
    return out, fn


SERIES_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(XNAME), dims=(3, 2), pdt=("f8", "f4"), idt=("i8", "i4", "u8"), layouts=(), max_blocks=3)),
    "style": XSTYLE, "layout": st.sampled_from(["mesh first", "mesh last", "in step"]),
    "steps": st.lists(st.fixed_dictionaries({"t": st.one_of(st.floats(-1e3, 1e3), st.sampled_from([0.0, 1e-12, 1 / 3])), "pd": data_list(XD), "cd": data_list(XD)}), min_size=1, max_size=4),
    "order": st.lists(st.integers(0, 9), max_size=5),
})

# ------------------------------------------------------------------ Exodus II
EXO_BY = {}
for _n, _t in EXO.items():
    if _t not in ("hexahedron20", "hexahedron27"):
        EXO_BY.setdefault(_t, []).append(_n)


def exodus(case, d):
    import netCDF4

    s = case["style"]
    p = build(case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    n, dim = p["points"].shape
    fn = os.path.join(d, "f.e")
    ln = s["len_name"]
    real = "f4" if s["single"] else "f8"
    p["points"] = p["points"].astype(real)
    nsteps = s["steps"]
    info = []

    def chars(a, width):
        return np.array([list(x.encode().ljust(width, b"\0")) for x in a], dtype="u1").view("S1").reshape(len(a), width)

    with netCDF4.Dataset(fn, "w", format=s["nc"]) as nc:
        nc.api_version, nc.version, nc.floating_point_word_size, nc.file_size = np.float32(5.1), np.float32(5.1), np.int32(4 if s["single"] else 8), np.int32(1)
        nc.title = "written elsewhere"
        dims = dict(len_string=33, len_line=81, len_name=ln, four=4, num_dim=dim, num_nodes=n, num_elem=sum(len(c) for _, c in p["cells"]))
        for k, v in dims.items():
            nc.createDimension(k, v)
        nc.createDimension("time_step", None)
        nblk = len(p["cells"]) + (len(p["cells"]) if s["null"] else 0)
        nc.createDimension("num_el_blk", nblk)
        t = nc.createVariable("time_whole", real, ("time_step",))
        t[:] = np.arange(nsteps, dtype=real)
        if s["qa"]:
            nc.createDimension("num_qa_rec", 2)
            v = nc.createVariable("qa_records", "S1", ("num_qa_rec", "four", "len_string"))
            v[:] = chars(["code", "1.0", "01/01/01", "10:00"] * 2, 33).reshape(2, 4, 33)
            nc.createDimension("num_info", 3)
            v = nc.createVariable("info_records", "S1", ("num_info", "len_line"))
            v[:] = chars(["some information", "more: ünï", "and more"], 81)
            info = ["code", "1.0", "01/01/01", "10:00"] * 2 + ["some information", "more: ünï", "and more"]
            if s["latin"]:  # a record in another encoding can't be decoded
                v[2, 3] = b"\xff"
                info.pop()

        def coords():
            if s["coordxyz"]:
                for i in range(dim):
                    v = nc.createVariable("coord" + "xyz"[i], real, ("num_nodes",))
                    v[:] = p["points"][:, i]
            else:
                v = nc.createVariable("coord", real, ("num_dim", "num_nodes"))
                v[:] = p["points"].T
            v = nc.createVariable("coor_names", "S1", ("num_dim", "len_name"))
            v[:] = chars(["X", "Y", "Z"][:dim], ln)

        blockno = []

        def blocks():
            k = 0
            for i, (t, c) in enumerate(p["cells"]):
                if s["null"] and rng.random() < 0.6:
                    k += 1  # an empty block: no connectivity variable
                k += 1
                blockno.append(k)
                nc.createDimension(f"num_el_in_blk{k}", len(c))
                nc.createDimension(f"num_nod_per_el{k}", c.shape[1])
                v = nc.createVariable(f"connect{k}", "i4" if s["nc"] != "NETCDF4" else "i8", (f"num_el_in_blk{k}", f"num_nod_per_el{k}"))
                name = pick(rng, EXO_BY[t])
                v.elem_type = name.lower() if s["lower"] else name
                v[:] = np.asarray(c) + 1
                if rng.random() < 0.3:
                    nc.createDimension(f"num_att_in_blk{k}", 1)
                    v = nc.createVariable(f"attrib{k}", real, (f"num_el_in_blk{k}", f"num_att_in_blk{k}"))
                    v[:] = 1.0

        if s["blocksfirst"]:
            blocks(), coords()
        else:
            coords(), blocks()
        v = nc.createVariable("eb_status", "i4", ("num_el_blk",))
        v[:] = [int(i + 1 in blockno) for i in range(nblk)]
        v = nc.createVariable("eb_prop1", "i4", ("num_el_blk",))
        v.setncattr("name", "ID")
        v[:] = rng.permutation(nblk) * 10 + 1
        if s["maps"]:
            v = nc.createVariable("node_num_map", "i4", ("num_nodes",))
            v[:] = rng.permutation(n) + 5
            v = nc.createVariable("elem_num_map", "i4", ("num_elem",))
            v[:] = rng.permutation(dims["num_elem"]) + 5
        # nodal variables: components are variables named <name>X, <name>Y, <name>Z
        comp = []
        pd = {}
        if nsteps:
            for name, a in p["point_data"].items():
                a = a.astype(real)
                if a.ndim == 1:
                    comp.append((name, a))
                    pd[name] = a
                elif a.shape[1] == 3:
                    comp += [(name + "XYZ"[i], a[:, i]) for i in range(3)]
                    pd[name] = a
                else:
                    comp += [(name + "_R", a[:, 0]), (name + "_Z", a[:, 1])]
                    pd[name] = a
            if s["partial"]:  # names which only look like those of components
                for name in pick(rng, [["fluxX"], ["gX", "gY"], ["q_R"], ["q_Z", "hZ"], ["kY", "kZ"], ["X"], ["_R"], ["kX", "kZ", "qX"], ["Y", "Z"], ["gX", "kY", "hZ"], ["q_R", "q_T"]]):
                    pd[name] = rng.integers(-9, 9, n).astype(real)
                    comp.append((name, pd[name]))
            if s["shuffle"]:
                comp = [comp[i] for i in rng.permutation(len(comp))]
        if comp:
            nc.createDimension("num_nod_var", len(comp))
            v = nc.createVariable("name_nod_var", "S1", ("num_nod_var", "len_name"))
            v[:] = chars([k for k, _ in comp], ln)
            for i, (_, a) in enumerate(comp):
                v = nc.createVariable(f"vals_nod_var{i + 1}", real, ("time_step", "num_nodes"))
                for j in range(nsteps):
                    v[j] = a if j == 0 else a * 0 + j
        cd = {}
        if p["cell_data"] and nsteps:
            names = list(p["cell_data"])
            nc.createDimension("num_elem_var", len(names))
            v = nc.createVariable("name_elem_var", "S1", ("num_elem_var", "len_name"))
            v[:] = chars(names, ln)
            for i, k in enumerate(names):
                vals = []
                on = [not s["truth"] or rng.random() < 0.5 for _ in p["cells"]]
                for b, a in zip(blockno, p["cell_data"][k]):
                    if on[len(vals)]:
                        a = a.astype(real)
                        v = nc.createVariable(f"vals_elem_var{i + 1}eb{b}", real, ("time_step", f"num_el_in_blk{b}"))
                        for j in range(nsteps):
                            v[j] = a if j == 0 else a * 0 - j
                    else:
                        a = np.full(len(a), np.nan)
                    vals.append(a)
                if any(on):
                    cd[k] = vals
        ps = {}
        if p["point_sets"]:
            names = list(p["point_sets"])
            full = []
            for k in names:
                if s["null"] and rng.random() < 0.5:
                    full.append(None)
                full.append(k)
            nc.createDimension("num_node_sets", len(full))
            v = nc.createVariable("ns_status", "i4", ("num_node_sets",))
            v[:] = [int(k is not None) for k in full]
            v = nc.createVariable("ns_prop1", "i4", ("num_node_sets",))
            v[:] = np.arange(len(full)) + 7
            v = nc.createVariable("ns_names", "S1", ("num_node_sets", "len_name"))
            v[:] = chars([k or "void" for k in full], ln)
            for i, k in enumerate(full):
                if k is None:
                    continue
                a = rng.permutation(p["point_sets"][k])
                nc.createDimension(f"num_nod_ns{i + 1}", len(a))
                v = nc.createVariable(f"node_ns{i + 1}", "i4", (f"num_nod_ns{i + 1}",))
                v[:] = a + 1
                if s["maps"]:
                    v = nc.createVariable(f"dist_fact_ns{i + 1}", real, (f"num_nod_ns{i + 1}",))
                    v[:] = 1.0
                ps[k] = a
        if s["sides"]:
            nc.createDimension("num_side_sets", 1)
            nc.createDimension("num_side_ss1", 1)
            for k in ("ss_status", "ss_prop1"):
                v = nc.createVariable(k, "i4", ("num_side_sets",))
                v[:] = 1
            for k in ("elem_ss1", "side_ss1"):
                v = nc.createVariable(k, "i4", ("num_side_ss1",))
                v[:] = 1
    e = mk(p["points"], p["cells"], pd, cd, ps)
    if s["coordxyz"]:
        e = pad3(e)
    e["info"] = info
    return e, fn


ED = Data(dtypes=("f8",), shapes=((), (), (2,), (3,)), modes=("int", "unit", "wide"), names=("a", "u", "temp", "B2", "vel x", "disp", "p&q"))
EDC = Data(dtypes=("f8",), shapes=((),), modes=("int", "unit", "wide"), names=("a", "u", "temp", "stress_xx", "vel x"))
EXO_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(EXO_BY), dims=(3, 2), pd=ED, cd=EDC, psets=("s1", "wall", "in flow", "x"), set_min=1, layouts=(), pmodes=("int", "unit", "dec"), max_blocks=5)),
    "style": flags("single", "coordxyz", "qa", "blocksfirst", "lower", "null", "maps", "truth", "sides", "partial", "shuffle", "latin", len_name=st.sampled_from([33, 256]), steps=st.sampled_from([1, 1, 2, 3]),
                   nc=st.sampled_from(["NETCDF4", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC"])),
})

# ------------------------------------------------------------------ MED


def med(case, d):
    import h5py

    s = case["style"]
    p = build(case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    n, dim = p["points"].shape
    fn = os.path.join(d, "f.med")
    name = pick(rng, ["mesh", "Mesh_1", "00000000000000000000", "a b"])
    order = sorted(range(len(p["cells"])), key=lambda i: MEDN[p["cells"][i][0]])
    cells = [p["cells"][i] for i in order]
    names = {"NOEUD": {}, "ELEME": {}}
    pd, cd, nom = {}, {}, {}
    with h5py.File(fn, "w") as f:
        g = f.create_group("INFOS_GENERALES")
        for k, v in zip(("MAJ", "MIN", "REL"), pick(rng, [(3, 0, 8), (3, 2, 1), (4, 0, 0)])):
            g.attrs[k] = v
        m = f.create_group("ENS_MAA").create_group(name)
        for k, v in (("DIM", dim), ("ESP", dim), ("REP", 0), ("SRT", 1), ("TYP", 0)):
            m.attrs[k] = np.int32(v)
        for k, v in (("DES", b"written elsewhere"), ("NOM", b"X".ljust(16) * dim), ("UNI", b"m"), ("UNT", b"")):
            m.attrs[k] = np.bytes_(v)
        st_ = m.create_group("-0000000000000000001-0000000000000000001") if not s["flat"] else m
        if not s["flat"]:
            for k, v in (("CGT", 1), ("NDT", -1), ("NOR", -1), ("NXI", -1), ("NXT", -1), ("PDT", -1.0), ("PVI", -1), ("PVT", -1)):
                st_.attrs[k] = v
        noe = st_.create_group("NOE")
        noe.attrs["CGT"], noe.attrs["CGS"], noe.attrs["PFL"] = 1, 1, np.bytes_(NOPFL)
        c = noe.create_dataset("COO", data=p["points"].T.reshape(-1))
        c.attrs["CGT"], c.attrs["NBR"] = 1, n
        if s["ptags"]:
            t = rng.integers(0, 4, n)
            x = noe.create_dataset("FAM", data=t)
            x.attrs["CGT"], x.attrs["NBR"] = 1, n
            pd["point_tags"] = t
        if s["nums"]:
            x = noe.create_dataset("NUM", data=rng.permutation(n) + 1)
            x.attrs["CGT"], x.attrs["NBR"] = 1, n
        mai = st_.create_group("MAI")
        mai.attrs["CGT"] = 1
        tags = []
        for t, c in cells:
            g = mai.create_group(MEDN[t])
            for k, v in (("CGT", 1), ("CGS", 1), ("GEO", 203)):
                g.attrs[k] = v
            g.attrs["PFL"] = np.bytes_(NOPFL)
            x = g.create_dataset("NOD", data=(np.asarray(c).T.reshape(-1) + 1).astype("i4" if s["i4"] else "i8"))
            x.attrs["CGT"], x.attrs["NBR"] = 1, len(c)
            if s["ctags"] and (not s["partial"] or rng.random() < 0.5):
                tg = -rng.integers(0, 4, len(c))
                x = g.create_dataset("FAM", data=tg)
                x.attrs["CGT"], x.attrs["NBR"] = 1, len(c)
                tags.append(tg)
            else:
                tags.append(None)
            if s["nums"]:
                x = g.create_dataset("NUM", data=np.arange(len(c)) + 1)
                x.attrs["CGT"], x.attrs["NBR"] = 1, len(c)
        if any(t is not None for t in tags):
            cd["cell_tags"] = [np.zeros(len(c), int) if t is None else t for t, (_, c) in zip(tags, cells)]
        fas = st_.create_group("FAS") if s["flat"] and s["fasin"] else f.create_group("FAS").create_group(name)
        fas.create_group("FAMILLE_ZERO").attrs["NUM"] = 0
        for kind, sg in (("NOEUD", 1), ("ELEME", -1)):
            if not s["families"]:
                continue
            g = fas.create_group(kind)
            for k in range(int(rng.integers(1, 4))):
                h = g.create_group(f"FAM_{sg * (k + 1)}_x")
                h.attrs["NUM"] = sg * (k + 1)
                if rng.random() < 0.15:
                    names[kind][sg * (k + 1)] = []
                    continue
                gr = h.create_group("GRO")
                gn = [pick(rng, ["Top", "Side A", "bottom-2", "x" * 80, "Wing", "Côté/1"]) + ("" if i == 0 else str(i))[:0] for i in range(int(rng.integers(1, 4)))]
                gr.attrs["NBR"] = len(gn)
                gr.create_dataset("NOM", data=np.array([np.frombuffer(q.encode().ljust(80, b"\0" if s["nulpad"] else b" "), dtype="i1") for q in gn]))
                names[kind][sg * (k + 1)] = gn
        if s["fields"]:
            cha = f.create_group("CHA")
            prof = None
            for q in case["fields"]:
                if q["name"] in cha or (q["steps"] > 1 and any(x["name"] == q["name"] and x is not q for x in case["fields"])):
                    continue
                nco = q["nco"]
                g = cha.create_group(q["name"])
                g.attrs["MAI"], g.attrs["NCO"], g.attrs["TYP"], g.attrs["UNT"] = np.bytes_(name), nco, 6, np.bytes_("")
                cn = ["DX", "DY", "DZ", "DRX", "DRY", "DRZ"][:nco]
                g.attrs["NOM"] = np.bytes_("".join(x.ljust(16) for x in cn))
                g.attrs["UNI"] = np.bytes_(" " * 16 * nco)
                supports = []
                if q["nodes"]:
                    supports.append(("NOE", n, 1, None))
                for i, (t, c) in enumerate(cells):
                    if q["cells"] and (not s["partial"] or rng.random() < 0.6):
                        ng = {"cell": 1, "elno": NN[t], "elga": q["ng"]}[q["kind"]]
                        supports.append((("MAI." if q["kind"] != "elno" else "NOE.") + MEDN[t], len(c), ng, i))
                # a field has the same number of values per cell wherever it is given
                if len({x[2] for x in supports if x[3] is not None}) > 1:
                    supports = [x for x in supports if x[3] is None]
                if not supports:
                    del cha[q["name"]]
                    continue
                for k in range(q["steps"]):
                    sg = g.create_group(f"{k + 1:020d}{-1:020d}" if q["steps"] > 1 else "-0000000000000000001-0000000000000000001")
                    tm = q["t0"] + 0.5 * k
                    for a, v in (("NDT", k + 1), ("NOR", -1), ("PDT", tm), ("RDT", -1), ("ROR", -1)):
                        sg.attrs[a] = v
                    fname = q["name"] if q["steps"] == 1 else q["name"] + f"[{k}] - {tm:g}"
                    nom[fname] = cn
                    for supp, ne, ng, i in supports:
                        u = sg.create_group(supp)
                        u.attrs["GAU"] = np.bytes_("")
                        sel = None
                        pf = NOPFL
                        if q["profile"] and ne > 1:
                            sel = np.sort(rng.permutation(ne)[: int(rng.integers(1, ne))])
                            pf = f"profile {q['name']} {k} {supp}"
                            if prof is None:
                                prof = f.create_group("PROFILS")
                            pg = prof.create_group(pf)
                            pg.attrs["NBR"] = len(sel)
                            pg.create_dataset("PFL", data=sel + 1)
                        u.attrs["PFL"] = np.bytes_(pf)
                        w = u.create_group(pf)
                        w.attrs["GAU"], w.attrs["NBR"], w.attrs["NGA"] = np.bytes_(""), ne, ng
                        cnt = ne if sel is None else len(sel)
                        v = fill(rng, (cnt, ng, nco), "f8", "unit")
                        w.create_dataset("CO", data=v.transpose(2, 1, 0).reshape(-1))
                        full = v
                        if sel is not None:
                            full = np.full((ne, ng, nco), np.nan)
                            full[sel] = v
                        if ng == 1:
                            full = full[:, 0, :]
                            if nco == 1:
                                full = full[:, 0]
                        if i is None:
                            pd[fname] = full
                        else:
                            cd.setdefault(fname, [None] * len(cells))[i] = full
            for k, v in cd.items():
                sh = next(x.shape[1:] for x in v if x is not None)
                cd[k] = [np.full((len(c), *sh), np.nan) if x is None else x for x, (_, c) in zip(v, cells)]
    e = mk(p["points"], [(t, np.asarray(c)) for t, c in cells], pd, cd)
    return e, fn, names


FIELD = st.fixed_dictionaries({"name": st.sampled_from(["U", "T", "reslin  DEPL", "sigma", "p_1"]), "nco": st.integers(1, 6), "nodes": B, "cells": B, "kind": st.sampled_from(["cell", "cell", "elno", "elga"]),
                               "ng": st.integers(1, 4), "steps": st.sampled_from([1, 1, 2, 3]), "t0": st.sampled_from([0.0, 0.1, -2.0, 1e-5]), "profile": B})
MED_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(MEDN), dims=(3, 2), unique=True, max_blocks=5, layouts=())),
    "style": flags("flat", "ptags", "ctags", "nums", "i4", "partial", "fasin", "families", "nulpad", "fields"),
    "fields": st.lists(FIELD, max_size=3),
})

# ------------------------------------------------------------------ H5M


def h5m(case, d):
    import h5py

    s = case["style"]
    p = build(case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    byname = {v: k for k, v in H5M.items()}
    fn = os.path.join(d, "f.h5m")
    n = len(p["points"])
    cells = sorted([(t, np.asarray(c)) for t, c in p["cells"]], key=lambda x: byname[x[0]])
    with h5py.File(fn, "w") as f:
        t = f.create_group("tstt")
        nd = t.create_group("nodes")
        x = nd.create_dataset("coordinates", data=p["points"])
        x.attrs["start_id"] = 1
        pd = {}
        if p["point_data"]:
            g = nd.create_group("tags")
            for k, v in p["point_data"].items():
                g.create_dataset(k, data=v)
                pd[k] = v
        el = t.create_group("elements")
        nxt = n + 1
        for ty, c in [cells[i] for i in rng.permutation(len(cells))]:
            g = el.create_group(byname[ty])
            x = g.create_dataset("connectivity", data=(c + 1).astype("u8" if s["u8"] else "i8"))
            x.attrs["start_id"] = nxt
            nxt += len(c)
            if s["tags"]:
                g.create_group("tags").create_dataset("GLOBAL_ID", data=np.arange(len(c)))
        t.attrs["max_id"] = np.uint64(nxt - 1)
        if s["tags"]:
            tg = t.create_group("tags")
            for k in list(pd) + ["GLOBAL_ID", "MATERIAL_SET"]:
                tg.require_group(k)
        if s["sets"]:
            g = t.create_group("sets")
            g.create_dataset("contents", data=np.arange(1, 4))
            g.create_dataset("list", data=np.array([[2, -1, -1, 2]]))
            g.create_group("tags")
        if s["history"]:
            t.create_dataset("history", data=np.array([b"MOAB", b"5.3"]))
    return mk(p["points"], cells, pd), fn


HD3 = Data(dtypes=("f8", "f4", "i8", "i4"), shapes=((), (2,), (3,)), modes=("int", "unit", "wide"), names=("a", "u", "temp", "DIRICHLET_SET", "GLOBAL_ID"))
H5M_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(H5M.values()), dims=(3, 2), pdt=("f8", "f4"), unique=True, max_blocks=5, pd=HD3, layouts=())),
    "style": flags("u8", "tags", "sets", "history"),
})
