"""XDMF 3 (HDF / XML / Binary data items) and HMF: reference parsers and domains."""
from __future__ import annotations

import os
import xml.etree.ElementTree as ET

import numpy as np

from .mesh import NN, Cmp, Data, Dom, chars, merge_adjacent
from .registry import Variant, add

# XdmfTopologyType.cpp
IDX = {
    0x1: "vertex", 0x2: "line", 0x4: "triangle", 0x5: "quad", 0x6: "tetra", 0x7: "pyramid", 0x8: "wedge",
    0x9: "hexahedron", 0x22: "line3", 0x23: "quad9", 0x24: "triangle6", 0x25: "quad8", 0x26: "tetra10",
    0x27: "pyramid13", 0x28: "wedge15", 0x29: "wedge18", 0x30: "hexahedron20", 0x31: "hexahedron24",
    0x32: "hexahedron27", 0x33: "hexahedron64", 0x34: "hexahedron125", 0x35: "hexahedron216",
}
TNAME = {
    "Polyvertex": "vertex", "Polyline": "line", "Edge_3": "line3", "Quadrilateral": "quad", "Quadrilateral_8": "quad8",
    "Quadrilateral_9": "quad9", "Pyramid": "pyramid", "Pyramid_13": "pyramid13", "Tetrahedron": "tetra",
    "Triangle": "triangle", "Triangle_6": "triangle6", "Tetrahedron_10": "tetra10", "Wedge": "wedge",
    "Wedge_15": "wedge15", "Wedge_18": "wedge18", "Hexahedron": "hexahedron", "Hexahedron_20": "hexahedron20",
    "Hexahedron_24": "hexahedron24", "Hexahedron_27": "hexahedron27", "Hexahedron_64": "hexahedron64",
    "Hexahedron_125": "hexahedron125", "Hexahedron_216": "hexahedron216",
}
DT = {("Int", "1"): "i1", ("Int", "2"): "i2", ("Int", "4"): "i4", ("Int", "8"): "i8", ("UInt", "1"): "u1",
      ("UInt", "2"): "u2", ("UInt", "4"): "u4", ("UInt", "8"): "u8", ("Float", "4"): "f4", ("Float", "8"): "f8"}


def item(el, path, fmt):
    import h5py

    (di,) = el.findall("DataItem")
    assert len(el) == 1
    dt = np.dtype(DT[di.attrib["DataType"], di.attrib["Precision"]])
    dims = tuple(int(x) for x in di.attrib["Dimensions"].split())
    assert di.attrib["Format"] == fmt, di.attrib["Format"]
    text = di.text.strip()
    if fmt == "XML":
        toks = text.split()
        a = np.array([float(x) if dt.kind == "f" else int(x) for x in toks], dtype=object)
        a = a.astype(dt) if dt.kind != "f" else np.array([float(x) for x in toks], dtype=dt)
    elif fmt == "Binary":
        a = np.fromfile(os.path.join(os.path.dirname(path), text), dt)
    else:
        fn, key = text.split(":")
        with h5py.File(os.path.join(os.path.dirname(path), fn), "r") as f:
            a = f[key][()]
            a = a.astype(a.dtype.newbyteorder("="))  # HDF5 files say which byte order they use
        assert a.dtype == dt and a.shape == dims, (a.dtype, a.shape, dt, dims)
    assert a.size == int(np.prod(dims, dtype=int)), (a.size, dims)
    return a.reshape(dims)


def topology(el, path, fmt):
    a = item(el, path, fmt)
    tt = el.attrib["TopologyType"]
    ne = int(el.attrib["NumberOfElements"])
    if tt != "Mixed":
        t = TNAME[tt]
        assert a.shape == (ne, NN[t])
        return [(t, a)]
    assert a.dtype.kind in "iu"
    cells, i, cnt = [], 0, 0
    while i < len(a):
        t = IDX[int(a[i])]
        i += 1
        if t in ("vertex", "line"):
            assert a[i] == NN[t]
            i += 1
        c = a[i:i + NN[t]].astype("i8").tolist()
        assert len(c) == NN[t]
        i += NN[t]
        cnt += 1
        if cells and cells[-1][0] == t:
            cells[-1][1].append(c)
        else:
            cells.append((t, [c]))
    assert cnt == ne
    return [(t, np.array(c)) for t, c in cells]


def split(raw, cells):
    cs = np.cumsum([len(c) for _, c in cells])
    assert all(len(v) == (cs[-1] if len(cs) else 0) for v in raw.values()), "cell data length"
    return {k: np.split(v, cs[:-1]) for k, v in raw.items()}


def parse_grid_mesh(g, path, fmt):
    (geo,) = g.findall("Geometry")
    pts = item(geo, path, fmt)
    assert geo.attrib["GeometryType"] == {2: "XY", 3: "XYZ"}[pts.shape[1]]
    cells = []
    for t in g.findall("Topology"):
        cells += topology(t, path, fmt)
    return pts, cells


ATYPE = {(): "Scalar", (1,): "Scalar", (2,): "Vector", (3,): "Vector", (9,): "Tensor", (3, 3): "Tensor", (6,): "Tensor6",
         (2, 2): "Matrix"}


def parse_attrs(g, path, fmt):
    pd, cr = {}, {}
    for a in g.findall("Attribute"):
        d = {"Node": pd, "Cell": cr}[a.attrib["Center"]]
        x = item(a, path, fmt)
        assert a.attrib["AttributeType"] == ATYPE[x.shape[1:]], (a.attrib["AttributeType"], x.shape)
        assert a.attrib["Name"] not in d
        d[a.attrib["Name"]] = x
    return pd, cr


def parse_xdmf(path, fmt="HDF"):
    root = ET.parse(path).getroot()
    assert root.tag == "Xdmf" and root.attrib["Version"] == "3.0"
    (dom,) = root
    (g,) = dom
    pts, cells = parse_grid_mesh(g, path, fmt)
    pd, cr = parse_attrs(g, path, fmt)
    return {"points": pts, "cells": cells, "point_data": pd, "cell_data": split(cr, cells), "field_data": {},
            "point_sets": {}, "cell_sets": {}}


def parse_hmf(path):
    import h5py

    with h5py.File(path, "r") as f:
        assert f.attrs["type"] == "hmf" and list(f) == ["domain"] and list(f["domain"]) == ["grid"]
        g = f["domain/grid"]
        pts = g["Geometry"][()]
        assert g["Geometry"].attrs["GeometryType"] == "XYZ"[: pts.shape[1]]
        n = sum(k.startswith("Topology") for k in g)
        cells = [(TNAME[g[f"Topology{i}"].attrs["TopologyType"]], g[f"Topology{i}"][()]) for i in range(n)]
        pd = {k: v[()] for k, v in g["NodeAttributes"].items()}
        cr = {k: v[()] for k, v in g["CellAttributes"].items()}
    return {"points": pts, "cells": cells, "point_data": pd, "cell_data": split(cr, cells), "field_data": {},
            "point_sets": {}, "cell_sets": {}}


XT = tuple(t for t in IDX.values() if NN[t] <= 64) + ("triangle", "tetra", "line", "vertex")
XDATA = Data(dtypes=("f8", "f8", "f4", "i8", "i4", "u8", "u4", "i1", "i2", "u1", "u2"),
             shapes=((), (), (1,), (2,), (3,), (6,), (9,), (3, 3), (2, 2)), modes=("int", "unit", "wide", "special", "nan"),
             names=("a", "u", "temp", "B2", "vel x", "Z", "p&q", "a<b", "x>y", "ünï", "n-1", 'q"r"', "[/b]", "k[0]"), chars=chars("", " "))
XDOM = Dom(types=XT, dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u8", "u4", "i2", "u2", "i1", "u1"),
           pd=XDATA, cd=XDATA, large=(150, 1200))


def xexp(p):
    return merge_adjacent(p) if len(p["cells"]) > 1 else p


for _id, _kw, _q in (("hdf", {}, 500), ("hdf-nocomp", {"compression": None}, 250), ("hdf-lzf", {"compression": "lzf", "compression_opts": None}, 120),
                     ("hdf-gz9", {"compression_opts": 9}, 120),
                     ("xml", {"data_format": "XML"}, 800), ("bin", {"data_format": "Binary"}, 500)):
    add(Variant(id=f"xdmf-{_id}", group="xdmf", fmt="xdmf", ext=".xdmf", kwargs=_kw, dom=XDOM, expect=xexp,
                cmp=Cmp(pdtype="exact", ddtype="exact"),
                parse=(lambda path, f=_kw.get("data_format", "HDF"): parse_xdmf(path, f)), quick=_q))
add(Variant(id="xdmf-xmf", group="xdmf", fmt="xdmf", ext=".xmf", dom=XDOM, expect=xexp, cmp=Cmp(pdtype="exact", ddtype="exact"), quick=60))
from dataclasses import replace as _rep  # noqa: E402

_hn = _rep(XDATA, names=tuple(n for n in XDATA.names if "/" not in n), chars=chars("/", " "), avoid=r"^\.+$")  # HDF5 object names
_hd = _rep(XDOM, pd=_hn, cd=_hn, max_blocks=12, max_cells=3, max_extra=4, dims=(3, 2, 1))
for _id, _kw, _q in (("hmf", {}, 500), ("hmf-nocomp", {"compression": None}, 250)):
    add(Variant(id=_id, group="xdmf", fmt="hmf", ext=".hmf", kwargs=_kw, dom=_hd, cmp=Cmp(pdtype="exact", ddtype="exact"),
                parse=parse_hmf, quick=_q))
