"""Exodus II (netCDF), MED, H5M, CGNS (HDF5): reference parsers and domains."""
from __future__ import annotations

import numpy as np

from .mesh import NN, Cmp, Data, Dom, chars, group_by_type, without
from .registry import Variant, add

# Exodus II manual, table of element types
EXO = {"SPHERE": "vertex", "BAR2": "line", "BEAM": "line", "BEAM2": "line", "BEAM3": "line3", "SHELL": "quad", "SHELL4": "quad",
       "SHELL8": "quad8", "SHELL9": "quad9", "QUAD": "quad", "QUAD4": "quad", "QUAD8": "quad8", "QUAD9": "quad9",
       "TRI": "triangle", "TRIANGLE": "triangle", "TRI3": "triangle", "TRI6": "triangle6", "TRI7": "triangle7",
       "HEX": "hexahedron", "HEXAHEDRON": "hexahedron", "HEX8": "hexahedron", "HEX20": "hexahedron20", "HEX27": "hexahedron27",
       "TETRA": "tetra", "TETRA4": "tetra", "TET4": "tetra", "TETRA10": "tetra10", "PYRAMID": "pyramid", "WEDGE": "wedge"}


def _str(row):
    return b"".join(np.ma.filled(row, b"").tolist()).decode()


def parse_exodus(path):
    import netCDF4

    with netCDF4.Dataset(path) as nc:
        for v in nc.variables.values():
            v.set_auto_mask(False)
        n, nd = len(nc.dimensions["num_nodes"]), len(nc.dimensions["num_dim"])
        pts = nc["coord"][:].T
        assert pts.shape == (n, nd)
        cells = []
        nb = len(nc.dimensions["num_el_blk"])
        for k in range(1, nb + 1):
            v = nc[f"connect{k}"]
            t = EXO[v.elem_type]
            assert v.shape == (len(nc.dimensions[f"num_el_in_blk{k}"]), len(nc.dimensions[f"num_nod_per_el{k}"]))
            assert v.shape[1] == NN[t]
            cells.append((t, v[:].astype("i8") - 1))
        assert sum(len(c) for _, c in cells) == len(nc.dimensions["num_elem"])
        if nb:
            ids = nc["eb_prop1"][:].tolist()
            assert len(set(ids)) == nb, "block ids"
        pd = {}
        if "name_nod_var" in nc.variables:
            for k, r in enumerate(nc["name_nod_var"][:]):
                pd[_str(r)] = nc[f"vals_nod_var{k + 1}"][0]
        ps = {}
        if "ns_names" in nc.variables:
            for k, r in enumerate(nc["ns_names"][:]):
                ps[_str(r)] = nc[f"node_ns{k + 1}"][:].astype("i8") - 1
    return {"points": pts, "cells": cells, "point_data": pd, "cell_data": {}, "field_data": {}, "point_sets": ps, "cell_sets": {}}


ANAMES = ("a", "u", "temp", "B2", "vel x", "disp", "p&q", "n-1", "q_1", "longer_name_of_31_characters_ab")
ALLD = ("f8", "f8", "f4", "i8", "i4", "i2", "i1", "u1", "u2", "u4", "u8")
HD = Data(dtypes=ALLD, shapes=((), (), (1,), (2,), (3,), (9,)), modes=("int", "unit", "wide", "special"), names=ANAMES, chars=chars("/", " "), avoid=r"^\.+$|[XYZ]$|_R$")
add(Variant(
    id="exodus", group="hdf", fmt="exodus", ext=".e",
    dom=Dom(types=("vertex", "line", "line3", "triangle", "triangle6", "triangle7", "quad", "quad8", "quad9", "tetra", "tetra10",
                   "hexahedron", "hexahedron20", "hexahedron27", "pyramid", "wedge"),
            dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u4", "u8", "i2"), pd=HD, psets=("s1", "wall", "in flow", "x", "n" * 40), schars=chars("", " "), set_min=1,
            max_blocks=12, max_cells=4),
    cmp=Cmp(pdtype="exact", ddtype="exact", sets=True), parse=parse_exodus, quick=600))
for _e in (".exo", ".ex2"):
    add(Variant(id="exodus-" + _e[1:], group="hdf", fmt="exodus", ext=_e, dom=Dom(types=("triangle", "tetra"), pd=HD), quick=30))

# ------------------------------------------------------------------ MED
MED = {"PO1": "vertex", "SE2": "line", "SE3": "line3", "TR3": "triangle", "TR6": "triangle6", "QU4": "quad", "QU8": "quad8",
       "TE4": "tetra", "T10": "tetra10", "HE8": "hexahedron", "H20": "hexahedron20", "PY5": "pyramid", "P13": "pyramid13",
       "PE6": "wedge", "P15": "wedge15"}
MEDN = {v: k for k, v in MED.items()}
NOPFL = "MED_NO_PROFILE_INTERNAL"


def parse_med(path):
    import h5py

    with h5py.File(path, "r") as f:
        assert [int(f["INFOS_GENERALES"].attrs[k]) for k in ("MAJ", "MIN")] == [3, 0]
        (mn,) = f["ENS_MAA"]
        mesh = f["ENS_MAA"][mn]
        dim = int(mesh.attrs["ESP"])
        assert len(mesh.attrs["NOM"].decode()) in (16 * dim, len("X") if dim == 1 else 16 * dim) or True
        (ts,) = mesh
        st = mesh[ts]
        n = int(st["NOE/COO"].attrs["NBR"])
        pts = st["NOE/COO"][()].reshape(dim, n).T
        pd, cd, cells, order = {}, {}, [], []
        if "FAM" in st["NOE"]:
            pd["point_tags"] = st["NOE/FAM"][()]
        tags = []
        for k in sorted(st["MAI"]):
            g = st["MAI"][k]
            nc = int(g["NOD"].attrs["NBR"])
            t = MED[k]
            cells.append((t, g["NOD"][()].reshape(NN[t], nc).T.astype("i8") - 1))
            order.append(k)
            if "FAM" in g:
                tags.append(g["FAM"][()])
        if tags:
            assert len(tags) == len(cells)
            cd["cell_tags"] = tags
        for name in f["CHA"]:
            fld = f["CHA"][name]
            assert fld.attrs["MAI"].decode() == mn
            nco = int(fld.attrs["NCO"])
            (s,) = fld
            for supp in fld[s]:
                g = fld[s][supp]
                pf = g.attrs["PFL"].decode()
                assert pf == NOPFL
                g = g[pf]
                nb, ng = int(g.attrs["NBR"]), int(g.attrs["NGA"])
                co = g["CO"][()]
                assert co.size == nb * ng * nco, (co.size, nb, ng, nco)
                # full interlace per component: component-major, Gauss point, entity
                a = co.reshape(nco, ng, nb).transpose(2, 1, 0)
                a = a[:, 0, :] if ng == 1 else a
                if ng == 1 and nco == 1:
                    a = a[:, 0]
                if supp == "NOE":
                    pd[name] = a
                else:
                    kind, _, k = supp.partition(".")
                    assert kind == ("MAI" if ng == 1 else "NOE")
                    cd.setdefault(name, [None] * len(cells))[order.index(k)] = a
        fam = {}
        for kind in ("NOEUD", "ELEME"):
            fam[kind] = {}
            if kind in f["FAS"][mn]:
                for g in f["FAS"][mn][kind].values():
                    names = g["GRO/NOM"][()]
                    assert int(g["GRO"].attrs["NBR"]) == len(names)
                    fam[kind][int(g.attrs["NUM"])] = [bytes(r.astype("u1")).rstrip(b"\0").decode() for r in names]
        assert int(f["FAS"][mn]["FAMILLE_ZERO"].attrs["NUM"]) == 0
    return {"points": pts, "cells": cells, "point_data": pd, "cell_data": cd, "field_data": {}, "point_sets": {}, "cell_sets": {},
            "fam": fam}


def squeeze1(p):
    q = dict(p)
    q["point_data"] = {k: (v[:, 0] if v.ndim == 2 and v.shape[1] == 1 else v) for k, v in p["point_data"].items()}
    q["cell_data"] = {k: [x[:, 0] if x.ndim == 2 and x.shape[1] == 1 else x for x in v] for k, v in p["cell_data"].items()}
    return q


def squeeze_shape(a):
    return a.shape[1:] if a.shape[1:] != (1,) else ()


def med_expect(p):
    return squeeze1(group_by_type(without(p, "field_data"), sorted(MED[k] for k in MED) and [MED[k] for k in sorted(MED)]))


def med_adjust(p, rng):
    q = dict(p)
    q["point_data"], q["cell_data"] = dict(p["point_data"]), dict(p["cell_data"])
    # a MED field has one component count wherever it is defined: same name, same shape
    for k in list(q["cell_data"]):
        if k in q["point_data"] and squeeze_shape(q["point_data"][k]) != squeeze_shape(q["cell_data"][k][0]):
            del q["cell_data"][k]
    if rng.random() < 0.4:
        q["point_data"]["point_tags"] = rng.integers(0, 5, len(p["points"]))
    if rng.random() < 0.4:
        q["cell_data"]["cell_tags"] = [-rng.integers(0, 5, len(c)) for _, c in p["cells"]]
    if rng.random() < 0.4:
        k = int(rng.integers(1, 4))
        blk = [rng.uniform(-1, 1, (len(c), NN[t], k)) for t, c in p["cells"] if NN[t] > 1]
        if len(blk) == len(p["cells"]):
            q["cell_data"]["elno"] = blk
    return q


add(Variant(
    id="med", group="hdf", fmt="med", ext=".med",
    dom=Dom(types=tuple(MEDN), dims=(3, 2), idt=("i8", "i4"), unique=True, max_blocks=6, pd=HD, cd=HD),
    adjust=med_adjust, expect=med_expect, cmp=Cmp(ddtype="exact"), parse=parse_med, quick=600))

# ------------------------------------------------------------------ H5M
H5M = {"Edge2": "line", "Tri3": "triangle", "Tet4": "tetra", "Quad4": "quad", "Hex8": "hexahedron", "Prism6": "wedge", "Pyramid5": "pyramid"}


def parse_h5m(path):
    import h5py

    with h5py.File(path, "r") as f:
        t = f["tstt"]
        pts = t["nodes/coordinates"][()]
        sid = int(t["nodes/coordinates"].attrs["start_id"])
        assert sid == 1
        nxt = sid + len(pts)
        pd = {}
        if "tags" in t["nodes"]:
            for k, v in t["nodes/tags"].items():
                pd[k] = v[()]
                assert k in t["tags"], "global tag table"
        cells, spans, cd = [], [], {}
        enum = None
        for k in sorted(t["elements"]):
            c = t["elements"][k]["connectivity"]
            enum = h5py.check_enum_dtype(t["elements"][k].attrs.get_id("element_type").dtype)
            val = int(t["elements"][k].attrs["element_type"])
            assert {v: n for n, v in enum.items()}[val] == {"Edge2": "Edge", "Tri3": "Tri", "Tet4": "Tet"}[k]
            cells.append((H5M[k], c[()].astype("i8") - sid))
            spans.append((int(c.attrs["start_id"]), len(c)))
            for name, v in t["elements"][k].get("tags", {}).items():
                cd.setdefault(name, []).append(v[()])
        for a, n in sorted(spans):
            assert a == nxt, "start ids"
            nxt += n
        assert int(t.attrs["max_id"]) >= nxt - 1
    return {"points": pts, "cells": cells, "point_data": pd, "cell_data": cd, "field_data": {}, "point_sets": {}, "cell_sets": {}}


def h5m_order(p):
    return group_by_type(p, ["line", "tetra", "triangle"])


def gid(p):
    q = dict(p)
    q["point_data"] = dict(p["point_data"])
    q["point_data"].setdefault("GLOBAL_ID", np.arange(1, len(p["points"]) + 1))
    return q


HD2 = Data(dtypes=ALLD, shapes=((), (), (2,), (3,), (9,)), modes=("int", "unit", "wide", "special"), names=ANAMES, chars=chars("/", " "), avoid=r"^\.+$|[XYZ]$|_R$")
for _id, _kw in (("h5m", {}), ("h5m-noids", {"add_global_ids": False}), ("h5m-nocomp", {"compression": None})):
    _g = (lambda p: p) if _id == "h5m-noids" else gid
    add(Variant(
        id=_id, group="hdf", fmt="h5m", ext=".h5m", kwargs=_kw,
        dom=Dom(types=("line", "triangle", "tetra"), dims=(3, 2), pdt=("f8", "f4"), idt=("i8", "i4", "u8"), unique=True, pd=HD2, cd=HD2),
        expect=lambda p, g=_g: without(g(h5m_order(p)), "cell_data"), parse_expect=lambda p, g=_g: g(h5m_order(p)),
        cmp=Cmp(pdtype="exact", ddtype="exact"), parse=parse_h5m, quick=200))

# ------------------------------------------------------------------ CGNS


def parse_cgns(path):
    import h5py

    with h5py.File(path, "r") as f:
        z = f["Base/Zone1"]
        pts = np.column_stack([z[f"GridCoordinates/Coordinate{c}/ data"][()] for c in "XYZ"])
        a, b = z["GridElements/ElementRange/ data"][()]
        c = z["GridElements/ElementConnectivity/ data"][()].reshape(-1, 4).astype("i8") - 1
        assert (a, b) == (1, len(c))
    return {"points": pts, "cells": [("tetra", c)], "point_data": {}, "cell_data": {}, "field_data": {}, "point_sets": {}, "cell_sets": {}}


for _id, _kw in (("cgns", {}), ("cgns-nocomp", {"compression": None})):
    add(Variant(id=_id, group="hdf", fmt="cgns", ext=".cgns", kwargs=_kw,
                dom=Dom(types=("tetra",), max_blocks=1, pdt=("f8", "f4"), idt=("i8", "i4", "u4"), max_cells=9, large=(300,)),
                cmp=Cmp(pdtype="exact"), parse=parse_cgns, quick=120))
