"""VTK legacy and VTU: domains, expectations, reference parser."""
from __future__ import annotations

import base64
import lzma
import re
import xml.etree.ElementTree as ET
import zlib

import numpy as np

from .mesh import NN, Cmp, Data, Dom, chars, merge_adjacent, pad3, without
from .registry import Variant, add

VTK_TYPES = {
    1: "vertex", 3: "line", 5: "triangle", 7: "polygon", 9: "quad", 10: "tetra",
    12: "hexahedron", 13: "wedge", 14: "pyramid", 21: "line3", 22: "triangle6",
    23: "quad8", 24: "tetra10", 25: "hexahedron20", 26: "wedge15", 27: "pyramid13",
    28: "quad9", 29: "hexahedron27", 32: "wedge18", 33: "hexahedron24", 35: "line4",
    68: "VTK_LAGRANGE_CURVE", 69: "VTK_LAGRANGE_TRIANGLE", 70: "VTK_LAGRANGE_QUADRILATERAL",
    71: "VTK_LAGRANGE_TETRAHEDRON", 72: "VTK_LAGRANGE_HEXAHEDRON", 73: "VTK_LAGRANGE_WEDGE",
    74: "VTK_LAGRANGE_PYRAMID",
}
VTK_NUM = {v: k for k, v in VTK_TYPES.items()}
# vtkWedge has its first triangle's normal pointing outwards
WEDGE = [0, 2, 1, 3, 5, 4]

DT = {
    "unsigned_char": "u1", "char": "i1", "unsigned_short": "u2", "short": "i2",
    "unsigned_int": "u4", "int": "i4", "unsigned_long": "u8", "long": "i8",
    "float": "f4", "double": "f8", "vtktypeint64": "i8",
    "vtktypeint8": "i1", "vtktypeint16": "i2", "vtktypeint32": "i4", "vtktypeuint8": "u1", "vtktypeuint16": "u2",
    "vtktypeuint32": "u4", "vtktypeuint64": "u8",
}


class Cursor:
    def __init__(self, buf):
        self.b = buf
        self.p = 0

    def line(self):
        e = self.b.find(b"\n", self.p)
        if e < 0:
            e = len(self.b)
        s = self.b[self.p:e]
        self.p = e + 1
        return s.decode()

    def eof(self):
        return self.p >= len(self.b)

    def skip_blank(self):
        while self.p < len(self.b) and self.b[self.p:self.p + 1] in b" \n\r\t":
            self.p += 1

    def array(self, n, dt, ascii_):
        if ascii_:
            out = []
            for _ in range(n):
                self.skip_blank()
                m = re.compile(rb"\S+").match(self.b, self.p)
                out.append(m.group())
                self.p = m.end()
            conv = float if np.dtype(dt).kind == "f" else int
            a = np.array([conv(x) for x in out], dtype=dt)
            # consume the rest of the line
            e = self.b.find(b"\n", self.p)
            e = len(self.b) - 1 if e < 0 else e
            assert self.b[self.p:e].strip() == b"", "trailing tokens"
            self.p = e + 1
            return a
        d = np.dtype(dt).newbyteorder(">")
        a = np.frombuffer(self.b, d, n, self.p)
        self.p += n * d.itemsize
        assert self.b[self.p:self.p + 1] == b"\n", "binary section not followed by newline"
        self.p += 1
        return a.astype(dt)


def cells_to_blocks(types, conns, cell_data):
    """per-cell lists -> blocks of equal (type, width)."""
    blocks = []
    for i, (t, c) in enumerate(zip(types, conns)):
        if t == "wedge":
            c = [c[j] for j in WEDGE]
        if blocks and blocks[-1][0] == t and len(blocks[-1][1][0]) == len(c):
            blocks[-1][1].append(c)
            blocks[-1][2].append(i)
        else:
            blocks.append((t, [c], [i]))
    cells = [(t, np.array(d)) for t, d, _ in blocks]
    cd = {k: [v[ix] for _, _, ix in blocks] for k, v in cell_data.items()}
    return cells, cd


def parse_vtk(path, want_version=None, want_mode=None):
    c = Cursor(open(path, "rb").read())
    m = re.fullmatch(r"# vtk DataFile Version (\d\.\d)", c.line().strip())
    version = m.group(1)
    title = c.line()
    assert len(title) <= 255
    mode = c.line().strip()
    assert mode in ("ASCII", "BINARY")
    if want_version:
        assert version == want_version, f"file version {version}"
    if want_mode:
        assert mode == want_mode, mode
    asc = mode == "ASCII"
    assert c.line().split() == ["DATASET", "UNSTRUCTURED_GRID"]
    k, n, dt = c.line().split()
    assert k == "POINTS"
    n = int(n)
    points = c.array(3 * n, DT[dt], asc).reshape(n, 3)
    w = c.line().split()
    assert w[0] == "CELLS"
    conns = []
    if version == "5.1":
        noff, nconn = int(w[1]), int(w[2])
        k, dt = c.line().split()
        assert k == "OFFSETS"
        off = c.array(noff, DT[dt], asc)
        k, dt = c.line().split()
        assert k == "CONNECTIVITY"
        flat = c.array(nconn, DT[dt], asc)
        if asc:
            c.skip_blank()
        assert off[0] == 0 and off[-1] == nconn
        conns = [flat[a:b].tolist() for a, b in zip(off[:-1], off[1:])]
        ncells = noff - 1
    else:
        ncells, size = int(w[1]), int(w[2])
        flat = c.array(size, "i4", asc)
        i = 0
        while i < size:
            conns.append(flat[i + 1:i + 1 + flat[i]].tolist())
            i += 1 + flat[i]
        assert len(conns) == ncells and i == size
        if asc:
            c.skip_blank()
    k, nt = c.line().split()
    assert k == "CELL_TYPES" and int(nt) == ncells, (k, nt, ncells)
    types = [VTK_TYPES[int(t)] for t in c.array(ncells, "i4", asc)]
    for t, d in zip(types, conns):
        if t in NN:
            assert len(d) == NN[t], (t, d)
        assert all(0 <= x < n for x in d)
    if asc:
        c.skip_blank()
    data = {"POINT_DATA": {}, "CELL_DATA": {}}
    while not c.eof():
        line = c.line().strip()
        if not line:
            continue
        k, cnt = line.split()
        cnt = int(cnt)
        assert cnt == (n if k == "POINT_DATA" else ncells)
        w = c.line().split()
        assert w[0] == "FIELD"
        for _ in range(int(w[2])):
            name, ncomp, nt, dt = c.line().split()
            ncomp = int(ncomp)
            assert int(nt) == cnt
            a = c.array(ncomp * cnt, DT[dt], asc)
            data[k][name] = a if ncomp == 1 else a.reshape(cnt, ncomp)
    cells, cd = cells_to_blocks(types, conns, data["CELL_DATA"])
    return {"points": points, "cells": cells, "point_data": data["POINT_DATA"], "cell_data": cd,
            "field_data": {}, "point_sets": {}, "cell_sets": {}}


FIXED = ("vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid",
         "line3", "triangle6", "quad8", "tetra10", "hexahedron20", "wedge15", "pyramid13",
         "quad9", "hexahedron27", "wedge18", "hexahedron24", "line4")
LAG = tuple(t for t in VTK_NUM if t.startswith("VTK_"))

ALLDT = ("f8", "f4", "i4", "i8", "u1", "i1", "u2", "i2", "u4", "u8")
VDATA = Data(dtypes=ALLDT, shapes=((), (), (3,), (1,), (2,), (4,), (9,)),
             modes=("int", "unit", "wide", "special", "nan"))


def vtk_expect(p):
    q = merge_adjacent(pad3(p))

    def vec(a):
        if a.ndim == 2 and a.shape[1] == 2:
            return np.column_stack([a, np.zeros_like(a[:, 0])])
        if a.ndim == 2 and a.shape[1] == 1:
            return a[:, 0]
        return a

    q["point_data"] = {k: vec(v) for k, v in q["point_data"].items()}
    q["cell_data"] = {k: [vec(x) for x in v] for k, v in q["cell_data"].items()}
    return q


def _vtk_dom(types):
    return Dom(types=types, dims=(3, 3, 2), pdt=("f8", "f8", "f4", "i4", "i8", "u1", ">f8"),
               pmodes=("int", "unit", "wide", "special", "nan"),
               idt=("i8", "i4", "u8", "i2", "u1"), pd=VDATA, cd=VDATA, max_blocks=5,
               large=(300, 2500))


for _ver, _wf, _types in (("4.2", "vtk42", FIXED + ("polygon",)), ("5.1", "vtk", FIXED + ("polygon",) + LAG)):
    for _bin in (True, False):
        add(Variant(
            id=f"{_wf}-{'bin' if _bin else 'asc'}", group="vtk", fmt="vtk", write_format=_wf, ext=".vtk",
            kwargs={"binary": _bin}, dom=_vtk_dom(_types), expect=vtk_expect,
            cmp=Cmp(pdtype="exact", ddtype="exact"),
            parse=(lambda path, v=_ver, b=_bin: parse_vtk(path, v, "BINARY" if b else "ASCII")),
            quick=1500))


# ------------------------------------------------------------------------- VTU
VT = {"Float32": "f4", "Float64": "f8", "Int8": "i1", "Int16": "i2", "Int32": "i4", "Int64": "i8",
      "UInt8": "u1", "UInt16": "u2", "UInt32": "u4", "UInt64": "u8"}


def _vtu_array(root, da, appended=None):
    bo = "<" if root.attrib.get("byte_order", "LittleEndian") == "LittleEndian" else ">"
    dt = np.dtype(bo + VT[da.attrib["type"]])
    if da.attrib["format"] == "ascii":
        conv = float if dt.kind == "f" else int
        a = np.array([conv(x) for x in (da.text or "").split()], dtype=dt.newbyteorder("="))
    else:
        ht = np.dtype(bo + VT[root.attrib.get("header_type", "UInt32")])
        text = da.text.strip()
        comp = root.attrib.get("compressor")
        if comp is None:
            raw = base64.b64decode(text, validate=True)
            n = int(np.frombuffer(raw[:ht.itemsize], ht)[0])
            assert n == len(raw) - ht.itemsize, "byte count header"
            body = raw[ht.itemsize:]
        else:
            dec = {"vtkZLibDataCompressor": zlib, "vtkLZMADataCompressor": lzma}[comp].decompress
            nb = int(np.frombuffer(base64.b64decode(text[: -(-ht.itemsize // 3) * 4])[: ht.itemsize], ht)[0])
            hl = (3 + nb) * ht.itemsize
            hc = -(-hl // 3) * 4
            head = np.frombuffer(base64.b64decode(text[:hc], validate=True)[:hl], ht)
            raw = base64.b64decode(text[hc:], validate=True)
            sizes = [int(x) for x in head[3:]]
            assert sum(sizes) == len(raw), "compressed block sizes"
            parts, o = [], 0
            for i, s in enumerate(sizes):
                blk = dec(raw[o:o + s])
                o += s
                want = int(head[1]) if i < nb - 1 else int(head[2])
                if i == nb - 1 and want == 0:
                    want = int(head[1])
                assert len(blk) == want, f"uncompressed size of block {i}: {len(blk)} vs header {want}"
                parts.append(blk)
            body = b"".join(parts)
        a = np.frombuffer(body, dt).astype(dt.newbyteorder("="))
    nc = da.attrib.get("NumberOfComponents")
    return a if nc is None else a.reshape(-1, int(nc))


def parse_vtu(path, binary=None, compression="any"):
    root = ET.parse(path).getroot()
    assert root.tag == "VTKFile" and root.attrib["type"] == "UnstructuredGrid"
    (grid,) = root.findall("UnstructuredGrid")
    (piece,) = grid.findall("Piece")
    if compression != "any":
        want = {"zlib": "vtkZLibDataCompressor", "lzma": "vtkLZMADataCompressor", None: None}[compression if binary else None]
        assert root.attrib.get("compressor") == want, root.attrib.get("compressor")
    if binary is not None:
        for da in root.iter("DataArray"):
            assert da.attrib["format"] == ("binary" if binary else "ascii")
    n, nc = int(piece.attrib["NumberOfPoints"]), int(piece.attrib["NumberOfCells"])
    (pa,) = piece.find("Points").findall("DataArray")
    points = _vtu_array(root, pa)
    assert points.shape == (n, 3)
    cd = {d.attrib["Name"]: _vtu_array(root, d) for d in piece.find("Cells")}
    off, types, flat = cd["offsets"].ravel(), cd["types"].ravel(), cd["connectivity"].ravel()
    assert len(off) == len(types) == nc and (nc == 0 or off[-1] == len(flat))
    data = {}
    for tag, cnt in (("PointData", n), ("CellData", nc)):
        el = piece.find(tag)
        data[tag] = {d.attrib["Name"]: _vtu_array(root, d) for d in (el if el is not None else [])}
        for v in data[tag].values():
            assert len(v) == cnt
    starts = np.concatenate([[0], off[:-1]])
    conns = [flat[a:b].tolist() for a, b in zip(starts, off)]
    if np.any(types == 42):
        assert np.all(types == 42)
        faces, fo = cd["faces"].ravel().tolist(), cd["faceoffsets"].ravel().tolist()
        cells = []
        pos = 0
        for i in range(nc):
            nf = faces[pos]
            pos += 1
            fs = []
            for _ in range(nf):
                k = faces[pos]
                fs.append(faces[pos + 1:pos + 1 + k])
                pos += 1 + k
            assert pos == fo[i], "faceoffsets"
            nodes = sorted({x for f in fs for x in f})
            assert sorted(conns[i]) == nodes, "polyhedron connectivity"
            cells.append((f"polyhedron{len(nodes)}", fs))
        order = []
        for t, _ in cells:
            if t not in order:
                order.append(t)
        idx = [[i for i, (t, _) in enumerate(cells) if t == o] for o in order]
        blocks = [(o, [cells[i][1] for i in ix]) for o, ix in zip(order, idx)]
        cdat = {k: [v[ix] for ix in idx] for k, v in data["CellData"].items()}
    else:
        tn = [VTK_TYPES[int(t)] for t in types]
        for t, d in zip(tn, conns):
            assert t not in NN or len(d) == NN[t]
            assert all(0 <= x < n for x in d)
        blocks, cdat = cells_to_blocks(tn, conns, data["CellData"])
    return {"points": points, "cells": blocks, "point_data": data["PointData"], "cell_data": cdat,
            "field_data": {}, "point_sets": {}, "cell_sets": {}}


VTUDATA = Data(dtypes=ALLDT, shapes=((), (), (3,), (1,), (2,), (4,), (9,)),
               modes=("int", "unit", "wide", "special", "nan"),
               names=("a", "u", "temp", "B2", "vel x", "Z", "p&q", "a<b", 'q"r"', "x>y", "ünï", "name2", "-", "x[1]", "[/b]"), chars=chars())


def vtu_expect(p):
    if p["cells"] and p["cells"][0][0].startswith("polyhedron"):
        q = pad3(p)
        order = []
        for t, _ in p["cells"]:
            if t not in order:
                order.append(t)
        ix = [[i for i, (t, _) in enumerate(p["cells"]) if t == o] for o in order]
        q["cells"] = [(o, [c for i in g for c in p["cells"][i][1]]) for o, g in zip(order, ix)]
        q["cell_data"] = {k: [np.concatenate([v[i] for i in g]) for g in ix] for k, v in p["cell_data"].items()}
        return q
    return merge_adjacent(pad3(p))


def polyhedra(p, rng=None):
    """Turn the generated blocks (read as node lists) into polyhedron blocks."""
    q = dict(p)
    cells = []
    for t, d in p["cells"]:
        k = d.shape[1]
        blk = []
        for row in d.tolist():
            m = 3 + (row[0] % 2) * (k > 3)
            blk.append([[row[(i + j) % k] for j in range(m)] for i in range(k)])
        cells.append((f"polyhedron{k}", blk))
    q["cells"] = cells
    return q


_vd = _vtk_dom(FIXED + ("polygon",) + LAG)
_vd.pd = _vd.cd = VTUDATA
for _name, _kw, _q in (
    ("zlib", {"compression": "zlib"}, 900), ("lzma", {"compression": "lzma"}, 300),
    ("raw", {"compression": None}, 900), ("ascii", {"binary": False}, 600),
    ("zlib64", {"compression": "zlib", "header_type": "UInt64"}, 400),
    ("lzma64", {"compression": "lzma", "header_type": "UInt64"}, 200),
    ("raw64", {"compression": None, "header_type": "UInt64"}, 400),
    ("default", {}, 300),
):
    _tol = 1e-11 if _name == "ascii" else 0.0
    _b, _c = _kw.get("binary", True), _kw.get("compression", "zlib")
    add(Variant(
        id=f"vtu-{_name}", group="vtk", fmt="vtu", ext=".vtu", kwargs=_kw, dom=_vd, expect=vtu_expect,
        cmp=Cmp(rtol=_tol, drtol=_tol, pdtype="exact", ddtype="exact"),
        parse=(lambda path, b=_b, c=_c: parse_vtu(path, b, c)), quick=_q))
for _name, _kw in (("zlib", {}), ("raw", {"compression": None}), ("ascii", {"binary": False})):
    _tol = 1e-11 if _name == "ascii" else 0.0
    add(Variant(
        id=f"vtu-poly-{_name}", group="vtk", fmt="vtu", ext=".vtu", kwargs=_kw,
        dom=Dom(types=("tetra", "pyramid", "wedge", "hexahedron"), dims=(3, 2), pd=VTUDATA, cd=VTUDATA, idt=("i8",)),
        adjust=polyhedra, expect=vtu_expect, cmp=Cmp(rtol=_tol, drtol=_tol, pdtype="exact", ddtype="exact"),
        parse=parse_vtu, quick=300))
