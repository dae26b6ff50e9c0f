"""Valid VTK legacy / VTU files as other producers write them, plus the mesh they describe."""
from __future__ import annotations

import base64
import lzma
import sys
import zlib
from xml.sax.saxutils import quoteattr

import numpy as np
from hypothesis import strategies as st

from .fmt_vtk import ALLDT, DT, FIXED, LAG, VTK_NUM, WEDGE
from .mesh import Cmp, Data, Dom, build, merge_adjacent, recipes

LEG = {"u1": "unsigned_char", "i1": "char", "u2": "unsigned_short", "i2": "short", "u4": "unsigned_int",
       "i4": "int", "u8": "unsigned_long", "i8": "long", "f4": "float", "f8": "double"}
V51 = {"f4": "float", "f8": "double", "i4": "int", "i8": "vtktypeint64", "u1": "vtktypeuint8",
       "u2": "vtktypeuint16", "i1": "vtktypeint8", "i2": "vtktypeint16", "u4": "vtktypeuint32", "u8": "vtktypeuint64"}


def code(a):
    return a.dtype.str[1:]


KEYWORDS = ("ASCII BINARY DATASET UNSTRUCTURED_GRID STRUCTURED_POINTS STRUCTURED_GRID RECTILINEAR_GRID DIMENSIONS ORIGIN SPACING ASPECT_RATIO X_COORDINATES Y_COORDINATES Z_COORDINATES POINTS "
            "CELLS CELL_TYPES POINT_DATA CELL_DATA SCALARS VECTORS TENSORS FIELD LOOKUP_TABLE COLOR_SCALARS").split()


class W:
    """Legacy writer with a style."""

    def __init__(self, style, names):
        self.s = style
        self.out = []
        self.names = names

    def kw(self, text):
        self.raw(text)
        if self.s["blank"] and self.s["ascii"]:
            self.out.append(b"\n")

    def raw(self, text):
        if len(self.out) > 1 and text:
            # keywords may be in any case, white space does not matter
            w = text.split()
            for i in range(2 if w[0] == "DATASET" else 1):
                if self.s["lower"] and w[i] in KEYWORDS:
                    w[i] = w[i].lower() if self.s["lower"] == 1 else w[i].title()
            if self.s["lower"] == 2:
                w[1:] = [x.upper() if x in self.names.values() and w[0].upper() != "DATASET" else x for x in w[1:]]
            text = self.s["hsep"].join(w) + (" " if self.s["trail"] else "")
        self.out.append(text.encode() + b"\n")

    def bytes(self):
        b = b"".join(self.out)
        return b.replace(b"\n", b"\r\n") if self.s["ascii"] and self.s["crlf"] else b

    def arr(self, a, per=None):
        a = np.asarray(a)
        if not self.s["ascii"]:
            self.out.append(a.astype(a.dtype.newbyteorder(">")).tobytes() + b"\n")
            return
        per = self.s["per"]
        if a.dtype.kind == "f":
            fmt = {"r": repr, "e": lambda x: f"{x:.17e}", "E": lambda x: f"{x:.17E}"}[self.s["fl"]]
            toks = [fmt(float(x)) for x in a.ravel()]
        else:
            toks = [str(int(x)) for x in a.ravel()]
        sep = self.s["sep"]
        for i in range(0, len(toks), per):
            self.out.append((sep.join(toks[i:i + per]) + (" " if self.s["trail"] else "")).encode() + b"\n")

    def meta(self):
        if self.s["meta"]:
            self.out.append(b"METADATA\nINFORMATION 1\nNAME L2_NORM_RANGE LOCATION vtkDataArray\nDATA 2 0.25 1.5 \n\n")

    def data(self, kind, n, items):
        if not items:
            return
        self.kw(f"{kind} {n}")
        fields = []

        def colours(k):
            """attributes meshio has no use for"""
            if self.s["colours"] not in (k, 9):
                return
            m = 1 + (n + k) % 4
            v = (np.arange(n * m) * 37 + k) % 256
            self.raw(f"COLOR_SCALARS col{k} {m}")
            self.arr(v / 256.0 if self.s["ascii"] else v.astype("u1"))
            v = (np.arange(4 * (m + 1)) * 53 + n) % 256
            self.raw(f"LOOKUP_TABLE my_table {m + 1}")
            self.arr(v / 256.0 if self.s["ascii"] else v.astype("u1"))

        for j, (name, a) in enumerate(items):
            colours(j)
            how = self.s["how"][j % len(self.s["how"])]
            t = self.names[code(a)]
            if how == "scalars" and a.ndim == 1:
                self.raw(f"SCALARS {name} {t}" + (" 1" if self.s["ncomp"] else ""))
                self.raw("LOOKUP_TABLE " + ("my_table" if self.s["colours"] == 9 else "default"))
                self.arr(a)
                self.meta()
            elif how == "scalars" and a.ndim == 2 and a.shape[1] <= 4 and a.shape[1] > 1:
                self.raw(f"SCALARS {name} {t} {a.shape[1]}")
                self.raw("LOOKUP_TABLE " + ("my_table" if self.s["colours"] == 9 else "default"))
                self.arr(a)
                self.meta()
            elif how == "vectors" and a.ndim == 2 and a.shape[1] == 3:
                self.raw(f"VECTORS {name} {t}")
                self.arr(a)
                self.meta()
            elif how == "vectors" and a.ndim == 3:
                self.raw(f"TENSORS {name} {t}")
                self.arr(a)
                self.meta()
            else:
                fields.append((name, a))
        if fields:
            self.raw(f"FIELD FieldData {len(fields)}")
            for i, (name, a) in enumerate(fields):
                nc = int(np.prod(a.shape[1:]))
                self.raw(f"{name} {nc} {n} {self.names[code(a)]}")
                self.arr(a)
                if self.s["meta"]:
                    self.meta()


@st.composite
def vtk_style(draw, version):
    return {
        "version": version, "ascii": draw(st.booleans()), "lower": draw(st.sampled_from([0, 0, 1, 2])), "hsep": draw(st.sampled_from([" ", " ", "  ", "\t"])), "crlf": draw(st.sampled_from([False, False, True])), "blank": draw(st.booleans()),
        "per": draw(st.sampled_from([1, 3, 9, 10000])), "fl": draw(st.sampled_from("reE")),
        "sep": draw(st.sampled_from([" ", "  ", "\t"])), "trail": draw(st.booleans()),
        "meta": draw(st.booleans()), "ncomp": draw(st.booleans()),
        "how": draw(st.lists(st.sampled_from(["field", "scalars", "vectors"]), min_size=1, max_size=3)),
        "cell_first": draw(st.booleans()), "title": draw(st.sampled_from(["vtk output", "", "a title: # 1 2 3"])),
        "shuffle": draw(st.booleans()), "colours": draw(st.sampled_from([-1, -1, -1, 0, 1, 9])),
    }


FD = Data(dtypes=("f8", "f4", "i4", "i8", "u1", "i2"), shapes=((), (3,), (2,), (4,), (3, 3)), modes=("int", "unit", "wide", "special"))


def vtk_foreign_cases(version):
    types = FIXED + ("polygon",) + (LAG if version == "5.1" else ())
    dom = Dom(types=types, dims=(3,), pdt=("f8", "f4"), pd=FD, cd=FD, max_blocks=5, large=(200,))
    return st.fixed_dictionaries({"mesh": recipes(dom), "style": vtk_style(version)})


def _flatten(p):
    """interleave nothing; per-cell lists in file order."""
    types, conns = [], []
    for t, d in p["cells"]:
        for row in d.tolist():
            types.append(t)
            conns.append([row[j] for j in WEDGE] if t == "wedge" else row)
    return types, conns


def write_vtk_foreign(p, s, path):
    v = s["version"]
    names = V51 if v == "5.1" else LEG
    w = W(s, names)
    w.raw(f"# vtk DataFile Version {v}")
    w.raw(s["title"])
    w.raw("ASCII" if s["ascii"] else "BINARY")
    w.raw("DATASET UNSTRUCTURED_GRID")
    w.raw(f"POINTS {len(p['points'])} {names[code(p['points'])]}")
    w.arr(p["points"])
    w.meta()
    types, conns = _flatten(p)
    nc = len(types)
    if v == "5.1":
        off = np.cumsum([0] + [len(c) for c in conns])
        flat = np.concatenate([np.array(c) for c in conns])
        w.raw(f"CELLS {nc + 1} {len(flat)}")
        w.raw("OFFSETS vtktypeint64")
        w.arr(off.astype("i8"))
        w.raw("CONNECTIVITY vtktypeint64")
        w.arr(flat.astype("i8"))
    else:
        flat = np.concatenate([np.array([len(c)] + c) for c in conns])
        w.raw(f"CELLS {nc} {len(flat)}")
        w.arr(flat.astype("i4"))
    if s["ascii"]:
        w.raw("")
    w.raw(f"CELL_TYPES {nc}")
    w.arr(np.array([VTK_NUM[t] for t in types], dtype="i4"))
    parts = [("POINT_DATA", len(p["points"]), list(p["point_data"].items())),
             ("CELL_DATA", nc, [(k, np.concatenate(a)) for k, a in p["cell_data"].items()])]
    if s["cell_first"]:
        parts.reverse()
    for k, n, items in parts:
        if s["ascii"]:
            w.raw("")
        w.data(k, n, items)
    with open(path, "wb") as f:
        f.write(w.bytes())


def squeeze(a):
    a = np.asarray(a)
    return a.reshape(a.shape[0], -1)


def flat_data(p):
    """data arrays as (n, components)"""
    q = dict(p)
    q["point_data"] = {k: squeeze(v) for k, v in p["point_data"].items()}
    q["cell_data"] = {k: [squeeze(x) for x in v] for k, v in p["cell_data"].items()}
    return q


def expect_foreign(p):
    return flat_data(merge_adjacent(p))


# ------------------------------------------------------------------ structured VTK


@st.composite
def structured_cases(draw):
    kind = draw(st.sampled_from(["STRUCTURED_POINTS", "RECTILINEAR_GRID", "STRUCTURED_GRID"]))
    dims = draw(st.tuples(*[st.integers(1, 5)] * 3).filter(lambda d: max(d) > 1))
    return {
        "kind": kind, "dims": list(dims), "style": draw(vtk_style(draw(st.sampled_from(["3.0", "4.2", "5.1"])))),
        "seed": draw(st.integers(0, 2**30)), "dt": draw(st.sampled_from(["f8", "f4"])),
        "aspect": draw(st.booleans()), "pd": draw(st.booleans()), "cd": draw(st.booleans()),
    }


def build_structured(c):
    """-> (plain mesh)"""
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    nx, ny, nz = c["dims"]
    if c["kind"] == "STRUCTURED_POINTS":
        origin = rng.integers(-40, 40, 3) / 4
        spacing = rng.integers(1, 20, 3) / 4
        ax = [origin[i] + spacing[i] * np.arange(c["dims"][i]) for i in range(3)]
        c["_origin"], c["_spacing"] = origin, spacing
    elif c["kind"] == "RECTILINEAR_GRID":
        dts = [c["dt"]] * 3
        if c["seed"] % 3 == 0:  # every axis has a type of its own
            dts = [str(x) for x in rng.choice(["f4", "f8", "i4"], 3)]
        ax = [(np.cumsum(rng.integers(1, 9, d)) if t == "i4" else rng.uniform(0, 1) + np.cumsum(rng.integers(1, 9, d) / 4)).astype(t) for d, t in zip(c["dims"], dts)]
    if c["kind"] == "STRUCTURED_GRID":
        pts = rng.uniform(-1, 1, (nx * ny * nz, 3)).astype(c["dt"])
    else:
        pts = np.array([[ax[0][i], ax[1][j], ax[2][k]] for k in range(nz) for j in range(ny) for i in range(nx)])
        c["_ax"] = ax

    def pid(i, j, k):
        return i + nx * (j + ny * k)

    act = [d > 1 for d in c["dims"]]
    rng_i = [range(max(d - 1, 1)) for d in c["dims"]]
    cells = []
    for k in rng_i[2]:
        for j in rng_i[1]:
            for i in rng_i[0]:
                if sum(act) == 3:
                    cells.append([pid(i, j, k), pid(i + 1, j, k), pid(i + 1, j + 1, k), pid(i, j + 1, k),
                                  pid(i, j, k + 1), pid(i + 1, j, k + 1), pid(i + 1, j + 1, k + 1), pid(i, j + 1, k + 1)])
                elif sum(act) == 2:
                    a, b = [x for x in range(3) if act[x]]
                    e = np.eye(3, dtype=int)
                    o = np.array([i, j, k])
                    cells.append([pid(*o), pid(*(o + e[a])), pid(*(o + e[a] + e[b])), pid(*(o + e[b]))])
                else:
                    (a,) = [x for x in range(3) if act[x]]
                    o = np.array([i, j, k])
                    cells.append([pid(*o), pid(*(o + np.eye(3, dtype=int)[a]))])
    t = {1: "line", 2: "quad", 3: "hexahedron"}[sum(act)]
    n, nc = len(pts), len(cells)
    return {"points": pts, "cells": [(t, np.array(cells))],
            "point_data": {"pd": rng.uniform(-1, 1, (n, 3))} if c["pd"] else {},
            "cell_data": {"cd": [rng.integers(-5, 5, nc).astype("i4")]} if c["cd"] else {},
            "field_data": {}, "point_sets": {}, "cell_sets": {}}


def write_structured(c, p, path):
    s = c["style"]
    names = V51 if s["version"] == "5.1" else LEG
    w = W(s, names)
    w.raw(f"# vtk DataFile Version {s['version']}")
    w.raw(s["title"])
    w.raw("ASCII" if s["ascii"] else "BINARY")
    w.raw(f"DATASET {c['kind']}")
    w.raw("DIMENSIONS {} {} {}".format(*c["dims"]))
    if c["kind"] == "STRUCTURED_POINTS":
        o = "ORIGIN {} {} {}".format(*[repr(float(x)) for x in c["_origin"]])
        sp = ("ASPECT_RATIO" if c["aspect"] else "SPACING") + " {} {} {}".format(*[repr(float(x)) for x in c["_spacing"]])
        for line in ((sp, o) if s["cell_first"] else (o, sp)):
            w.raw(line)
    elif c["kind"] == "RECTILINEAR_GRID":
        for nm, a in zip("XYZ", c["_ax"]):
            w.raw(f"{nm}_COORDINATES {len(a)} {names[code(a)]}")
            w.arr(a)
    else:
        w.raw(f"POINTS {len(p['points'])} {names[code(p['points'])]}")
        w.arr(p["points"])
    parts = [("POINT_DATA", len(p["points"]), list(p["point_data"].items())),
             ("CELL_DATA", len(p["cells"][0][1]), [(k, np.concatenate(a)) for k, a in p["cell_data"].items()])]
    if s["cell_first"]:
        parts.reverse()
    for k, n, items in parts:
        w.data(k, n, items)
    with open(path, "wb") as f:
        f.write(w.bytes())


# ------------------------------------------------------------------ VTU
VTN = {"f4": "Float32", "f8": "Float64", "i1": "Int8", "i2": "Int16", "i4": "Int32", "i8": "Int64",
       "u1": "UInt8", "u2": "UInt16", "u4": "UInt32", "u8": "UInt64"}


@st.composite
def vtu_style(draw):
    enc = draw(st.sampled_from(["ascii", "binary", "appended-b64", "appended-raw"]))
    return {
        "enc": enc, "comp": draw(st.sampled_from([None, "zlib", "lzma"])) if enc != "ascii" else None,
        "big": draw(st.booleans()), "h64": draw(st.booleans()), "blk": draw(st.sampled_from([64, 1000, 32768])),
        "split_header": draw(st.booleans()), "tail": draw(st.sampled_from(["\n  ", "\n  ", "\n", ""])), "cellorder": draw(st.permutations([0, 1, 2])), "types_dt": draw(st.sampled_from(["u1", "i4", "i8"])),
        "off_dt": draw(st.sampled_from(["i4", "i8"])), "conn_dt": draw(st.sampled_from([None, None, None, "u1", "i2", "u4", "u8"])), "pad": draw(st.booleans()), "order": draw(st.booleans()),
        "fd": draw(st.booleans()), "pieces": draw(st.integers(1, 3)), "version": draw(st.sampled_from(["0.1", "1.0", None])),
        "emptydata": draw(st.booleans()), "ncempty": draw(st.booleans()), "nobo": draw(st.booleans()), "infokey": draw(st.booleans()), "range": draw(st.booleans()),
        "mixenc": draw(st.integers(0, 3)) == 3, "void": draw(st.sampled_from([None, None, None, 0, 1])),
    }


def vtu_foreign_cases():
    d = Data(dtypes=ALLDT, shapes=((), (3,), (2,), (9,)), modes=("int", "unit", "wide", "special"))
    dom = Dom(types=FIXED + ("polygon",) + LAG, dims=(3,), pdt=("f8", "f4"), pd=d, cd=d, max_blocks=4, large=(200,))
    return st.fixed_dictionaries({"mesh": st.lists(recipes(dom), min_size=1, max_size=3), "style": vtu_style()})


def vtu_pieces(case):
    """Pieces share data names/dtypes: those of the first recipe."""
    rs = case["mesh"]
    out = []
    for r in rs:
        r = dict(r)
        r["pd"], r["cd"], r["pdt"] = rs[0]["pd"], rs[0]["cd"], rs[0]["pdt"]
        out.append(build(r))
    return out


def vtu_concat(pieces):
    off = 0
    cells, cd = [], {k: [] for k in pieces[0]["cell_data"]}
    for p in pieces:
        q = merge_adjacent(p)
        cells += [(t, np.asarray(d, dtype=np.int64) + off) for t, d in q["cells"]]
        for k in cd:
            cd[k] += q["cell_data"][k]
        off += len(p["points"])
    return {"points": np.concatenate([p["points"] for p in pieces]), "cells": cells,
            "point_data": {k: np.concatenate([p["point_data"][k] for p in pieces]) for k in pieces[0]["point_data"]},
            "cell_data": cd, "field_data": {}, "point_sets": {}, "cell_sets": {}}


def write_vtu_foreign(pieces, s, path):
    bo = ">" if s["big"] else "<"
    ht = np.dtype(bo + ("u8" if s["h64"] else "u4"))
    comp = {"zlib": zlib, "lzma": lzma, None: None}[s["comp"]]
    appended = []  # bytes (raw) or str (b64)
    pos = [0]

    def encode(a, raw):
        body = a.astype(a.dtype.newbyteorder(bo)).tobytes()
        if comp is None:
            h = np.array([len(body)], dtype=ht).tobytes()
            if raw:
                return h + body
            if s["split_header"]:
                # VTK encodes the byte count separately from the data
                return base64.b64encode(h) + base64.b64encode(body)
            return base64.b64encode(h + body)
        blk = s["blk"] // 8 * 8
        chunks = [body[i:i + blk] for i in range(0, len(body), blk)]
        cs = [comp.compress(c) for c in chunks]
        last = len(chunks[-1]) if chunks else 0
        # "last_block_size" is the size of the last *partial* block, zero if it is full
        head = np.array([len(cs), blk, 0 if last == blk else last] + [len(c) for c in cs], dtype=ht).tobytes()
        if raw:
            return head + b"".join(cs)
        return base64.b64encode(head) + base64.b64encode(b"".join(cs))

    def da(name, a, indent="        "):
        attrs = [("type", VTN[code(a)]), ("Name", name)]
        if a.ndim == 2:
            attrs.append(("NumberOfComponents", str(a.shape[1])))
        elif s["ncempty"]:
            attrs.append(("NumberOfComponents", ""))
        if s["range"] and a.size:
            attrs += [("RangeMin", str(a.min())), ("RangeMax", str(a.max()))]
        enc = s["enc"]
        if s["mixenc"] and len(name) % 2:
            enc = "ascii"
        if enc == "ascii":
            attrs.append(("format", "ascii"))
            if a.dtype.kind == "f":
                txt = " ".join(repr(float(x)) for x in a.ravel())
            else:
                txt = " ".join(str(int(x)) for x in a.ravel())
        elif enc == "binary":
            attrs.append(("format", "binary"))
            txt = encode(a, False).decode()
        else:
            attrs += [("format", "appended"), ("offset", str(pos[0]))]
            blob = encode(a, enc == "appended-raw")
            appended.append(blob)
            pos[0] += len(blob)
            txt = None
        if s["order"]:
            attrs.reverse()
        at = " ".join(f"{k}={quoteattr(v)}" for k, v in attrs)
        key = ""
        if s["infokey"]:
            key = f'\n{indent}  <InformationKey name="L2_NORM_RANGE" location="vtkDataArray" length="2">\n{indent}    <Value index="0">\n{indent}      0.5\n{indent}    </Value>\n{indent}  </InformationKey>\n'
        if txt is None:
            return f"{indent}<DataArray {at}>{key}</DataArray>\n" if key else f"{indent}<DataArray {at}/>\n"
        ws = "\n          " if s["pad"] else ""
        return f"{indent}<DataArray {at}>{ws}{txt}{ws}{key}</DataArray>\n"

    o = ['<?xml version="1.0"?>\n']
    va = f' version="{s["version"]}"' if s["version"] else ""
    ca = {"zlib": ' compressor="vtkZLibDataCompressor"', "lzma": ' compressor="vtkLZMADataCompressor"', None: ""}[s["comp"]]
    bo_ = "" if s["nobo"] and not s["big"] and sys.byteorder == "little" else f' byte_order="{"BigEndian" if s["big"] else "LittleEndian"}"'
    ha = ' header_type="UInt64"' if s["h64"] else ""
    o.append(f'<VTKFile type="UnstructuredGrid"{va}{bo_}{ha}{ca}>\n')
    o.append("  <UnstructuredGrid>\n")
    if s["fd"]:
        o.append("    <FieldData>\n" + da("TimeValue", np.array([0.5, 2.25])) + "    </FieldData>\n")
    if s["void"] is not None:
        # a part of the grid without points
        q = pieces[0]
        z = {"points": q["points"][:0], "cells": [], "point_data": {k: v[:0] for k, v in q["point_data"].items()}, "cell_data": {k: [v[0][:0]] for k, v in q["cell_data"].items()}}
        pieces = list(pieces)
        pieces.insert(s["void"] * len(pieces), z)
    for p in pieces:
        types, conns = _flatten(p)
        o.append(f'    <Piece NumberOfPoints="{len(p["points"])}" NumberOfCells="{len(types)}">\n')
        pd = "".join(da(k, v) for k, v in p["point_data"].items())
        cdd = "".join(da(k, np.concatenate(v)) for k, v in p["cell_data"].items())
        pts = "      <Points>\n" + da("Points", p["points"]) + "      </Points>\n"
        flat = np.concatenate([np.array(c) for c in conns] or [np.zeros(0)]).astype(s["conn_dt"] if s["conn_dt"] and len(p["points"]) <= np.iinfo(s["conn_dt"]).max else s["off_dt"])
        off = np.cumsum([len(c) for c in conns]).astype(s["off_dt"])
        tt = np.array([VTK_NUM[t] for t in types], dtype=s["types_dt"])
        arrays = [("connectivity", flat), ("offsets", off), ("types", tt)]
        cl = "      <Cells>\n" + "".join(da(*arrays[i]) for i in s["cellorder"]) + "      </Cells>\n"
        pdx = f"      <PointData>\n{pd}      </PointData>\n" if pd or s["emptydata"] else ""
        cdx = f"      <CellData>\n{cdd}      </CellData>\n" if cdd or s["emptydata"] else ""
        o.append(pdx + cdx + pts + cl if s["order"] else pts + cl + pdx + cdx)
        o.append("    </Piece>\n")
    o.append("  </UnstructuredGrid>\n")
    blob = "".join(o).encode()
    if appended:
        # offsets are in document order of encoding, which is the order of `appended`
        enc = "raw" if s["enc"] == "appended-raw" else "base64"
        blob += f'  <AppendedData encoding="{enc}">\n   _'.encode() + b"".join(appended) + s["tail"].encode() + b"</AppendedData>\n"
    blob += b"</VTKFile>\n"
    with open(path, "wb") as f:
        f.write(blob)
