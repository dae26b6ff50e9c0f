"""Surface formats: OBJ, OFF, PLY, STL, WKT, Neuroglancer (and SVG pictures)."""
from __future__ import annotations

import re
import struct

import numpy as np

from .fmt_fem import mk
from .mesh import NN, Cmp, Data, Dom, chars, merge_adjacent, pad3, regroup, without
from .registry import Variant, add

BYW = {1: "vertex", 2: "line", 3: "triangle", 4: "quad"}


def by_width(p):
    """cells are told apart by their number of corners only"""
    q = dict(p)
    q["cells"] = [(BYW.get(c.shape[1], "polygon"), c) for _, c in p["cells"]]
    return merge_adjacent(q)


def only(*types):
    def f(p):
        return regroup(p, [[i] for i, (t, _) in enumerate(p["cells"]) if t in types])

    return f


def tri_block(p):
    """all triangles in one block"""
    g = [i for i, (t, _) in enumerate(p["cells"]) if t == "triangle"]
    return regroup(p, [g])


# ------------------------------------------------------------------ OBJ
def obj_expect(p):
    q = by_width(p)
    q["point_data"] = {k: v for k, v in p["point_data"].items() if k in ("obj:vn", "obj:vt")}
    q["cell_data"] = {"obj:group_ids": [np.full(len(c), -1) for _, c in q["cells"]]}
    return q


def parse_obj(path):
    v, vt, vn, f = [], [], [], []
    for line in open(path):
        w = line.split("#")[0].split()
        if not w:
            continue
        if w[0] in ("v", "vt", "vn"):
            {"v": v, "vt": vt, "vn": vn}[w[0]].append([float(x) for x in w[1:]])
        else:
            assert w[0] == "f", w
            f.append([int(x) - 1 for x in w[1:]])
    assert all(len(x) == 3 for x in v)
    cells = []
    for c in f:
        if not cells or len(cells[-1][1][0]) != len(c):
            cells.append((BYW.get(len(c), "polygon"), []))
        cells[-1][1].append(c)
    pd = {}
    if vn:
        pd["obj:vn"] = np.array(vn)
    if vt:
        pd["obj:vt"] = np.array(vt)
    cells = [(t, np.array(c)) for t, c in cells]
    return mk(np.array(v), cells, pd, {"obj:group_ids": [np.full(len(c), -1) for _, c in cells]})


SURF = ("triangle", "quad", "polygon")
add(Variant(id="obj", group="surf", fmt="obj", ext=".obj",
            dom=Dom(types=SURF, pdt=("f8", "f8", "f4", "i4"), idt=("i8", "i4", "u4", "i2"), max_blocks=6,
                    pd=Data(dtypes=("f8", "f4"), shapes=((3,), (2,)), names=("obj:vn", "obj:vt", "other")), cd=Data(max=1), large=(120,)),
            expect=obj_expect, cmp=Cmp(cast=True), parse=parse_obj, quick=600, buffer="r"))


# ------------------------------------------------------------------ OFF
def off_expect(p):
    return tri_block(without(pad3(p), "point_data", "cell_data"))


def parse_off(path):
    lines = [x.split("#")[0].strip() for x in open(path)]
    tok = " ".join(lines).split()
    assert lines[0] == "OFF"
    n, m, _ = (int(x) for x in tok[1:4])
    pts = np.array([float(x) for x in tok[4:4 + 3 * n]]).reshape(n, 3)
    f = np.array([int(x) for x in tok[4 + 3 * n:]]).reshape(m, 4)
    assert (f[:, 0] == 3).all()
    return mk(pts, [("triangle", f[:, 1:])], {}, {})


add(Variant(id="off", group="surf", fmt="off", ext=".off",
            dom=Dom(types=("triangle",), dims=(3, 2), pdt=("f8", "f8", "f4", "i4"), idt=("i8", "i4", "u4", "u1"), max_blocks=4, pd=Data(max=1), cd=Data(max=1), large=(150,)),
            expect=off_expect, cmp=Cmp(cast=True), parse=parse_off, quick=400))

# ------------------------------------------------------------------ PLY
PLYT = {"char": "i1", "uchar": "u1", "short": "i2", "ushort": "u2", "int": "i4", "uint": "u4", "float": "f4", "double": "f8", "int8": "i1", "uint8": "u1",
        "int16": "i2", "uint16": "u2", "int32": "i4", "uint32": "u4", "float32": "f4", "float64": "f8", "int64": "i8", "uint64": "u8"}


def parse_ply(path):
    raw = open(path, "rb").read()
    head, body = raw.split(b"end_header\n", 1)
    lines = head.decode().split("\n")
    assert lines[0] == "ply" and lines[-1] == ""
    elems = []
    for line in lines[1:-1]:
        w = line.split()
        if w[0] in ("comment", "obj_info"):
            continue
        if w[0] == "format":
            enc = w[1]
            assert w[2] == "1.0"
        elif w[0] == "element":
            elems.append((w[1], int(w[2]), []))
        else:
            assert w[0] == "property"
            elems[-1][2].append(w[1:])
    assert elems[0][0] == "vertex"
    bo = ">" if enc == "binary_big_endian" else "<"
    tok = iter(body.split()) if enc == "ascii" else None
    pos = [0]

    def one(t):
        d = np.dtype(PLYT[t])
        if tok is not None:
            x = next(tok)
            return d.type(float(x)) if d.kind == "f" else d.type(int(x))
        d = d.newbyteorder(bo)
        v = np.frombuffer(body, d, 1, pos[0])[0]
        pos[0] += d.itemsize
        return v

    data = {}
    for name, n, props in elems:
        rows = []
        for _ in range(n):
            r = {}
            for pr in props:
                if pr[0] == "list":
                    k = int(one(pr[1]))
                    r[pr[3]] = [int(one(pr[2])) for _ in range(k)]
                else:
                    r[pr[1]] = one(pr[0])
            rows.append(r)
        data[name] = rows
    if tok is not None:
        assert next(tok, None) is None
    else:
        assert pos[0] == len(body)
    pt = {pr[1]: PLYT[pr[0]] for pr in elems[0][2]}
    co = [c for c in "xyz" if c in pt]
    vs = data["vertex"]
    pts = np.array([[r[c] for c in co] for r in vs], dtype=pt["x"])
    pd = {k: np.array([r[k] for r in vs], dtype=t) for k, t in pt.items() if k not in co}
    cells = []
    for r in data.get("face", []):
        c = r["vertex_indices"]
        if not cells or len(cells[-1][1][0]) != len(c):
            cells.append((BYW.get(len(c), "polygon"), []))
        cells[-1][1].append(c)
    return mk(pts, [(t, np.array(c)) for t, c in cells], pd, {})


def ply_expect(p):
    q = by_width(without(p, "cell_data"))
    q["point_data"] = {k: v for k, v in p["point_data"].items() if v.ndim == 1}
    return q


PT = ("f8", "f4", "i4", "i2", "u1", "i8", "u2", "u4", "i1", "u8")
for _b in (True, False):
    add(Variant(id="ply-" + ("bin" if _b else "ascii"), group="surf", fmt="ply", ext=".ply", kwargs={"binary": _b},
                dom=Dom(types=("vertex", "line", *SURF), dims=(3, 3, 2), pdt=("f8", "f8", "f4", "i4", "i2"), idt=("i8", "i4", "u4", "u1", "i2", "u2"), max_blocks=6,
                        pd=Data(dtypes=PT, shapes=((), (), (2,)), names=("a", "nx", "red", "B2", "vel-x", "u_0", "file", "print", "f0", "list1", "[/b]"), chars=chars(), avoid=r"^[xyz]$"),
                        cd=Data(max=1), large=(120,)),
                expect=ply_expect, cmp=Cmp(pdtype="exact", ddtype="exact"), parse=parse_ply, quick=600, buffer="rb"))


# ------------------------------------------------------------------ STL
def soup(p, dt):
    """triangles as corner coordinates, then equal points identified in order of first appearance"""
    p = tri_block(pad3(p))
    if not p["cells"]:
        return p, mk(np.empty((0, 3), dtype=dt), [], {}, {})
    with np.errstate(all="ignore"):
        x = np.asarray(p["points"], dtype=dt)[p["cells"][0][1]]
    ids = {}
    tri = []
    for t in x.tolist():
        tri.append([ids.setdefault(tuple(c), len(ids)) for c in t])
    pts = np.array([list(k) for k in ids], dtype=dt).reshape(-1, 3)
    # keep the sign of zero of the first appearance: not claimed
    return p, mk(pts, [("triangle", np.array(tri))], {}, {})


def normals(p):
    p = pad3(p)
    pts = np.asarray(p["points"])
    pts = pts.astype("f8") if pts.dtype.kind != "f" else pts
    x = tri_block(p)
    if "facet_normals" in p["cell_data"]:
        return x["cell_data"]["facet_normals"][0]
    x = pts[x["cells"][0][1]]
    with np.errstate(all="ignore"):
        n = np.cross(x[:, 1] - x[:, 0], x[:, 2] - x[:, 0])
        return n / np.sqrt((n * n).sum(1))[:, None]


def stl_expect(binary):
    def f(p):
        _, q = soup(p, "f4" if binary else "f8")
        q["cell_data"] = {} if binary or not q["cells"] else {"facet_normals": [normals(p)]}
        return q

    return f


def parse_stl_ascii(path):
    tok = open(path).read().split()
    assert tok[0] == "solid"
    i = 1
    while tok[i] != "facet":
        i += 1
    nrm, fac = [], []
    while tok[i] == "facet":
        assert tok[i + 1] == "normal" and tok[i + 5:i + 7] == ["outer", "loop"]
        nrm.append([float(x) for x in tok[i + 2:i + 5]])
        i += 7
        v = []
        for _ in range(3):
            assert tok[i] == "vertex"
            v.append([float(x) for x in tok[i + 1:i + 4]])
            i += 4
        fac.append(v)
        assert tok[i:i + 2] == ["endloop", "endfacet"]
        i += 2
    assert tok[i] == "endsolid"
    return _from_facets(fac, nrm)


def _from_facets(fac, nrm):
    ids = {}
    tri = [[ids.setdefault(tuple(c), len(ids)) for c in t] for t in fac]
    return mk(np.array([list(k) for k in ids]).reshape(-1, 3), [("triangle", np.array(tri).reshape(-1, 3))], {}, {"facet_normals": [np.array(nrm)]})


def parse_stl_bin(path):
    raw = open(path, "rb").read()
    assert not raw[:80].startswith(b"solid")
    n = struct.unpack("<I", raw[80:84])[0]
    assert len(raw) == 84 + 50 * n
    fac, nrm = [], []
    for k in range(n):
        r = raw[84 + 50 * k:84 + 50 * (k + 1)]
        x = struct.unpack("<12f", r[:48])
        assert r[48:] == b"\0\0"
        nrm.append(x[:3])
        fac.append([x[3:6], x[6:9], x[9:12]])
    return _from_facets(fac, nrm)


def stl_bin_parse_expect(p):
    _, q = soup(p, "f4")
    q["cell_data"] = {"facet_normals": [np.asarray(normals(p), "f4")]}
    return q


def distinct(p, rng):
    """no two points may coincide or be collinear with a third: take generic ones"""
    return p


for _b in (True, False):
    _sd = dict(types=("triangle",), dims=(3, 3, 2), pdt=("f8", "f8", "f4"), pmodes=("int", "unit", "dec", "pos"), idt=("i8", "i4", "u4"), max_blocks=4,
               pd=Data(max=1), cd=Data(dtypes=("f8",), shapes=((3,),), modes=("unit", "int"), names=("facet_normals",)), large=(150,))
    add(Variant(id="stl-" + ("bin" if _b else "ascii"), group="surf", fmt="stl", ext=".stl", kwargs={"binary": _b}, dom=Dom(**_sd), expect=stl_expect(_b),
                cmp=Cmp(drtol=1e-5, datol=1e-5, bits=False, cast=True), parse=parse_stl_bin if _b else parse_stl_ascii,
                parse_expect=stl_bin_parse_expect if _b else None, quick=500))
_sd = dict(_sd, cd=None, pmodes=("int", "unit", "wide", "dec"))
add(Variant(id="stl-default", group="surf", fmt="stl", ext=".stl", dom=Dom(**dict(_sd, pdt=("f8",))), expect=lambda p: without(stl_expect(False)(p), "cell_data"),
            post=lambda g: without(g, "cell_data"), cmp=Cmp(bits=False), quick=200))


# ------------------------------------------------------------------ WKT
def wkt_expect(p):
    _, q = soup(p, p["points"].dtype)
    return q


def parse_wkt(path):
    s = open(path).read()
    m = re.fullmatch(r"TIN \((.*)\)", s.strip(), re.S)
    fac = []
    for t in re.findall(r"\(\(([^()]*)\)\)", m.group(1)):
        pts = [tuple(float(x) for x in c.split()) for c in t.split(",")]
        assert len(pts) == 4 and pts[0] == pts[3]
        fac.append(pts[:3])
    assert re.sub(r"\(\([^()]*\)\)", "T", m.group(1)) == ", ".join(["T"] * len(fac))
    return without(_from_facets(fac, [0] * len(fac)), "cell_data")


add(Variant(id="wkt", group="surf", fmt="wkt", ext=".wkt", dom=Dom(types=("triangle",), pdt=("f8", "f8", "f4", "i4"), idt=("i8", "i4", "u4"), max_blocks=4, large=(60,)),
            expect=wkt_expect, cmp=Cmp(bits=False, cast=True), parse=parse_wkt, quick=500, buffer="r"))


# ------------------------------------------------------------------ Neuroglancer
def ngl_expect(p):
    q = off_expect(p)
    with np.errstate(all="ignore"):
        q["points"] = q["points"].astype("f4")
    return q


def parse_ngl(path):
    raw = open(path, "rb").read()
    n = struct.unpack("<I", raw[:4])[0]
    pts = np.frombuffer(raw, "<f4", 3 * n, 4).reshape(n, 3)
    tri = np.frombuffer(raw, "<u4", -1, 4 + 12 * n).reshape(-1, 3)
    return mk(pts, [("triangle", tri)], {}, {})


def ngl_read(path):
    import meshio

    return meshio.read(path, file_format="neuroglancer")


add(Variant(id="neuroglancer", group="surf", fmt="neuroglancer", ext="", reader=ngl_read,
            dom=Dom(types=("triangle",), dims=(3, 2), pdt=("f8", "f4", "f4", "i4"), idt=("i8", "i4", "u4", "u1"), max_blocks=4, pd=Data(max=1), cd=Data(max=1), large=(150,)),
            expect=ngl_expect, cmp=Cmp(pdtype="exact"), parse=parse_ngl, quick=400, buffer="rb"))
