"""Tecplot, AVS-UCD, FLAC3D, DOLFIN XML."""
from __future__ import annotations

import os
import re
import struct
from xml.etree import ElementTree as ET

import numpy as np

from .fmt_fem import mk
from .mesh import NN, TDIM, Cmp, Data, Dom, chars, merge_adjacent, pad3, regroup, without
from .registry import Variant, add

# ------------------------------------------------------------------ Tecplot
TEC = {"line": "line", "triangle": "triangle", "quad": "quad", "tetra": "tetra", "pyramid": "hexahedron", "wedge": "hexahedron", "hexahedron": "hexahedron"}
# a pyramid or prism is a brick with repeated corners
TEC8 = {"tetra": [0, 1, 2, 2, 3, 3, 3, 3], "pyramid": [0, 1, 2, 3, 4, 4, 4, 4], "wedge": [0, 1, 4, 3, 2, 2, 5, 5], "hexahedron": list(range(8))}
TEC4 = {"triangle": [0, 1, 2, 2], "quad": [0, 1, 2, 3]}


def tec_expect(p):
    md = max(TDIM[t] for t, _ in p["cells"] if t in TEC)
    keep = [i for i, (t, _) in enumerate(p["cells"]) if t in TEC and TDIM[t] == md]
    types = {p["cells"][i][0] for i in keep}
    q = dict(p)
    cells = []
    for t, c in p["cells"]:
        if len(types) == 1 and t in types:
            c = c[:, TEC8[t]] if TEC[t] == "hexahedron" else c
            t = TEC[t]
        elif t in types and TDIM[t] == md and md > 1:
            c = c[:, (TEC4 if md == 2 else TEC8)[t]]
            t = "quad" if md == 2 else "hexahedron"
        cells.append((t, c))
    q["cells"] = cells
    q = regroup(q, [keep])
    q["point_data"] = tec_cols(p["point_data"], lambda v, i: v[:, i], lambda v: v)
    q["cell_data"] = tec_cols(q["cell_data"], lambda v, i: [x[:, i] for x in v], lambda v: v[0])
    return q


def tec_cols(d, col, first):
    out = {}
    for k, v in d.items():
        if k in ("X", "Y", "Z", "x", "y", "z"):
            continue
        if first(v).ndim == 1:
            out[k] = v
        else:
            for i in range(first(v).shape[1]):
                out[f"{k}_{i}"] = col(v, i)
    return out


TECK = {"FELINESEG": ("line", 2), "FETRIANGLE": ("triangle", 3), "FEQUADRILATERAL": ("quad", 4), "FETETRAHEDRON": ("tetra", 4), "FEBRICK": ("hexahedron", 8)}


def parse_tec(path):
    s = open(path).read()
    m = re.match(r'TITLE = "[^"]*"\nVARIABLES = (.*)\nZONE (.*?)\n(?=[-+.\dni])', s, re.S)
    names = re.findall(r'"([^"]*)"', m.group(1))
    assert m.group(1) == ", ".join(f'"{x}"' for x in names)
    z = m.group(2)
    n, e = int(re.search(r"NODES = (\d+)", z).group(1)), int(re.search(r"ELEMENTS = (\d+)", z).group(1))
    assert "DATAPACKING = BLOCK" in z
    t, k = TECK[re.search(r"ZONETYPE = (\w+)", z).group(1)]
    cc = set()
    vl = re.search(r"VARLOCATION = \(\[([\d-]+)\] = CELLCENTERED\)", z)
    if vl:
        a = [int(x) for x in vl.group(1).split("-")]
        cc = set(range(a[0], a[-1] + 1))
    tok = s[m.end():].split()
    i = 0
    pd, cd, xyz = {}, {}, {}
    for j, name in enumerate(names):
        ln = e if j + 1 in cc else n
        a = np.array([float(x) for x in tok[i:i + ln]])
        i += ln
        if j + 1 in cc:
            cd[name] = [a]
        elif name in ("X", "Y", "Z"):
            xyz[name] = a
        else:
            pd[name] = a
    c = np.array([int(x) for x in tok[i:]]).reshape(e, k) - 1
    assert max(len(x) for x in s.split("\n")) <= 32000  # Tecplot's limit
    return mk(np.column_stack([xyz[a] for a in sorted(xyz)]), [(t, c)], pd, cd)


TD = Data(dtypes=("f8", "f4", "i4", "i2", "u1"), shapes=((), (), (2,), (3,)), modes=("int", "unit", "wide", "dec"), names=("p", "Temp", "vel", "q-1", "Y1", "rho_u", "N"), chars=chars('",'), avoid=r"^[xyzXYZ]$|_[0-9xyz]$")
_td = dict(dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u4"), max_blocks=5, pd=TD, cd=TD, large=(90,))
for _id, _t in (("tecplot", tuple(TEC)), ("tecplot-2d", ("triangle", "quad", "line")), ("tecplot-3d", ("tetra", "pyramid", "wedge", "hexahedron"))):
    add(Variant(id=_id, group="misc", fmt="tecplot", ext=".dat", dom=Dom(types=_t, **_td), expect=tec_expect, cmp=Cmp(cast=True), parse=parse_tec, quick=500, buffer="r"))
for _t in TEC:
    add(Variant(id=f"tecplot-{_t}", group="misc", fmt="tecplot", ext=".tec", dom=Dom(types=(_t,), **_td), expect=tec_expect, cmp=Cmp(cast=True), quick=60))

# ------------------------------------------------------------------ AVS-UCD
AVS = {"pt": "vertex", "line": "line", "tri": "triangle", "quad": "quad", "tet": "tetra", "pyr": "pyramid", "prism": "wedge", "hex": "hexahedron"}
AVSP = {"tetra": [0, 1, 3, 2], "pyramid": [1, 2, 3, 4, 0], "wedge": [3, 4, 5, 0, 1, 2], "hexahedron": [4, 5, 6, 7, 0, 1, 2, 3]}


def avs_expect(p):
    q = merge_adjacent(pad3(p))
    cd = dict(q["cell_data"])
    mat = None
    for k, v in list(cd.items()):
        if v[0].dtype.kind in "iu":
            mat = cd.pop(k)
            break
    cd["avsucd:material"] = mat if mat is not None else [np.zeros(len(c), int) for _, c in q["cells"]]
    q["cell_data"] = cd
    return q


def parse_avs(path):
    lines = [x.split() for x in open(path) if not x.startswith("#")]
    n, e, nd, cd, md = map(int, lines[0])
    assert md == 0
    pid = {int(x[0]): k for k, x in enumerate(lines[1:1 + n])}
    assert list(pid) == list(range(1, n + 1))
    pts = np.array([[float(y) for y in x[1:]] for x in lines[1:1 + n]]).reshape(n, 3)
    i = 1 + n
    cells, mat = [], []
    for k in range(e):
        r = lines[i]
        i += 1
        assert int(r[0]) == k + 1
        t = AVS[r[2]]
        c = [pid[int(x)] for x in r[3:]]
        assert len(c) == NN[t]
        if not cells or cells[-1][0] != t:
            cells.append((t, []))
            mat.append([])
        cells[-1][1].append([c[j] for j in AVSP.get(t, range(len(c)))])
        mat[-1].append(int(r[1]))

    def section(m, total):
        nonlocal i
        comp = [int(x) for x in lines[i]]
        assert comp[0] == len(comp) - 1 and sum(comp[1:]) == total
        i += 1
        labels = [" ".join(x).split(",")[0] for x in lines[i:i + comp[0]]]
        i += comp[0]
        a = np.array([[float(y) for y in x] for x in lines[i:i + m]]).reshape(m, total + 1)
        assert (a[:, 0] == np.arange(1, m + 1)).all()
        i += m
        out, j = {}, 1
        for lab, c in zip(labels, comp[1:]):
            out[lab] = a[:, j] if c == 1 else a[:, j:j + c]
            j += c
        return out

    pdata = section(n, nd) if nd else {}
    cdata = section(e, cd) if cd else {}
    assert i == len(lines)
    off = np.cumsum([len(c) for _, c in cells])[:-1]
    cdata = {k: np.split(v, off) for k, v in cdata.items()}
    cdata["avsucd:material"] = [np.array(x) for x in mat]
    return mk(pts, [(t, np.array(c)) for t, c in cells], pdata, cdata)


AD = Data(dtypes=("f8", "f4", "f8"), shapes=((), (3,), (2,)), modes=("int", "unit", "dec", "pos"), names=("a", "vel", "B2", "x:y", "long-name"), chars=chars(","))


def avs_adjust(p, rng):
    """at most: one or several scalar integer arrays anywhere among the float arrays"""
    q = dict(p)
    if rng.random() < 0.6:
        cd = list(p["cell_data"].items())
        pos = 0
        for k in [("avsucd:material", "mat"), ("m2",)][: int(rng.integers(1, 3))]:
            pos = int(rng.integers(pos, len(cd) + 1))
            cd.insert(pos, (k[int(rng.integers(len(k)))], [rng.integers(-5, 100, len(c)) for _, c in p["cells"]]))
            pos += 1
        q["cell_data"] = dict(cd)
    return q


add(Variant(id="avsucd", group="misc", fmt="avsucd", ext=".avs", dom=Dom(types=tuple(AVS.values()), dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u4"), max_blocks=6, pd=AD, cd=AD, large=(120,)),
            adjust=avs_adjust, expect=avs_expect, cmp=Cmp(drtol=1e-14, cast=True, bits=False), parse=parse_avs, quick=800))

# ------------------------------------------------------------------ FLAC3D
FL = {"triangle": "T3", "quad": "Q4", "tetra": "T4", "pyramid": "P5", "wedge": "W6", "hexahedron": "B8"}
FLB = {"tetra10": "tetra", "pyramid13": "pyramid", "wedge15": "wedge", "wedge18": "wedge", "hexahedron20": "hexahedron", "hexahedron24": "hexahedron",
       "hexahedron27": "hexahedron", "triangle6": "triangle", "triangle7": "triangle", "quad8": "quad", "quad9": "quad"}
# position in the FLAC3D list of each meshio corner
FLP = {"pyramid": [0, 1, 4, 2, 3], "wedge": [0, 1, 3, 2, 4, 5], "hexahedron": [0, 1, 4, 2, 3, 6, 7, 5]}
FLDET = {"tetra": (0, 1, 2, 3), "pyramid": (0, 1, 3, 4), "wedge": (0, 1, 3, 2), "hexahedron": (0, 1, 3, 4)}
MIRROR = {"tetra": [0, 2, 1, 3], "pyramid": [0, 3, 2, 1, 4], "wedge": [0, 2, 1, 3, 5, 4], "hexahedron": [0, 3, 2, 1, 4, 7, 6, 5]}


def fl_cells(p):
    """linear cells, the zones mirrored where the first four FLAC3D corners are left-handed"""
    out = []
    x = np.asarray(p["points"], float)
    for t, c in p["cells"]:
        t = FLB.get(t, t)
        c = np.asarray(c[:, : NN[t]], dtype=int)
        if TDIM[t] == 3:
            det, flat = fl_det(x, t, c)
            c = np.where((det > 0)[:, None], c, c[:, MIRROR[t]])
        out.append((t, c))
    return out


def fl_det(x, t, c):
    """(orientation, too flat to tell)"""
    a, b, d, e = (x[c[:, k]] for k in FLDET[t])
    det = np.einsum("ij,ij->i", b - a, np.cross(d - a, e - a))
    size = np.abs(np.stack([a, b, d, e])).max(axis=(0, 2), initial=0)
    return det, np.abs(det) <= 1e-5 * size**3


def fl_flat(p):
    return any(TDIM[t] == 3 and t in FLDET and fl_det(np.asarray(p["points"], float), t, np.asarray(c))[1].any() for t, c in p["cells"])


def fl_canon(q):
    """flat zones have no orientation: choose one"""
    out = []
    x = np.asarray(q["points"], float)
    for t, c in q["cells"]:
        if TDIM[t] == 3 and len(c):
            c = np.array(c, dtype=int)
            for i in np.flatnonzero(fl_det(x, t, c)[1]):
                c[i] = min(c[i].tolist(), c[i][MIRROR[t]].tolist())
        out.append((t, c))
    return dict(q, cells=out)


def fl_expect(slot):
    def f(p):
        q = without(p, "point_data", "cell_data")
        q["cells"] = fl_cells(p)
        face = [i for i, (t, _) in enumerate(q["cells"]) if TDIM[t] == 2]
        zone = [i for i, (t, _) in enumerate(q["cells"]) if TDIM[t] == 3]
        cs = {}
        for kind, idx in (("face", face), ("zone", zone)):
            if idx:
                for k, v in p["cell_sets"].items():
                    cs[f"{kind}:{k}:{slot}"] = [v[i] if i in idx else np.zeros(0, int) for i in range(len(v))]
        q["cell_sets"] = cs
        order = face + zone
        q = regroup(q, [[i] for i in order])
        return merge_adjacent(fl_canon(q))

    return f


def fl_post(g):
    return fl_canon(without(g, "cell_data"))


def fl_collect(pts, pid, z, f, groups):
    cells, where = [], {}
    for kind, rows in (("face", f), ("zone", z)):
        for cid, c in rows:
            t = {3: "triangle", 4: "quad"}[len(c)] if kind == "face" else {4: "tetra", 5: "pyramid", 6: "wedge", 8: "hexahedron"}[len(c)]
            c = [pid[x] for x in c]
            c = [c[k] for k in FLP.get(t, range(len(c)))]
            if not cells or cells[-1][0] != t:
                cells.append((t, []))
            where[kind, cid] = (len(cells) - 1, len(cells[-1][1]))
            cells[-1][1].append(c)
    cs = {}
    for kind, name, slot, ids in groups:
        parts = [[] for _ in cells]
        for i in ids:
            b, k = where[kind, i]
            parts[b].append(k)
        cs[f"{kind}:{name}:{slot}"] = [np.array(x, dtype=int) for x in parts]
    out = mk(np.array(pts), [(t, np.array(c)) for t, c in cells], {}, {})
    out["cell_sets"] = cs
    return out


def parse_fl_ascii(path):
    pts, pid, z, f, groups = [], {}, [], [], []
    for line in open(path, encoding="utf-8"):
        w = line.split()
        if not w or w[0] == "*" or w[0].startswith("*"):
            continue
        if w[0] == "G":
            pid[int(w[1])] = len(pts)
            pts.append([float(x) for x in w[2:]])
        elif w[0] in ("Z", "F"):
            c = [int(x) for x in w[3:]]
            assert int(w[1][1:]) == len(c)
            (z if w[0] == "Z" else f).append((int(w[2]), c))
        elif w[0] in ("ZGROUP", "FGROUP"):
            m = re.fullmatch(r'(.)GROUP "(.*)" SLOT (\S+)', line.strip())
            groups.append(("zone" if m.group(1) == "Z" else "face", m.group(2), m.group(3), []))
        else:
            groups[-1][3].extend(int(x) for x in w)
    return fl_canon(fl_collect(pts, pid, z, f, groups))


def parse_fl_bin(path):
    raw = open(path, "rb").read()
    pos = 8

    def g(fmt):
        nonlocal pos
        v = struct.unpack_from("<" + fmt, raw, pos)
        pos += struct.calcsize("<" + fmt)
        return v

    pts, pid, groups, out = [], {}, [], {}
    for _ in range(g("I")[0]):
        r = g("I3d")
        pid[r[0]] = len(pts)
        pts.append(r[1:])
    for kind in ("zone", "face"):
        rows = []
        for _ in range(g("I")[0]):
            cid, n = g("2I")
            rows.append((cid, g(f"{n}I")))
        out[kind] = rows
        for _ in range(g("I")[0]):
            name = g(f"{g('H')[0]}s")[0].decode()
            slot = g(f"{g('H')[0]}s")[0].decode()
            groups.append((kind, name, slot, list(g(f"{g('I')[0]}I"))))
    assert pos == len(raw)
    return fl_canon(fl_collect(pts, pid, out["zone"], out["face"], groups))


def fl_parse_expect(slot):
    return fl_expect(slot)


for _b in (False, True):
    for _id, _t in (("all", tuple(FL)), ("zone", ("tetra", "pyramid", "wedge", "hexahedron")), ("high", tuple(FLB) + ("tetra", "quad"))):
        add(Variant(id=f"flac3d-{'bin' if _b else 'ascii'}-{_id}", group="misc", fmt="flac3d", ext=".f3grid", kwargs={"binary": _b},
                    dom=Dom(types=_t, pdt=("f8", "f8", "f4"), pmodes=("int", "unit", "dec"), idt=("i8", "i4", "u4"), max_blocks=6, max_cells=7, pd=Data(max=1), cd=Data(max=1),
                            csets=("a", "B 2", "left_side", "x:y", "größe" if _b else "c-d"), schars=chars("'\""), large=(60,)),
                    expect=fl_expect("Default" if _b else "1"), post=fl_post, cmp=Cmp(sets=True, cast=True), parse=parse_fl_bin if _b else parse_fl_ascii,
                    quick=400 if _id == "all" else 200))


# ------------------------------------------------------------------ DOLFIN
def dol_expect(p):
    t = "tetra" if any(t == "tetra" for t, _ in p["cells"]) else "triangle"
    return regroup(without(p, "point_data"), [[i for i, (u, _) in enumerate(p["cells"]) if u == t]])


def dol_write(path, m, **kw):
    import meshio

    meshio.write(path, m, file_format="dolfin-xml", **kw)


def parse_dol(path):
    root = ET.parse(path).getroot()
    assert root.tag == "dolfin" and len(root) == 1
    me = root[0]
    dim = int(me.get("dim"))
    t = me.get("celltype")
    vs, cs = me.find("vertices"), me.find("cells")
    assert int(vs.get("size")) == len(vs) and int(cs.get("size")) == len(cs)
    pts = np.zeros((len(vs), dim))
    seen = set()
    for v in vs:
        pts[int(v.get("index"))] = [float(v.get(k)) for k in "xyz"[:dim]]
        seen.add(int(v.get("index")))
    assert seen == set(range(len(vs)))
    k = {"triangle": 3, "tetrahedron": 4}[t]
    c = np.full((len(cs), k), -1)
    for e in cs:
        assert e.tag == t
        c[int(e.get("index"))] = [int(e.get(f"v{j}")) for j in range(k)]
    cd = {}
    base = os.path.splitext(path)[0]
    for f in sorted(os.listdir(os.path.dirname(path))):
        full = os.path.join(os.path.dirname(path), f)
        if full == path:
            continue
        assert full.startswith(base + "_") and f.endswith(".xml"), f
        r = ET.parse(full).getroot()
        (mf,) = r
        assert r.tag == "dolfin" and mf.tag == "mesh_function" and int(mf.get("size")) == len(mf) == len(cs)
        a = np.zeros(len(cs), dtype={"int": "i8", "uint": "u8", "float": "f8"}[mf.get("type")])
        for e in mf:
            a[int(e.get("index"))] = e.get("value")
        cd[full[len(base) + 1:-4]] = [a]
    return mk(pts, [("triangle" if k == 3 else "tetra", c)], {}, cd)


DD = Data(dtypes=("f8", "i8", "i4", "u1", "u4", "f4", "u8"), shapes=((),), names=("a", "markers", "mat_id", "B2", "x-y"))
_dd = dict(dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u4"), max_blocks=4, pd=Data(max=1), cd=DD, large=(120,))
add(Variant(id="dolfin-tri", group="misc", fmt="dolfin-xml", ext=".xml", dom=Dom(types=("triangle",), **_dd), expect=dol_expect, cmp=Cmp(cast=True, ddtype="kind"), parse=parse_dol, quick=400))
add(Variant(id="dolfin-tet", group="misc", fmt="dolfin-xml", ext=".xml", dom=Dom(types=("tetra",), **_dd), expect=dol_expect, cmp=Cmp(cast=True, ddtype="kind"), parse=parse_dol, quick=300))
add(Variant(id="dolfin-dots", group="misc", fmt="dolfin-xml", ext=".v1+x(2).xml", dom=Dom(types=("tetra", "tetra", "triangle", "line"), **_dd),
            adjust=lambda p, rng: p if any(t in ("tetra", "triangle") for t, _ in p["cells"]) else dict(p, cells=[("triangle", np.tile([[0, 1, 2]], (len(c), 1))) for _, c in p["cells"]], points=np.ones((3, 3)), point_data={}),
            expect=dol_expect, cmp=Cmp(cast=True, ddtype="kind"), parse=parse_dol, quick=200))
