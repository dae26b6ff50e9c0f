"""Medit, Netgen, SU2, TetGen, UGRID: reference parsers and domains."""
from __future__ import annotations

import gzip
import re
import struct

import numpy as np

from .fmt_fem import mk
from .mesh import NN, TDIM, Cmp, Data, Dom, group_by_type, merge_adjacent, pad3, regroup, without
from .registry import Variant, add


def first_int(data, first):
    for k, v in data.items():
        if first(v).dtype.kind in "iu":
            return k
    return None


def refs(p, name, default=1):
    """first integer point/cell array under the format's own name, else ones"""
    q = dict(p)
    k = first_int(p["point_data"], lambda v: v)
    q["point_data"] = {name: p["point_data"][k] if k else np.full(len(p["points"]), default)}
    k = first_int(p["cell_data"], lambda v: v[0])
    q["cell_data"] = {name: p["cell_data"][k] if k else [np.full(len(c), default) for _, c in p["cells"]]}
    return q


RD = Data(dtypes=("i8", "i4", "i2", "u1", "u4", "i8", "f8"), shapes=((),), modes=("int", "unit", "special"), names=("a", "b", "medit:ref", "x y"))

# ------------------------------------------------------------------ Medit
MEDIT = {"Edges": "line", "Triangles": "triangle", "Quadrilaterals": "quad", "Tetrahedra": "tetra", "Prisms": "wedge", "Pyramids": "pyramid",
         "Hexahedra": "hexahedron"}


def parse_medit(path):
    tok = open(path).read().split()
    assert tok[0] == "MeshVersionFormatted" and tok[2] == "Dimension"
    ver, dim = int(tok[1]), int(tok[3])
    i = 4
    pts = pr = None
    cells, cr = [], []
    while tok[i] != "End":
        kw, n = tok[i], int(tok[i + 1])
        i += 2
        k = dim if kw == "Vertices" else NN[MEDIT[kw]]
        rows = [tok[i + r * (k + 1): i + (r + 1) * (k + 1)] for r in range(n)]
        i += n * (k + 1)
        if kw == "Vertices":
            pts = np.array([[float(x) for x in r[:-1]] for r in rows], dtype="f4" if ver == 1 else "f8")
            pr = np.array([int(r[-1]) for r in rows])
        else:
            a = np.array([[int(x) for x in r] for r in rows])
            cells.append((MEDIT[kw], a[:, :-1] - 1))
            cr.append(a[:, -1])
    assert i == len(tok) - 1
    return mk(pts, cells, {"medit:ref": pr}, {"medit:ref": cr})


MEDITB = {5: "line", 6: "triangle", 7: "quad", 8: "tetra", 9: "wedge", 10: "hexahedron", 49: "pyramid"}


def parse_meshb(path):
    b = open(path, "rb").read()
    code, ver, kw = struct.unpack_from("<3i", b, 0)
    assert code == 1 and ver in (3, 4) and kw == 3
    it = "<i8" if ver == 4 else "<i4"
    isz = 8 if ver == 4 else 4
    pos, dim = struct.unpack_from("<qi", b, 12)
    at = 24
    assert pos == at
    cells, cr = [], []
    while True:
        kw, nxt = struct.unpack_from("<iq", b, at)
        at += 12
        if kw == 54:
            assert nxt == 0 and at == len(b)
            break
        n = int(np.frombuffer(b, it, 1, at)[0])
        at += isz
        if kw == 4:
            dt = np.dtype([("x", "<f8", (dim,)), ("r", it)])
        else:
            dt = np.dtype([("x", it, (NN[MEDITB[kw]],)), ("r", it)])
        a = np.frombuffer(b, dt, n, at)
        at += n * dt.itemsize
        assert nxt == at, f"keyword {kw}: next position {nxt}, is {at}"
        if kw == 4:
            pts, pr = a["x"], a["r"]
        else:
            cells.append((MEDITB[kw], a["x"].astype("i8") - 1))
            cr.append(a["r"])
    return mk(pts, cells, {"medit:ref": pr}, {"medit:ref": cr})


def _clip53(p, rng):
    """references beyond 2**53 are out of domain: ASCII files store vertex references among floats"""
    q = dict(p)

    def c(a):
        return np.clip(a, -2**53, 2**53) if a.dtype.kind == "i" and a.dtype.itemsize == 8 else a

    q["point_data"] = {k: c(v) for k, v in p["point_data"].items()}
    q["cell_data"] = {k: [c(x) for x in v] for k, v in p["cell_data"].items()}
    return q


_md = dict(types=tuple(MEDIT.values()), dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u4", "i2"), max_blocks=6, pd=RD, cd=RD, large=(150,))
_me = (lambda p: refs(p, "medit:ref"))
add(Variant(id="medit", group="simple", fmt="medit", adjust=_clip53, ext=".mesh", dom=Dom(**_md), expect=_me, cmp=Cmp(pdtype="exact", ddtype="kind"), parse=parse_medit, quick=500))
add(Variant(id="medit-fmt", group="simple", fmt="medit", adjust=_clip53, ext=".mesh", kwargs={"float_fmt": ".6e"}, dom=Dom(**_md), expect=_me, cmp=Cmp(rtol=7e-7, bits=False), quick=60))
add(Variant(id="meshb", group="simple", fmt="medit", adjust=_clip53, ext=".meshb", dom=Dom(**_md), expect=_me, cmp=Cmp(cast=True, ddtype="kind"), parse=parse_meshb, quick=500))

# ------------------------------------------------------------------ Netgen
NG = {0: {1: "vertex"}, 1: {2: "line"}, 2: {3: "triangle", 6: "triangle6", 4: "quad", 8: "quad8"},
      3: {4: "tetra", 5: "pyramid", 6: "wedge", 8: "hexahedron", 10: "tetra10", 13: "pyramid13", 15: "wedge15", 20: "hexahedron20"}}
# meshio position -> Netgen position
NGP = {"triangle6": [0, 1, 2, 5, 3, 4], "quad8": [0, 1, 2, 3, 4, 7, 5, 6], "tetra": [0, 2, 1, 3], "tetra10": [0, 2, 1, 3, 5, 7, 4, 6, 9, 8],
       "pyramid": [0, 3, 2, 1, 4], "pyramid13": [0, 3, 2, 1, 4, 7, 6, 8, 5, 9, 12, 11, 10], "wedge": [0, 2, 1, 3, 5, 4],
       "wedge15": [0, 2, 1, 3, 5, 4, 7, 8, 6, 13, 14, 12, 9, 11, 10], "hexahedron": [0, 3, 2, 1, 4, 7, 6, 5],
       "hexahedron20": [0, 3, 2, 1, 4, 7, 6, 5, 10, 9, 11, 8, 16, 19, 18, 17, 14, 13, 15, 12]}


def parse_netgen(path):
    op = gzip.open if str(path).endswith(".gz") else open
    with op(path, "rt") as f:
        lines = [x.strip() for x in f]
    lines = [x for x in lines if x and not x.startswith("#")]
    assert lines[0] == "mesh3d"
    i = 1
    cells, cidx, names = [], [], {}
    info = {}
    while lines[i] != "endmesh":
        kw = lines[i]
        n = int(lines[i + 1])
        i += 2
        if kw == "dimension":
            dim = n
            continue
        if kw == "geomtype":
            continue
        if kw == "identificationtypes":
            info["types"] = [int(x) for x in lines[i].split()]
            assert len(info["types"]) == n
            i += 1
            continue
        rows = [x.split() for x in lines[i:i + n]]
        i += n
        if kw == "points":
            a = np.array([[float(x) for x in r] for r in rows]).reshape(n, 3)
            assert (a[:, dim:] == 0).all()
            pts = a[:, :dim]
        elif kw == "identifications":
            info["ident"] = [[int(x) for x in r] for r in rows]
        elif kw in ("materials", "bcnames", "cd2names", "cd3names"):
            d = dim - ["materials", "bcnames", "cd2names", "cd3names"].index(kw)
            for k, r in enumerate(rows):
                assert int(r[0]) == k + 1
                if len(r) > 1:
                    names[r[1]] = np.array([k + 1, d])
        else:
            cd = {"pointelements": 0, "edgesegmentsgi2": 1, "surfaceelements": 2, "volumeelements": 3}[kw]
            for r in rows:
                r = [int(x) for x in r]
                if cd == 0:
                    idx, pi = r[1], r[:1]
                    assert len(r) == 2
                elif cd == 1:
                    idx, pi = r[0], r[2:4]
                    assert len(r) == 12
                elif cd == 2:
                    idx, pi = r[1], r[5:]
                    assert r[4] == len(pi)
                else:
                    idx, pi = r[0], r[2:]
                    assert r[1] == len(pi)
                t = NG[cd][len(pi)]
                pi = [pi[k] - 1 for k in NGP.get(t, range(len(pi)))]
                if not cells or cells[-1][0] != t:
                    cells.append((t, []))
                    cidx.append([])
                cells[-1][1].append(pi)
                cidx[-1].append(idx)
    assert i == len(lines) - 1
    out = mk(pts, [(t, np.array(c)) for t, c in cells], {}, {"netgen:index": [np.array(x) for x in cidx]})
    out["field_data"] = names
    out["info"] = info
    return ng_post(out)


def ng_post(g):
    """generic default names are not claimed"""
    q = dict(g)
    q["field_data"] = {k: np.asarray(v) for k, v in g["field_data"].items() if not re.fullmatch(r"cd\d_-?\d+", k)}
    return q


def ng_expect(p):
    q = dict(p)
    cd = p["cell_data"]
    k = "netgen:index" if "netgen:index" in cd else first_int(cd, lambda v: v[0])
    q["cell_data"] = {"netgen:index": cd[k] if k else [np.ones(len(c), int) for _, c in p["cells"]]}
    q = without(q, "point_data")
    order = [i for d in (2, 3, 1, 0) for i, (t, _) in enumerate(p["cells"]) if TDIM[t] == d]
    return merge_adjacent(regroup(q, [[i] for i in order]))


def ng_adjust(p, rng):
    q = dict(p)
    cd = dict(p["cell_data"])
    if "netgen:index" in cd and cd["netgen:index"][0].dtype.kind == "f":
        cd["netgen:index"] = [np.rint(v).astype(int) for v in cd["netgen:index"]]
    # Netgen's indices are 1-based
    cd = {k: [np.maximum(x, 1) for x in v] if v[0].dtype.kind in "iu" else v for k, v in cd.items()}
    q["cell_data"] = cd
    if rng.random() < 0.4:
        dim = p["points"].shape[1]
        fd = {}
        pool = [f"{a}{b}" for a in ("inner", "wall_", "x-") for b in range(4)]
        for d in range(dim + 1):
            if rng.random() < 0.6:
                for idx in rng.permutation(5)[: rng.integers(1, 4)]:
                    fd[pool.pop(int(rng.integers(len(pool))))] = np.array([int(idx) + 1, d])
        q["field_data"] = fd
    return q


_ngd = dict(types=tuple(t for d in NG.values() for t in d.values()), dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u4"), max_blocks=7, max_extra=3,
            cd=Data(dtypes=("i4", "i8", "u1", "f8"), shapes=((),), modes=("int", "unit"), names=("netgen:index", "a", "b")), large=(120,))
for _id, _e, _q in (("netgen", ".vol", 500), ("netgen-gz", ".vol.gz", 100)):
    add(Variant(id=_id, group="simple", fmt="netgen", ext=_e, dom=Dom(**_ngd), adjust=ng_adjust, expect=ng_expect, post=ng_post,
                cmp=Cmp(cast=True, field_data=True), parse=parse_netgen, quick=_q))
add(Variant(id="netgen-fmt", group="simple", fmt="netgen", ext=".vol", kwargs={"float_fmt": ".6e"}, dom=Dom(**_ngd), adjust=ng_adjust, expect=ng_expect, post=ng_post,
            cmp=Cmp(rtol=7e-7, cast=True, bits=False, field_data=True), quick=60))

# ------------------------------------------------------------------ SU2
SU2 = {3: "line", 5: "triangle", 9: "quad", 10: "tetra", 12: "hexahedron", 13: "wedge", 14: "pyramid"}
SU2I = {v: k for k, v in SU2.items()}


def su2_parts(p):
    dim = p["points"].shape[1]
    inner = ("triangle", "quad") if dim == 2 else ("tetra", "hexahedron", "wedge", "pyramid")
    outer = ("line",) if dim == 2 else ("triangle", "quad")
    return inner, outer


def su2_tags(p):
    k = first_int(p["cell_data"], lambda v: v[0])
    return p["cell_data"][k] if k else [np.ones(len(c), int) for _, c in p["cells"]]


def su2_order(p):
    """(type, connectivity, tag) in file order, inner cells tagged None"""
    inner, outer = su2_parts(p)
    tags = su2_tags(p)
    out = [(t, row, None) for t, c in p["cells"] if t in inner for row in c]
    marked = {}  # in the order in which the markers are written
    for (t, c), tg in zip(p["cells"], tags):
        if t in outer:
            tg = np.asarray(tg)
            for x in np.unique(tg):
                marked.setdefault(int(x), [])
            for i in np.argsort(tg, kind="stable"):
                marked[int(tg[i])].append((t, c[i], int(tg[i])))
    for x in marked.values():
        out += x
    return out


def su2_expect(p):
    cells, tags = {}, {}
    rows = su2_order(p)
    inner = sorted({t for t, _, x in rows if x is None}, key=lambda t: SU2I[t])
    outer = []
    # boundary: per marker, per type in the order of the type codes
    seq = {}
    for t, _, x in rows:
        if x is not None:
            seq.setdefault(x, set()).add(t)
    for x, ts in seq.items():
        for t in sorted(ts, key=lambda t: SU2I[t]):
            if t not in outer:
                outer.append(t)
    for t, row, x in rows:
        cells.setdefault(t, []).append(row)
        tags.setdefault(t, []).append(0 if x is None else x)
    ts = inner + outer
    return mk(p["points"], [(t, np.array(cells[t])) for t in ts], {}, {"su2:tag": [np.array(tags[t]) for t in ts]})


def parse_su2(path):
    """-> rows in file order"""
    lines = [x.strip() for x in open(path)]
    lines = [x for x in lines if x and not x.startswith("%")]
    i = 0
    rows, nmark, tag, found = [], None, None, 0
    while i < len(lines):
        k, v = (x.strip() for x in lines[i].split("="))
        i += 1
        if k == "NDIME":
            dim = int(v)
        elif k == "NPOIN":
            pts = np.array([[float(x) for x in ln.split()] for ln in lines[i:i + int(v)]])
            assert pts.shape == (int(v), dim)
            i += int(v)
        elif k in ("NELEM", "MARKER_ELEMS"):
            for ln in lines[i:i + int(v)]:
                w = [int(x) for x in ln.split()]
                t = SU2[w[0]]
                assert len(w) == NN[t] + 1
                rows.append((t, w[1:], None if k == "NELEM" else tag))
            i += int(v)
        elif k == "NMARK":
            nmark = int(v)
        elif k == "MARKER_TAG":
            tag = int(v)
            found += 1
        else:
            raise AssertionError(k)
    assert nmark == found
    return su2_rows(pts, rows)


def su2_rows(pts, rows):
    # one block per run of equal type
    cells, tags = [], []
    for t, r, x in rows:
        if not cells or cells[-1][0] != t:
            cells.append((t, []))
            tags.append([])
        cells[-1][1].append([int(y) for y in r])
        tags[-1].append(-99999 if x is None else x)
    return mk(pts, [(t, np.array(c)) for t, c in cells], {}, {"su2:tag": [np.array(x) for x in tags]})


SD = Data(dtypes=("i4", "u1", "i8", "f8"), shapes=((),), modes=("int", "int", "unit", "special"), names=("su2:tag", "a", "b"))
for _d, _t in ((2, ("triangle", "quad", "line")), (3, ("tetra", "hexahedron", "wedge", "pyramid", "triangle", "quad"))):
    add(Variant(id=f"su2-{_d}d", group="simple", fmt="su2", ext=".su2",
                dom=Dom(types=_t, dims=(_d,), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u4"), max_blocks=7, cd=SD, large=(120,)),
                expect=su2_expect, cmp=Cmp(cast=True), parse=parse_su2, parse_expect=lambda p: su2_rows(p["points"], su2_order(p)), quick=400))

# ------------------------------------------------------------------ TetGen


def tet_expect(p):
    ids = [i for i, (t, _) in enumerate(p["cells"]) if t == "tetra"]
    pd = {}
    keys = list(p["point_data"])
    ref = [k for k in keys if ":ref" in k][:1] or keys[:1]
    for i, k in enumerate([k for k in keys if k not in ref]):
        pd[f"tetgen:attr{i + 1}"] = p["point_data"][k]
    for k in ref:
        pd["tetgen:ref"] = p["point_data"][k]
    keys = list(p["cell_data"])
    ref = [k for k in keys if ":ref" in k][:1]
    keys = ref + [k for k in keys if k not in ref]
    cd = {}
    for i, k in enumerate(keys):
        cd["tetgen:ref" + ("" if i == 0 else str(i + 1))] = [np.concatenate([np.zeros(0, p["cell_data"][k][0].dtype)] + [p["cell_data"][k][j] for j in ids])]
    c = np.concatenate([np.zeros((0, 4), int)] + [p["cells"][i][1] for i in ids])
    return mk(p["points"], [("tetra", c)], pd, cd)


def _tetrows(path):
    lines = [x.strip() for x in open(path)]
    lines = [x for x in lines if x and not x.startswith("#")]
    return [x.split() for x in lines]


def parse_tetgen(path):
    stem = re.sub(r"\.(node|ele)$", "", str(path))
    r = _tetrows(stem + ".node")
    n, dim, na, nb = (int(x) for x in r[0])
    assert dim == 3 and len(r) == n + 1 and nb <= 1 and all(len(x) == 4 + na + nb for x in r[1:])
    base = int(r[1][0])
    assert [int(x[0]) for x in r[1:]] == list(range(base, base + n))
    a = np.array([[float(y) for y in x[1:]] for x in r[1:]])
    pd = {f"tetgen:attr{k + 1}": a[:, 3 + k] for k in range(na)}
    if nb:
        pd["tetgen:ref"] = a[:, 3 + na]
    r = _tetrows(stem + ".ele")
    m, k4, na = (int(x) for x in r[0])
    assert k4 == 4 and len(r) == m + 1 and all(len(x) == 5 + na for x in r[1:])
    assert [int(x[0]) for x in r[1:]] == list(range(base, base + m))
    c = np.array([[int(y) - base for y in x[1:5]] for x in r[1:]], dtype=int).reshape(m, 4)
    cd = {"tetgen:ref" + ("" if k == 0 else str(k + 1)): [np.array([float(x[5 + k]) for x in r[1:]])] for k in range(na)}
    return mk(a[:, :3], [("tetra", c)], pd, cd)


TD = Data(dtypes=("f8", "f8", "i4", "f4", "i2"), shapes=((),), modes=("int", "unit", "wide", "special"), names=("a", "b", "tetgen:ref", "tetgen:attr1", "medit:ref"))
for _e, _q in ((".node", 400), (".ele", 200)):
    add(Variant(id="tetgen" + _e, group="simple", fmt="tetgen", ext=_e,
                dom=Dom(types=("tetra", "tetra", "triangle", "line"), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u4"), max_blocks=5, pd=TD, cd=TD, large=(150,)),
                expect=tet_expect, cmp=Cmp(cast=True, bits=False), parse=parse_tetgen, siblings=(".node", ".ele"), quick=_q))

# ------------------------------------------------------------------ UGRID
UG = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
UGF = {"b8l": (">", "f8", "i8", 0), "b8": (">", "f8", "i4", 0), "b4": (">", "f4", "i4", 0), "lb8l": ("<", "f8", "i8", 0), "lb8": ("<", "f8", "i4", 0),
       "lb4": ("<", "f4", "i4", 0), "r8": (">", "f8", "i4", 1), "r4": (">", "f4", "i4", 1), "lr8": ("<", "f8", "i4", 1), "lr4": ("<", "f4", "i4", 1)}


def parse_ugrid(path, kind):
    if kind == "ascii":
        tok = open(path).read().split()
        pos = [0]

        def take(n, k):
            w = tok[pos[0]:pos[0] + n]
            assert len(w) == n
            pos[0] += n
            return np.array([float(x) if k == "f" else int(x) for x in w])

        def end():
            assert pos[0] == len(tok)
    else:
        e, ft, it, fortran = UGF[kind]
        b = open(path, "rb").read()
        if fortran:  # two records
            recs, at = [], 0
            for _ in range(2):
                (n,) = struct.unpack_from(e + "i", b, at)
                recs.append(b[at + 4:at + 4 + n])
                assert struct.unpack_from(e + "i", b, at + 4 + n)[0] == n, "record marks"
                at += 8 + n
            assert at == len(b), "record lengths"
            assert len(recs[0]) == 28
            b = b"".join(recs)
        pos = [0]

        def take(n, k):
            dt = np.dtype(e + (ft if k == "f" else it))
            a = np.frombuffer(b, dt, n, pos[0])
            pos[0] += n * dt.itemsize
            return a.astype(dt.newbyteorder("="))

        def end():
            assert pos[0] == len(b)
    n = [int(x) for x in take(7, "i")]
    pts = take(3 * n[0], "f").reshape(-1, 3)
    cells, ref = [], []
    for t, m in zip(UG[:2], n[1:3]):
        if m:
            cells.append((t, take(m * NN[t], "i").reshape(m, -1) - 1))
    for m in n[1:3]:
        if m:
            ref.append(take(m, "i"))
    for t, m in zip(UG[2:], n[3:]):
        if m:
            a = take(m * NN[t], "i").reshape(m, -1) - 1
            if t == "pyramid":
                a = a[:, [1, 0, 3, 4, 2]]
            cells.append((t, a))
            ref.append(np.zeros(m, int))
    end()
    return mk(pts, [(t, c.astype("i8")) for t, c in cells], {}, {"ugrid:ref": ref})


def ug_expect(p):
    q = refs(pad3(p), "ugrid:ref")
    q["point_data"] = {}
    q = group_by_type(q, UG)
    q["cell_data"] = {"ugrid:ref": [v if t in UG[:2] else np.zeros(len(c), int) for v, (t, c) in zip(q["cell_data"]["ugrid:ref"], q["cells"])]}
    return q


UD = Data(dtypes=("i4", "i2", "u1", "f8"), shapes=((),), modes=("int", "unit", "special"), names=("a", "ugrid:ref", "b"))
for _k in ["ascii", *UGF]:
    _f4 = _k != "ascii" and UGF[_k][1] == "f4"
    add(Variant(id="ugrid-" + _k, group="simple", fmt="ugrid", ext=(".ugrid" if _k == "ascii" else f".{_k}.ugrid"),
                dom=Dom(types=tuple(UG), dims=(3, 2), pdt=("f4",) if _f4 else ("f8", "f8", "f4"), idt=("i8", "i4", "u4"), unique=True, max_blocks=6, pd=UD, cd=UD, large=(150,)),
                expect=ug_expect, cmp=Cmp(cast=True), parse=lambda path, k=_k: parse_ugrid(path, k), quick=200 if _k == "ascii" else 100))
