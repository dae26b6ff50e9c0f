"""Gmsh MSH 2.2 / 4.0 / 4.1: reference parser, reference ("foreign") writer, domains."""
from __future__ import annotations

import struct

import numpy as np

from .mesh import NN, TDIM, Cmp, Data, Dom, chars, merge_adjacent, pad3, regroup, tagval
from .registry import Variant, add

# element type numbers, Gmsh reference manual, "MSH file format"
GT = {
    1: "line", 2: "triangle", 3: "quad", 4: "tetra", 5: "hexahedron", 6: "wedge", 7: "pyramid",
    8: "line3", 9: "triangle6", 10: "quad9", 11: "tetra10", 12: "hexahedron27", 13: "wedge18",
    14: "pyramid14", 15: "vertex", 16: "quad8", 17: "hexahedron20", 18: "wedge15", 19: "pyramid13",
    21: "triangle10", 23: "triangle15", 25: "triangle21", 26: "line4", 27: "line5", 28: "line6",
    29: "tetra20", 30: "tetra35", 31: "tetra56", 36: "quad16", 37: "quad25", 38: "quad36",
    92: "hexahedron64", 93: "hexahedron125", 90: "wedge40", 91: "wedge75",
    42: "triangle28", 47: "quad49", 62: "line7", 63: "line8", 71: "tetra84", 94: "hexahedron216",
    43: "triangle36", 48: "quad64", 64: "line9", 65: "line10", 66: "line11", 106: "wedge126",
}
GN = {v: k for k, v in GT.items()}


def _mid(edges, faces=()):
    return [frozenset(e) for e in edges] + [frozenset(f) for f in faces]


def _perm(nv, vtk, gm):
    """meshio column i <- gmsh column perm[i]"""
    return list(range(nv)) + [nv + gm.index(x) for x in vtk]


_HEXE_G = [(0, 1), (0, 3), (0, 4), (1, 2), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 7), (5, 6), (6, 7)]
_HEXE_V = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
_ZM, _ZP, _YM, _YP, _XM, _XP = (0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 4, 5), (2, 3, 6, 7), (0, 3, 4, 7), (1, 2, 5, 6)
FROM_GMSH = {
    "tetra10": _perm(4, _mid([(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]),
                     _mid([(0, 1), (1, 2), (2, 0), (0, 3), (2, 3), (1, 3)])),
    "hexahedron20": _perm(8, _mid(_HEXE_V), _mid(_HEXE_G)),
    "hexahedron27": _perm(8, _mid(_HEXE_V, [_XM, _XP, _YM, _YP, _ZM, _ZP]),
                          _mid(_HEXE_G, [_ZM, _YM, _XM, _XP, _YP, _ZP])) + [26],
    "wedge15": _perm(6, _mid([(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]),
                     _mid([(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)])),
    "pyramid13": _perm(5, _mid([(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)]),
                       _mid([(0, 1), (0, 3), (0, 4), (1, 2), (1, 4), (2, 3), (2, 4), (3, 4)])),
}


def to_meshio_order(t, c):
    return c[:, FROM_GMSH[t]] if t in FROM_GMSH else c


def to_gmsh_order(t, c):
    if t not in FROM_GMSH:
        return c
    out = np.empty_like(c)
    out[:, FROM_GMSH[t]] = c
    return out


# ------------------------------------------------------------------ reference parser


class _S:
    """A section body, read as ASCII tokens or binary values."""

    def __init__(self, b, pos, binary):
        self.b, self.pos, self.bin = b, pos, binary

    def line(self):
        e = self.b.index(b"\n", self.pos)
        s = self.b[self.pos:e].decode()
        self.pos = e + 1
        return s

    def get(self, dt, n):
        dt = np.dtype(dt)
        if self.bin:
            out = np.frombuffer(self.b, dt, n, self.pos)
            self.pos += n * dt.itemsize
            return out
        out = []
        while len(out) < n:
            while self.b[self.pos:self.pos + 1].isspace():
                self.pos += 1
            e = self.pos
            while e < len(self.b) and not self.b[e:e + 1].isspace():
                e += 1
            tok = self.b[self.pos:e].decode()
            assert tok and tok[0] != "$", f"token {tok!r}"
            out.append(float(tok) if dt.kind == "f" else int(tok))
            self.pos = e
        return np.array(out, dtype=dt)

    def end(self, name):
        rest = self.b[self.pos:]
        assert rest.lstrip()[: len(name) + 4] == b"$End" + name.encode(), rest[:40]
        self.pos += rest.index(b"$End" + name.encode()) + len(name) + 4
        nl = self.b.find(b"\n", self.pos)
        self.pos = len(self.b) if nl < 0 else nl + 1


def parse_msh(path, version, binary):
    with open(path, "rb") as f:
        b = f.read()
    s = _S(b, 0, False)
    assert s.line().strip() == "$MeshFormat"
    v, ft, ds = s.line().split()
    assert v == version and int(ft) == int(binary) and int(ds) == 8, (v, ft, ds)
    if binary:
        assert struct.unpack_from("=i", b, s.pos)[0] == 1
        s.pos += 4
    s.end("MeshFormat")
    r = {"names": {}, "data": {"NodeData": {}, "ElementData": {}}, "periodic": None, "entities": None}
    while s.pos < len(b):
        h = s.line().strip()
        if not h:
            continue
        assert h[0] == "$", h
        h = h[1:]
        if h == "PhysicalNames":
            for _ in range(int(s.line())):
                d, n, name = s.line().split(" ", 2)
                assert name[0] == name[-1] == '"'
                r["names"][name[1:-1]] = np.array([int(n), int(d)])
        elif h in ("NodeData", "ElementData"):
            st = [s.line() for _ in range(int(s.line()))]
            rt = [float(s.line()) for _ in range(int(s.line()))]  # noqa: F841
            it = [int(s.line()) for _ in range(int(s.line()))]
            k, n = it[1], it[2]
            s.bin = binary
            if binary:
                a = s.get(np.dtype([("i", "i4"), ("x", "f8", (k,))]), n)
                ix, x = a["i"], a["x"]
            else:
                a = s.get("f8", n * (1 + k)).reshape(n, 1 + k)
                ix, x = a[:, 0].astype(int), a[:, 1:]
            s.bin = False
            name = st[0].strip().strip('"')
            assert name not in r["data"][h]
            r["data"][h][name] = (ix, x)
        else:
            s.bin = binary
            {"2.2": _p22, "4.0": _p40, "4.1": _p41}[version](h, s, r)
            s.bin = False
        s.end(h)
    return finish_msh(r, version)


def _p22(h, s, r):
    b, s.bin = s.bin, False
    n = int(s.line())
    s.bin = b
    if h == "Nodes":
        if b:
            a = s.get(np.dtype([("i", "i4"), ("x", "f8", (3,))]), n)
            r["ntags"], r["pts"] = a["i"], a["x"]
        else:
            a = s.get("f8", 4 * n).reshape(n, 4)
            r["ntags"], r["pts"] = a[:, 0].astype(int), a[:, 1:]
    elif h == "Elements":
        r["els"] = []  # (type, elem tag, [tags], nodes)
        while len(r["els"]) < n:
            if b:
                et, m, nt = (int(x) for x in s.get("i4", 3))
                t = GT[et]
                a = s.get("i4", m * (1 + nt + NN[t])).reshape(m, -1)
                r["els"] += [(t, int(x[0]), x[1:1 + nt].tolist(), x[1 + nt:].tolist()) for x in a]
            else:
                i, et, nt = (int(x) for x in s.get("i8", 3))
                tags = s.get("i8", nt).tolist()
                r["els"].append((GT[et], i, tags, s.get("i8", NN[GT[et]]).tolist()))
        assert len(r["els"]) == n
    elif h == "Periodic":
        s.bin = False  # always text in 2.2
        r["periodic"] = []
        for _ in range(n):
            d, a, m = (int(x) for x in s.line().split())
            line = s.line()
            aff = None
            if line.startswith("Affine"):
                aff = np.array([float(x) for x in line.split()[1:]])
                line = s.line()
            sm = np.array([[int(x) for x in s.line().split()] for _ in range(int(line))]).reshape(-1, 2)
            r["periodic"].append((d, (a, m), aff, sm))
        s.bin = b
    else:
        raise AssertionError(h)


def _p40(h, s, r):
    if h == "Nodes":
        nb, n = (int(x) for x in s.get("u8", 2))
        r["ntags"], r["pts"] = [], []
        for _ in range(nb):
            _tag, _dim, _par = s.get("i4", 3)
            m = int(s.get("u8", 1)[0])
            for _ in range(m):
                r["ntags"].append(int(s.get("i4", 1)[0]))
                r["pts"].append(s.get("f8", 3))
        assert len(r["ntags"]) == n
        r["pts"] = np.array(r["pts"])
    elif h == "Elements":
        nb, n = (int(x) for x in s.get("u8", 2))
        r["els"] = []
        r["blocks"] = []
        for k in range(nb):
            tag, dim, et = (int(x) for x in s.get("i4", 3))
            m = int(s.get("u8", 1)[0])
            t = GT[et]
            assert TDIM[t] == dim
            for _ in range(m):
                a = s.get("i4", 1 + NN[t]).tolist()
                r["els"].append((t, a[0], [0, tag], a[1:]))
            r["blocks"].append(m)
        assert len(r["els"]) == n
    elif h == "Periodic":
        r["periodic"] = []
        (n,) = s.get("i4", 1)
        for _ in range(n):
            d, a, m = (int(x) for x in s.get("i4", 3))
            aff = None
            if s.bin:
                k = int(s.get("i8", 1)[0])
                if k < 0:
                    aff = s.get("f8", 16)
                    k = int(s.get("u8", 1)[0])
            else:
                while s.b[s.pos:s.pos + 1].isspace():
                    s.pos += 1
                if s.b[s.pos:s.pos + 6] == b"Affine":
                    s.pos += 6
                    aff = s.get("f8", 16)
                k = int(s.get("i8", 1)[0])
            r["periodic"].append((d, (a, m), aff, s.get("i4", 2 * k).reshape(-1, 2)))
    else:
        raise AssertionError(h)


def _p41(h, s, r):
    if h == "Entities":
        cnt = [int(x) for x in s.get("u8", 4)]
        r["entities"] = {}
        for d, n in enumerate(cnt):
            for _ in range(n):
                tag = int(s.get("i4", 1)[0])
                s.get("f8", 3 if d == 0 else 6)
                ph = s.get("i4", int(s.get("u8", 1)[0])).tolist()
                bd = s.get("i4", int(s.get("u8", 1)[0])).tolist() if d else None
                assert (d, tag) not in r["entities"]
                r["entities"][d, tag] = (ph, bd)
    elif h == "Nodes":
        nb, n, lo, hi = (int(x) for x in s.get("u8", 4))
        r["ntags"], r["pts"], r["dt"] = [], np.zeros((0, 3)), []
        for _ in range(nb):
            d, tag, par = (int(x) for x in s.get("i4", 3))
            assert par == 0
            m = int(s.get("u8", 1)[0])
            r["ntags"] += s.get("u8", m).tolist()
            r["pts"] = np.concatenate([r["pts"], s.get("f8", 3 * m).reshape(m, 3)])
            r["dt"] += [(d, tag)] * m
        assert len(r["ntags"]) == n and min(r["ntags"]) == lo and max(r["ntags"]) == hi
    elif h == "Elements":
        nb, n, lo, hi = (int(x) for x in s.get("u8", 4))
        r["els"], r["blocks"], r["bent"] = [], [], []
        for _ in range(nb):
            d, tag, et = (int(x) for x in s.get("i4", 3))
            m = int(s.get("u8", 1)[0])
            t = GT[et]
            assert TDIM[t] == d
            a = s.get("u8", m * (1 + NN[t])).reshape(m, -1).astype("i8")
            ph = []
            if r["entities"] is not None:
                assert (d, tag) in r["entities"], f"element entity {(d, tag)} not in $Entities"
                ph = r["entities"][d, tag][0]
            r["els"] += [(t, int(x[0]), [ph[0] if ph else 0, tag], x[1:].tolist()) for x in a]
            r["blocks"].append(m)
            r["bent"].append((d, tag))
        assert len(r["els"]) == n
        assert min(e[1] for e in r["els"]) == lo and max(e[1] for e in r["els"]) == hi
    elif h == "Periodic":
        r["periodic"] = []
        for _ in range(int(s.get("u8", 1)[0])):
            d, a, m = (int(x) for x in s.get("i4", 3))
            aff = s.get("f8", int(s.get("u8", 1)[0]))
            k = int(s.get("u8", 1)[0])
            r["periodic"].append((d, (a, m), aff if len(aff) else None, s.get("u8", 2 * k).reshape(-1, 2)))
    else:
        raise AssertionError(h)


def finish_msh(r, version):
    """Tags resolved; points in file order."""
    n = len(r["ntags"])
    idx = {int(t): i for i, t in enumerate(r["ntags"])}
    assert len(idx) == n, "node tags not unique"
    eid = {e[1]: i for i, e in enumerate(r["els"])}
    assert len(eid) == len(r["els"]), "element tags not unique"
    assert all(t > 0 for t in idx) and all(t > 0 for t in eid), "tags must be positive"
    sizes = r.get("blocks")
    if sizes is None:
        sizes = []
        for i, e in enumerate(r["els"]):
            if i and e[0] == r["els"][i - 1][0]:
                sizes[-1] += 1
            else:
                sizes.append(1)
    cells, o, spl = [], 0, []
    for m in sizes:
        es = r["els"][o:o + m]
        t = es[0][0]
        c = np.array([[idx[x] for x in e[3]] for e in es])
        cells.append((t, to_meshio_order(t, c)))
        spl.append((o, o + m))
        o += m
    cd = {}
    nt = min(len(e[2]) for e in r["els"])
    for j, k in ((0, "gmsh:physical"), (1, "gmsh:geometrical")):
        if nt > j:
            cd[k] = [np.array([e[2][j] for e in r["els"][a:b]]) for a, b in spl]
    for k, (ix, x) in r["data"]["ElementData"].items():
        assert sorted(ix.tolist()) == sorted(eid), "ElementData tags"
        a = np.empty_like(x)
        a[[eid[int(i)] for i in ix]] = x
        a = a[:, 0] if a.shape[1] == 1 else a
        cd[k] = [a[i:j] for i, j in spl]
    pd = {}
    for k, (ix, x) in r["data"]["NodeData"].items():
        assert sorted(ix.tolist()) == sorted(idx), "NodeData tags"
        a = np.empty_like(x)
        a[[idx[int(i)] for i in ix]] = x
        pd[k] = a[:, 0] if a.shape[1] == 1 else a
    if "dt" in r:
        pd["gmsh:dim_tags"] = np.array(r["dt"])
    per = None
    if r["periodic"] is not None:
        per = [(d, tg, aff, np.array([[idx[int(x)] for x in q] for q in sm]).reshape(-1, 2))
               for d, tg, aff, sm in r["periodic"]]
    out = {"points": np.asarray(r["pts"], float).reshape(-1, 3), "cells": cells, "point_data": pd, "cell_data": cd,
           "field_data": r["names"], "point_sets": {}, "cell_sets": {}, "periodic": per}
    if r["entities"] is not None:
        out["cell_sets"]["gmsh:bounding_entities"] = [
            None if r["entities"][q][1] is None else np.array(r["entities"][q][1], int) for q in r["bent"]]
        for k, (num, dim) in r["names"].items():
            out["cell_sets"][k] = [
                np.arange(m) if d == dim and num in r["entities"][d, t][0] else np.zeros(0, int)
                for m, (d, t) in zip(r["blocks"], r["bent"])]
    elif version == "4.1":
        for k in r["names"]:
            out["cell_sets"][k] = [np.zeros(0, int) for _ in r["blocks"]]
    return out


# ------------------------------------------------------------------ domains

GTYPES = ("vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3", "triangle6",
          "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27", "wedge15", "pyramid13", "line4", "triangle10",
          "quad16", "tetra20", "hexahedron64", "wedge40", "triangle15", "tetra35")
GBIG = tuple(t for t in GN if t not in GTYPES)
GDATA = Data(dtypes=("f8", "f8", "f4", "i4", "u1"), shapes=((), (), (3,), (9,), (1,)), modes=("int", "unit", "special"),
             names=("a", "u", "temp", "B2", "vel x", "Z", "disp", "p&q", "name2", "[/b]", "k[0]"), chars=chars('"', " "))
PNAMES = ("inflow", "wall", "Omega 1", "top_side", "x", "name with  two blanks", "a-b.c")


def _sq(p):
    """(n, 1) data cannot be told from (n,) data; all data are doubles."""
    q = dict(p)
    q["point_data"] = {k: (v[:, 0] if v.ndim == 2 and v.shape[1] == 1 else v) for k, v in p["point_data"].items()}
    q["cell_data"] = {k: [x[:, 0] if x.ndim == 2 and x.shape[1] == 1 else x for x in v] for k, v in p["cell_data"].items()}
    return q


def names_for(rng, present):
    """field_data: physical names; present: list of (num, dim)"""
    fd = {}
    pool = [tuple(x) for x in present] + [(77, 2), (5, 3), (1077, 2), (1029, 2)]
    for k in rng.permutation(len(PNAMES))[: rng.integers(0, 4)]:
        if not pool:
            break
        fd[PNAMES[k]] = np.array(pool.pop(int(rng.integers(0, len(pool)))))
    return fd


def adj22(p, rng):
    q = dict(p)
    q["cell_data"] = dict(p["cell_data"])
    if rng.random() < 0.6:
        q["cell_data"]["gmsh:physical"] = [np.array([tagval(rng, 0, 5) for _ in c], dtype=int) for _, c in p["cells"]]
    if rng.random() < 0.6:
        q["cell_data"]["gmsh:geometrical"] = [np.array([tagval(rng, 0, 9) for _ in c], dtype="i4") for _, c in p["cells"]]
    q["field_data"] = names_for(rng, sorted({(int(x), TDIM[t]) for (t, _), a in
                                             zip(p["cells"], q["cell_data"].get("gmsh:physical", [])) for x in a if x}))
    q["periodic"] = periodic_for(rng, len(p["points"]))
    return q


def periodic_for(rng, n):
    if rng.random() < 0.6:
        return None
    out = []
    for _ in range(rng.integers(1, 3)):
        k = int(rng.integers(1, min(n, 4) + 1))
        out.append([int(rng.integers(0, 3)), (tagval(rng, 1), tagval(rng, 1)),
                    None if rng.random() < 0.5 else rng.uniform(-1, 1, 16),
                    np.column_stack([rng.permutation(n)[:k], rng.permutation(n)[:k]])])
    return out


def exp22(p):
    q = dict(pad3(p))
    q["cell_data"] = dict(p["cell_data"])
    for k in ("gmsh:physical", "gmsh:geometrical"):
        if k not in q["cell_data"]:
            q["cell_data"][k] = [np.zeros(len(c), int) for _, c in p["cells"]]
    return _sq(merge_adjacent(q))


def exp40(p):
    q = dict(pad3(p))
    return _sq(q)


def adj41(p, rng):
    q = dict(p)
    q["cell_data"] = dict(p["cell_data"])
    q["point_data"] = dict(p["point_data"])
    n = len(p["points"])
    q["periodic"] = periodic_for(rng, n)
    if len(p["cells"]) == 1 and rng.random() < 0.4:
        q["field_data"] = names_for(rng, [])
        return q
    ents, tags = [], []
    for t, _ in p["cells"]:
        d = TDIM[t]
        while True:
            e = (d, tagval(rng, 1, 12))
            if e not in ents:
                break
        ents.append(e)
    pool = list(ents) + [(int(rng.integers(0, 4)), tagval(rng, 1, 15)) for _ in range(rng.integers(0, 4))]
    if rng.random() < 0.3:
        pool = pool[int(rng.integers(0, len(pool))):]  # entities without nodes of their own
    dt = np.array([pool[int(i)] for i in rng.integers(0, len(pool), n)])
    if rng.random() < 0.3:
        dt = dt[np.lexsort((dt[:, 1], dt[:, 0]))]
    q["point_data"]["gmsh:dim_tags"] = dt
    q["cell_data"]["gmsh:geometrical"] = [np.full(len(c), e[1]) for (_, c), e in zip(p["cells"], ents)]
    if rng.random() < 0.7:
        lo = 0 if rng.random() < 0.5 else 1
        ph = np.array([tagval(rng, lo, 5) for _ in ents], dtype=int)
        if rng.random() < 0.3:  # a negative tag is that of an entity with reversed orientation
            ph = np.where(rng.random(len(ph)) < 0.5, -ph, ph)
        q["cell_data"]["gmsh:physical"] = [np.full(len(c), x) for (_, c), x in zip(p["cells"], ph)]
        tags = sorted({(int(x), e[0]) for x, e in zip(ph, ents) if x})
    q["field_data"] = names_for(rng, tags)
    if rng.random() < 0.5:
        q["cell_sets"] = {"gmsh:bounding_entities": [
            None if e[0] == 0 else rng.integers(-9, 10, rng.integers(0, 4)).astype("i4") for e in ents]}
    return q


def exp41(p):
    q = dict(pad3(p))
    ents = None
    if "gmsh:dim_tags" in p["point_data"]:
        dt = np.asarray(p["point_data"]["gmsh:dim_tags"])
        order = np.lexsort((np.arange(len(dt)), dt[:, 1], dt[:, 0]))
        ents = [(TDIM[t], int(g[0])) for (t, _), g in zip(p["cells"], p["cell_data"].get("gmsh:geometrical", []))]
    else:
        order = np.arange(len(p["points"]))
        dt = np.tile([[TDIM[p["cells"][0][0]], 0]], (len(order), 1))
    inv = np.argsort(order)
    q["points"] = q["points"][order]
    q["cells"] = [(t, inv[c]) for t, c in p["cells"]]
    q["point_data"] = {k: v[order] for k, v in p["point_data"].items()}
    q["point_data"]["gmsh:dim_tags"] = dt[order]
    if p.get("periodic") is not None:
        q["periodic"] = [[d, t, a, inv[sm]] for d, t, a, sm in p["periodic"]]
    cd = dict(p["cell_data"])
    if "gmsh:geometrical" not in cd:
        cd["gmsh:geometrical"] = [np.zeros(len(c), int) for _, c in p["cells"]]
    if "gmsh:physical" not in cd:
        cd["gmsh:physical"] = [np.zeros(len(c), int) for _, c in p["cells"]]
    q["cell_data"] = cd
    cs = {}
    for k, (num, dim) in p["field_data"].items():
        cs[k] = [np.arange(len(c)) if ents and ents[i][0] == dim and int(cd["gmsh:physical"][i][0]) == num and num != 0
                 else np.zeros(0, int) for i, (t, c) in enumerate(p["cells"])]
    if ents:
        cs["gmsh:bounding_entities"] = p["cell_sets"].get("gmsh:bounding_entities") or [None] * len(p["cells"])
    q["cell_sets"] = cs
    return _sq(q)


def post_phys(g):
    """No physical tag anywhere is the same as all-zero physical tags."""
    q = dict(g)
    q["cell_data"] = dict(g["cell_data"])
    if "gmsh:physical" not in q["cell_data"]:
        q["cell_data"]["gmsh:physical"] = [np.zeros(len(c), int) for _, c in g["cells"]]
    return q


def w40(path, m, **kw):
    import meshio

    meshio.gmsh.write(path, m, fmt_version="4.0", **kw)


def _kw(p):
    return {"gmsh_periodic": p.get("periodic")}


_dom = Dom(types=GTYPES, dims=(3, 2), pdt=("f8", "f8", "f4"), pmodes=("int", "unit", "wide", "special"),
           idt=("i8", "i4", "u4", "u8", "i2"), pd=GDATA, cd=GDATA, large=(130, 1100))
_c = Cmp(cast=True, bits=False, field_data=True, sets=True, periodic=True)
for _b in (True, False):
    _n = "bin" if _b else "asc"
    add(Variant(id=f"gmsh22-{_n}", group="gmsh", fmt="gmsh", write_format="gmsh22", ext=".msh", kwargs={"binary": _b},
                dom=_dom, adjust=adj22, expect=exp22, cmp=_c, mesh_kw=_kw,
                parse=(lambda path, b=_b: parse_msh(path, "2.2", b)), quick=900))
    add(Variant(id=f"gmsh41-{_n}", group="gmsh", fmt="gmsh", write_format="gmsh", ext=".msh", kwargs={"binary": _b},
                dom=_dom, adjust=adj41, expect=exp41, post=post_phys, cmp=_c, mesh_kw=_kw,
                parse=(lambda path, b=_b: parse_msh(path, "4.1", b)), quick=1100))
    add(Variant(id=f"gmsh40-{_n}", group="gmsh", fmt="gmsh", ext=".msh", kwargs={"binary": _b}, writer=w40,
                dom=_dom, adjust=lambda p, rng: {**p, "field_data": names_for(rng, [(1, 1), (2, 2)]),
                                                 "periodic": periodic_for(rng, len(p["points"]))},
                expect=exp40,
                cmp=Cmp(cast=True, bits=False, field_data=True, sets=False, periodic=True, ignore_extra=("gmsh:geometrical", "gmsh:physical")),
                mesh_kw=_kw, parse=(lambda path, b=_b: parse_msh(path, "4.0", b)), quick=400))
    for _v in ("22", "41"):
        add(Variant(id=f"gmsh{_v}-highorder-{_n}", group="gmsh", fmt="gmsh", write_format="gmsh22" if _v == "22" else "gmsh",
                    ext=".msh", kwargs={"binary": _b},
                    dom=Dom(types=GBIG, max_blocks=1, max_cells=2, max_extra=3, pd=GDATA, cd=GDATA),
                    adjust=adj22 if _v == "22" else adj41, expect=exp22 if _v == "22" else exp41,
                    post=None if _v == "22" else post_phys, cmp=_c, mesh_kw=_kw,
                    parse=(lambda path, b=_b, v=_v: parse_msh(path, v[0] + "." + v[1], b)), quick=120))
