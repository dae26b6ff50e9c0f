"""Abaqus, Nastran, PERMAS, mdpa, ANSYS msh: reference parsers and domains."""
from __future__ import annotations

import re

import gzip

import numpy as np

from .mesh import NN, Cmp, LETTERS, Data, Dom, merge_adjacent, pad3, without
from .registry import Variant, add


def mk(pts, cells, pd=None, cd=None, ps=None, cs=None):
    return {"points": pts, "cells": cells, "point_data": pd or {}, "cell_data": cd or {}, "field_data": {},
            "point_sets": ps or {}, "cell_sets": cs or {}}


# ------------------------------------------------------------------ Abaqus
# element library: name -> meshio type
ABQ = {}
for _t, _names in {
    "line": "T2D2 T2D2H T3D2 T3D2H B21 B21H B31 B31H B33 B33H",
    "line3": "T2D3 T2D3H T3D3 T3D3H B22 B22H B32 B32H",
    "quad": "CPS4 CPS4R S4 S4R S4RS S4RSW S4R5 CAX4P",
    "quad8": "S8R S8R5", "quad9": "S9R5",
    "triangle": "CPS3 STRI3 S3 S3R S3RS R3D3", "triangle6": "STRI65 CPE6",
    "hexahedron": "C3D8 C3D8H C3D8I C3D8IH C3D8R C3D8RH", "hexahedron20": "C3D20 C3D20H C3D20R C3D20RH",
    "tetra": "C3D4 C3D4H", "tetra10": "C3D10 C3D10H C3D10I C3D10M C3D10MH", "wedge": "C3D6", "wedge15": "C3D15",
}.items():
    for _n in _names.split():
        ABQ[_n] = _t


def parse_abaqus(path, types=ABQ):
    sect = []
    for line in open(path).read().splitlines():
        if line.startswith("**") or not line.strip():
            continue
        if line.startswith("*"):
            w = [x.strip() for x in line[1:].split(",")]
            params = dict((a.strip().upper(), b.strip()) for a, _, b in (x.partition("=") for x in w[1:]))
            sect.append((w[0].upper(), params, []))
        else:
            sect[-1][2].append(line)
    nid, pts, cells, eids, ps, cs = {}, [], [], [], {}, {}
    for kw, par, lines in sect:
        if kw == "NODE":
            for ln in lines:
                w = ln.split(",")
                assert int(w[0]) not in nid
                nid[int(w[0])] = len(pts)
                pts.append([float(x) for x in w[1:]])
        elif kw == "ELEMENT":
            t = types[par["TYPE"]]
            rows, ids = [], {}
            for ln in lines:
                w = [int(x) for x in ln.split(",")]
                assert w[0] not in ids and all(w[0] not in e for e in eids)
                assert len(w) == NN[t] + 1
                ids[w[0]] = len(rows)
                rows.append([nid[i] for i in w[1:]])
            cells.append((t, np.array(rows)))
            eids.append(ids)
        elif kw in ("NSET", "ELSET"):
            items = []
            for k, ln in enumerate(lines):
                assert ln.rstrip().endswith(",") == (k < len(lines) - 1)
                w = [x for x in ln.strip().rstrip(",").split(",")]
                assert len(w) <= 16
                items += [int(x) for x in w]
            if kw == "NSET":
                ps.setdefault(par["NSET"], []).extend(nid[i] for i in items)
            else:
                d = cs.setdefault(par["ELSET"], {})
                for i in items:
                    (b,) = [k for k, e in enumerate(eids) if i in e]
                    d.setdefault(b, []).append(eids[b][i])
        else:
            assert kw == "HEADING", kw
    return mk(np.array(pts, dtype=float).reshape(len(pts), -1), cells, ps={k: np.array(v, dtype=int) for k, v in ps.items()},
              cs={k: [np.array(d.get(b, []), dtype=int) for b in range(len(cells))] for k, d in cs.items()})


ABQ_T = tuple(dict.fromkeys(ABQ.values()))
SETN = ("s1", "wall", "in flow", "Inlet_2", "x-y")


def abq_adjust(p, rng):
    """cell sets must not be empty altogether (the format has no empty sets)"""
    q = dict(p)
    q["cell_sets"] = {k: v for k, v in p["cell_sets"].items() if sum(len(x) for x in v)}
    # sets are not necessarily sorted
    if rng.random() < 0.4:
        q["point_sets"] = {k: rng.permutation(v) for k, v in p["point_sets"].items()}
    return q


_abq = dict(types=ABQ_T, dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4", "u4"), max_blocks=6, psets=SETN, csets=SETN, schars=LETTERS + "-.:", large=(20,))
add(Variant(id="abaqus", group="fem", fmt="abaqus", ext=".inp", dom=Dom(**_abq), adjust=abq_adjust,
            cmp=Cmp(cast=True, sets=True, set_order=True), parse=parse_abaqus, quick=600))
add(Variant(id="abaqus-fmt", group="fem", fmt="abaqus", ext=".inp", kwargs={"float_fmt": ".6e"}, dom=Dom(**_abq), adjust=abq_adjust,
            cmp=Cmp(rtol=7e-7, cast=True, sets=True, bits=False), quick=60))
add(Variant(id="abaqus-raw", group="fem-out", fmt="abaqus", ext=".inp", kwargs={"translate_cell_names": False}, dom=Dom(**_abq), adjust=abq_adjust,
            cmp=Cmp(cast=True, sets=True), parse=lambda p: parse_abaqus(p, {t: t for t in NN}), quick=60))

# ------------------------------------------------------------------ Nastran
NAS = {"CELAS1": ("vertex",), "CROD": ("line",), "CBAR": ("line",), "CBEAM": ("line",), "CBUSH": ("line",), "CBUSH1D": ("line",), "CGAP": ("line",),
       "CTRIA3": ("triangle",), "CTRIAR": ("triangle",), "CTRIA6": ("triangle6",), "CTRIAX6": ("triangle6",), "CQUAD4": ("quad",), "CQUADR": ("quad",),
       "CSHEAR": ("quad",), "CQUAD8": ("quad8",), "CQUAD9": ("quad9",), "CTETRA": ("tetra", "tetra10"), "CPYRAM": ("pyramid", "pyramid13"),
       "CPYRA": ("pyramid", "pyramid13"), "CPENTA": ("wedge", "wedge15"), "CHEXA": ("hexahedron", "hexahedron20")}
# Nastran position -> position in the VTK-like ordering
NAS_ORDER = {"hexahedron20": [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 18, 19, 12, 13, 14, 15],
             "wedge15": [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 9, 10, 11]}


def nas_float(s):
    s = s.strip().upper()
    m = re.fullmatch(r"([+-]?(?:\d+\.\d*|\.\d+))(?:E([+-]?\d+)|([+-]\d+))?", s)
    assert m, f"not a Nastran real: {s!r}"
    return float(m.group(1) + "e" + (m.group(2) or m.group(3) or "0"))


def nas_cards(lines):
    """-> list of cards [keyword, fields after the keyword, last line full?, continuation mark]"""
    cards = []
    for ln in lines:
        if "," in ln:
            f = [x.strip() for x in ln.split(",")]
            assert len(f) <= 10 and all(len(x) <= 16 for x in f)
            head, body, mark = f[0], f[1:9], f[9] if len(f) > 9 else ""
            per = 8
        else:
            assert len(ln) <= 80
            head, mark = ln[:8].strip(), ln[72:].strip()
            per = 4 if "*" in head else 8
            w = 64 // per
            rest = ln[8:72].rstrip()
            body = [rest[i:i + w].strip() for i in range(0, len(rest), w)]
        if head.startswith(("+", "*")) or head == "":
            assert cards[-1][2], "line continued before it is full"
            assert len(head) <= 1 or cards[-1][3] == head, "continuation marks"
            cards[-1][1].extend(body)
        else:
            cards.append([head.rstrip("*"), body, False, ""])
        cards[-1][2:] = [len(body) == per, mark]
    return cards


def parse_nastran(path):
    lines = open(path).read().split("\n")
    lines = [x for x in lines if x.strip() and not x.startswith("$")]
    a = lines.index("BEGIN BULK")
    assert lines[-1] == "ENDDATA"
    pts, nid, refs, cells, crefs, seen = [], {}, [], [], [], set()
    for kw, f, _, _ in nas_cards(lines[a + 1:-1]):
        if kw == "GRID":
            nid[int(f[0])] = len(pts)
            refs.append(int(f[1]) if f[1] else None)
            pts.append([nas_float(x) for x in f[2:5]])
        else:
            ts = NAS[kw]
            assert int(f[0]) not in seen
            seen.add(int(f[0]))
            nodes = [int(x) for x in f[2:] if x != ""]
            (t,) = [t for t in ts if NN[t] == len(nodes)]
            if t in NAS_ORDER:
                new = [0] * len(nodes)
                for i, j in enumerate(NAS_ORDER[t]):
                    new[j] = nodes[i]
                nodes = new
            if not cells or cells[-1][0] != t:
                cells.append((t, []))
                crefs.append([])
            cells[-1][1].append([nid[i] for i in nodes])
            crefs[-1].append(int(f[1]) if f[1] else None)
    pd, cd = {}, {}
    if any(r is not None for r in refs):
        pd["nastran:ref"] = np.array(refs)
    if any(r is not None for c in crefs for r in c):
        cd["nastran:ref"] = [np.array(c) for c in crefs]
    return mk(np.array(pts), [(t, np.array(c)) for t, c in cells], pd, cd)


NAS_T = ("vertex", "line", "triangle", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10", "pyramid", "pyramid13", "wedge", "wedge15",
         "hexahedron", "hexahedron20")
REF = Data(dtypes=("i8", "i4"), shapes=((),), modes=("zero-up", "pos-int"), names=("nastran:ref",))
REFC = Data(dtypes=("i8", "i4"), shapes=((),), modes=("pos-int", "zero-up"), names=("nastran:ref",))


def nas_expect(p):
    return merge_adjacent(pad3(without(p, "point_sets", "cell_sets")))


for _pf in ("free", "fixed-small", "fixed-large"):
    for _cf in ("free", "fixed-small", "fixed-large"):
        _kw = {"point_format": _pf, "cell_format": _cf}
        if _pf == "fixed-small":
            _m, _c = ("int", "dec", "unit", "wide"), Cmp(rtol=6e-3, cast=True, bits=False)
        else:
            _m, _c = ("int", "dec", "unit", "wide"), Cmp(rtol=5.1e-10, cast=True, bits=False)
        add(Variant(id=f"nastran-{_pf}-{_cf}", group="fem", fmt="nastran", ext={"free": ".bdf", "fixed-small": ".fem", "fixed-large": ".nas"}[_pf], kwargs=_kw,
                    dom=Dom(types=NAS_T, dims=(3, 2), pmodes=_m, idt=("i8", "i4"), max_blocks=5, pd=REF, cd=REFC, large=(120,)),
                    expect=nas_expect, cmp=_c, parse=parse_nastran, quick=150))
add(Variant(id="nastran-small-exact", group="fem", fmt="nastran", ext=".bdf", kwargs={"point_format": "fixed-small"},
            dom=Dom(types=NAS_T, dims=(3, 2), pmodes=("int", "dec"), max_blocks=2), expect=nas_expect, cmp=Cmp(rtol=1e-15, cast=True, bits=False), quick=100))
add(Variant(id="nastran-default", group="fem", fmt="nastran", ext=".nas",
            dom=Dom(types=NAS_T, dims=(3, 2), pmodes=("int", "unit", "wide"), max_blocks=5, pd=REF, cd=REFC, large=(300,)), expect=nas_expect,
            cmp=Cmp(rtol=5.1e-10, cast=True, bits=False), parse=parse_nastran, quick=200))

# ------------------------------------------------------------------ PERMAS
PER = {}
for _t, _names in {
    "vertex": "PLOT1", "line": "PLOTL2 FLA2 BECOS BECOC BETAC BECOP BETOP BEAM2 FSCPIPE2", "line3": "FLA3 PLOTL3",
    "quad": "LOADA4 PLOTA4 QUAD4 QUAD4S QUAMS4 SHELL4", "quad8": "PLOTA8 LOADA8 QUAMS8", "quad9": "PLOTA9 LOADA9 QUAMS9",
    "triangle": "PLOTA3 SHELL3 TRIA3 TRIA3K TRIA3S TRIMS3", "triangle6": "LOADA6 TRIMS6", "hexahedron": "HEXE8 HEXFO8", "hexahedron20": "HEXE20",
    "hexahedron27": "HEXE27", "tetra": "TET4", "tetra10": "TET10", "pyramid": "PYRA5", "wedge": "PENTA6", "wedge15": "PENTA15",
}.items():
    for _n in _names.split():
        PER[_n] = _t
# corners and mid-side nodes alternate; PERMAS position -> meshio position
PER_ORDER = {"triangle6": [0, 3, 1, 4, 2, 5], "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3], "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
             "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]}


def parse_permas(path):
    nid, pts, cells, mode, seen = {}, [], [], None, set()
    text = gzip.open(path, "rt").read() if path.endswith(".gz") else open(path).read()
    for ln in text.splitlines():
        if ln.startswith("!") or not ln.strip():
            continue
        if ln.startswith("$"):
            w = ln[1:].split()
            mode = w[0]
            if mode == "ELEMENT":
                cells.append((PER[w[1].split("=")[1]], []))
            continue
        w = ln.split()
        if mode == "COOR":
            assert len(w) == 4 and int(w[0]) not in nid
            nid[int(w[0])] = len(pts)
            pts.append([float(x) for x in w[1:]])
        elif mode == "ELEMENT":
            t = cells[-1][0]
            assert int(w[0]) not in seen and len(w) == NN[t] + 1
            seen.add(int(w[0]))
            nodes = [nid[int(x)] for x in w[1:]]
            new = list(nodes)
            for i, j in enumerate(PER_ORDER.get(t, range(len(nodes)))):
                new[j] = nodes[i]
            cells[-1][1].append(new)
        else:
            raise AssertionError(mode)
    assert mode == "FIN"
    return mk(np.array(pts), [(t, np.array(c)) for t, c in cells])


for _e, _q in ((".post", 400), (".dato", 60), (".post.gz", 30), (".dato.gz", 30)):
    add(Variant(id="permas" + _e, group="fem", fmt="permas", ext=_e,
                dom=Dom(types=tuple(dict.fromkeys(PER.values())), dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4"), max_blocks=6, large=(150,)),
                expect=pad3, cmp=Cmp(cast=True), parse=parse_permas, quick=_q))

# ------------------------------------------------------------------ mdpa
_SH = {"Line": {2: "line", 3: "line3"}, "Triangle": {3: "triangle", 6: "triangle6"}, "Quadrilateral": {4: "quad", 8: "quad8", 9: "quad9"},
       "Tetrahedra": {4: "tetra", 10: "tetra10"}, "Hexahedra": {8: "hexahedron", 20: "hexahedron20", 27: "hexahedron27"}, "Prism": {6: "wedge", 15: "wedge15"}}


def mdpa_type(name):
    if re.fullmatch(r"Point[23]D", name):
        return "vertex"
    m = re.fullmatch(r"([A-Z][a-z]+)[23]D(\d+)", name)
    return _SH[m.group(1)][int(m.group(2))]


def parse_mdpa(path):
    stack, nid, pts, cells, eid, pd, cd = [], {}, [], [], {}, {}, {}
    cur = None
    for ln in open(path).read().splitlines():
        ln = ln.split("//")[0].strip()
        if not ln:
            continue
        w = ln.split()
        if w[0] == "Begin":
            stack.append(w[1])
            if w[1] == "Elements":
                cells.append((mdpa_type(w[2]), []))
            elif w[1] in ("NodalData", "ElementalData"):
                cur = ln.split(None, 2)[2]
                (pd if w[1] == "NodalData" else cd)[cur] = {}
            continue
        if w[0] == "End":
            assert stack.pop() == w[1]
            continue
        if stack == ["Nodes"]:
            assert int(w[0]) not in nid and len(w) == 4
            nid[int(w[0])] = len(pts)
            pts.append([float(x) for x in w[1:]])
        elif stack == ["Elements"]:
            t, c = cells[-1]
            assert int(w[0]) not in eid and len(w) == 2 + NN[t]
            eid[int(w[0])] = (len(cells) - 1, len(c))
            c.append([nid[int(x)] for x in w[2:]])
        elif stack == ["NodalData"]:
            pd[cur][nid[int(w[0])]] = [float(x) for x in w[1:]]
        elif stack == ["ElementalData"]:
            cd[cur][eid[int(w[0])]] = [float(x) for x in w[1:]]
        else:
            raise AssertionError(ln)
    assert not stack

    def sq(a):
        a = np.array(a)
        return a[:, 0] if a.shape[1] == 1 else a

    return mk(np.array(pts), [(t, np.array(c)) for t, c in cells], {k: sq([v[i] for i in range(len(pts))]) for k, v in pd.items()},
              {k: [sq([v[b, i] for i in range(len(c))]) for b, (_, c) in enumerate(cells)] for k, v in cd.items()})


def squeeze1(p):
    q = dict(p)
    q["point_data"] = {k: (v[:, 0] if v.ndim == 2 and v.shape[1] == 1 else v) for k, v in p["point_data"].items()}
    q["cell_data"] = {k: [x[:, 0] if x.ndim == 2 and x.shape[1] == 1 else x for x in v] for k, v in p["cell_data"].items()}
    return q


MD = Data(dtypes=("f8", "f8", "f4", "i8", "i4"), shapes=((), (), (1,), (2,), (3,), (9,)), modes=("int", "unit", "pos", "dec"), names=("TEMPERATURE", "a", "VELOCITY", "B2"))
add(Variant(id="mdpa", group="fem", fmt="mdpa", ext=".mdpa",
            dom=Dom(types=("vertex", "line", "line3", "triangle", "triangle6", "quad", "quad8", "quad9", "tetra", "tetra10", "hexahedron", "hexahedron20",
                           "hexahedron27", "wedge"), dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4"), max_blocks=6, pd=MD, cd=MD, large=(150,)),
            expect=lambda p: without(merge_adjacent(pad3(p)), "point_data", "cell_data"), cmp=Cmp(cast=True),
            parse=parse_mdpa, parse_expect=lambda p: squeeze1(pad3(p)), parse_cmp=Cmp(cast=True), quick=600))

# ------------------------------------------------------------------ ANSYS
ANS = {1: "triangle", 2: "tetra", 3: "quad", 4: "hexahedron", 5: "pyramid", 6: "wedge"}


def parse_ansys(path):
    b = open(path, "rb").read()
    pos = 0
    pts, cells, total, dim = None, [], None, None
    tot_cells = None
    while True:
        while pos < len(b) and b[pos:pos + 1].isspace():
            pos += 1
        if pos == len(b):
            break
        m = re.compile(rb"\((\d+)\s*").match(b, pos)
        idx = m.group(1).decode()
        pos = m.end()
        if idx == "1":
            m = re.compile(rb'"[^"]*"\)').match(b, pos)
            pos = m.end()
            continue
        if idx == "2":
            m = re.compile(rb"(\d)\)").match(b, pos)
            dim = int(m.group(1))
            pos = m.end()
            continue
        m = re.compile(rb"\(([0-9a-f ]*)\)").match(b, pos)
        a = [int(x, 16) for x in m.group(1).split()]
        pos = m.end()
        kind = idx[-2:]
        if b[pos:pos + 1] == b")":  # declaration
            assert a[0] == 0
            if kind == "10":
                total = a[2]
            else:
                tot_cells = a[2]
            pos += 1
            continue
        m = re.compile(rb"\s*\(\n").match(b, pos)
        pos = m.end()
        n = a[2] - a[1] + 1
        if kind == "10":
            assert a[4] == dim and a[1] == 1
            k = dim
            dt = {"20": "<f4", "30": "<f8", "": None}[idx[:-2]]
        else:
            assert kind == "12" and a[3] == 1
            k = NN[ANS[a[4]]]
            dt = {"20": "<i4", "30": "<i8", "": None}[idx[:-2]]
        if dt:
            nb = n * k * np.dtype(dt).itemsize
            arr = np.frombuffer(b, dt, n * k, pos).reshape(n, k)
            pos += nb
            m = re.compile(rb"\s*\)\s*End of Binary Section\s+(\d+)\)").match(b, pos)
            assert m.group(1).decode() == idx
            pos = m.end()
        else:
            e = b.index(b"))", pos)
            conv = float if kind == "10" else (lambda x: int(x, 16))
            arr = np.array([[conv(x) for x in ln.split()] for ln in b[pos:e].decode().splitlines()])
            assert arr.shape == (n, k)
            pos = e + 2
        if kind == "10":
            pts = arr
        else:
            cells.append((ANS[a[4]], arr.astype("i8") - 1))
    assert total == len(pts) and tot_cells == sum(len(c) for _, c in cells)
    return mk(pts, cells)


for _id, _b in (("ansys-asc", False), ("ansys-bin", True)):
    add(Variant(id=_id, group="fem", fmt="ansys", ext=".msh", kwargs={"binary": _b}, reader=lambda path: __import__("meshio").read(path, file_format="ansys"),
                dom=Dom(types=tuple(ANS.values()), dims=(3, 2), pdt=("f8", "f8", "f4"), idt=("i8", "i4"), max_blocks=6, large=(300,), pmodes=("int", "unit", "wide", "special")),
                cmp=Cmp(cast=not _b, pdtype="exact" if _b else None), parse=parse_ansys, quick=300))
