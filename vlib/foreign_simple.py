"""Medit, Netgen, SU2, TetGen, UGRID, Tecplot, AVS-UCD, FLAC3D and DOLFIN files as other programs write them."""
from __future__ import annotations

import gzip
import struct

import numpy as np
from hypothesis import strategies as st

from .fmt_fem import mk
from .fmt_misc import AVS, AVSP, FL, FLP, TECK
from .fmt_simple import MEDIT, MEDITB, NG, NGP, SU2, SU2I, UG
from .foreign_fem import B, chunks, eol, flags, ids, num, pick
from .mesh import NN, TDIM, Data, Dom, build, group_by_type, merge_adjacent, pad3, recipes, regroup


def inv(order, row):
    if order is None:
        return [int(x) for x in row]
    f = [0] * len(row)
    for j, o in enumerate(order):
        f[o] = int(row[j])
    return f


def start(case):
    p = build(case["mesh"])
    p["points"] = p["points"].astype("f8")
    return case["style"], p, np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))


def ws(rng, s, vals):
    vals = [str(v) for v in vals]
    if not s["blanks"]:
        return " ".join(vals)
    return pick(rng, ["", "  ", "\t"]) + pick(rng, [" ", "   ", "\t"]).join(vals) + pick(rng, ["", " ", "\t"])


# ------------------------------------------------------------------ Medit (ASCII)


def medit(case):
    s, p, rng = start(case)
    n, dim = p["points"].shape
    ver = s["version"]
    dt = "f4" if ver == 1 else "f8"
    p["points"] = p["points"].astype(dt)
    out = []

    def noise():
        if s["comments"] and rng.random() < 0.4:
            out.append(pick(rng, ["", "# comment", "#Vertices", "   "]))

    def extra():
        if not s["extra"] or rng.random() < 0.5:
            return
        k, body = pick(rng, [("Corners", [[1], [2]]), ("RequiredVertices", [[1]]), ("Ridges", [[1], [2], [3]]), ("Normals", [[0.5] * dim] * 2), ("NormalAtVertices", [[1, 2], [2, 1]]),
                             ("SubDomainFromMesh", [[3, 1, 1, 0]]), ("VertexOnGeometricVertex", [[1, 1]]), ("VertexOnGeometricEdge", [[1, 1, 0.5]]), ("EdgeOnGeometricEdge", [[1, 2]]),
                             ("Tangents", [["0.", "1.", "0."]]), ("TangentAtVertices", [["1", "1"]])])
        noise()
        if rng.random() < 0.2:
            k = pick(rng, ["Identifier", "Geometry"])
            out.extend(pick(rng, [[k, '"file.mesh"'], [k, '"Vertices and Tetrahedra"'], [k + ' "file.mesh"']]))
            return
        out.append(k)
        out.append(str(len(body)))
        out.extend(" ".join(str(x) for x in r) for r in body)

    noise()
    out.extend([f"MeshVersionFormatted {ver}"] if not s["nextline"] else ["MeshVersionFormatted", str(ver)])
    noise()
    out.extend([f"Dimension {dim}"] if not s["nextline"] else ["Dimension", str(dim)])
    pref = rng.integers(-5, 1000, n)
    refs = [rng.integers(-5, 1000, len(c)) for _, c in p["cells"]]
    blocks = list(range(len(p["cells"])))

    def verts():
        noise()
        out.extend([pick(rng, ["", " "]) + "Vertices", str(n)])
        for x, r in zip(p["points"], pref):
            out.append(ws(rng, s, [num(rng, v) if ver != 1 else f"{float(v):.9g}" for v in x] + [r]))

    if not s["late"]:
        verts()
    name = {v: [k] for k, v in MEDIT.items()}
    name["hexahedron"] = ["Hexahedra", "Hexaedra"]
    for i in blocks:
        extra()
        noise()
        t, c = p["cells"][i]
        out.extend([pick(rng, name[t]), str(len(c))])
        for row, r in zip(c, refs[i]):
            out.append(ws(rng, s, [int(x) + 1 for x in row] + [r]))
    if s["late"]:
        verts()
    extra()
    if not s["noend"]:
        out.append(pick(rng, ["End", "\nEnd"]))
    return mk(p["points"], p["cells"], {"medit:ref": pref}, {"medit:ref": refs}), {"f.mesh": eol("\n".join(out) + "\n", s)}, "f.mesh"


MT = tuple(MEDIT.values())
MEDIT_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=MT, dims=(3, 2), max_blocks=5, layouts=())),
                                     "style": flags("comments", "extra", "nextline", "late", "blanks", "noend", "crlf", "nofinal", version=st.sampled_from([1, 2, 3, 4]))})

# ------------------------------------------------------------------ Medit (binary)


# keywords meshio has no use for: integers i, reals r, one real per dimension D; 1: a single entry without a count
MESHB_OTHER = {13: "i", 14: "i", 15: "i", 16: "i", 17: "i", 18: "i", 19: "iii", 20: "ii", 21: "iii", 22: "iiii", 23: "1r", 24: "i" * 7, 25: "i" * 4, 27: "i" * 10, 30: "i" * 11, 33: "i" * 28,
               40: "ii", 41: "iirr", 42: "iirrr", 44: "ii", 50: "1DD", 59: "D", 60: "D", 61: "ii", 77: "1i", 78: "1r", 82: "ii", 83: "ii", 84: "ii", 85: "ii", 86: "i" * 19, 87: "i" * 15,
               90: "i" * 11, 92: "i" * 5}


def meshb(case):
    s, p, rng = start(case)
    n, dim = p["points"].shape
    e = ">" if s["big"] else "<"
    ver = s["version"]
    it, ft, pt = e + ("i8" if ver == 4 else "i4"), e + ("f4" if ver == 1 else "f8"), e + ("i8" if ver >= 3 else "i4")
    p["points"] = p["points"].astype(ft[1:])
    b = np.array([1, ver], e + "i4").tobytes()

    def key(code, body, count=True):
        nonlocal b
        head = np.array([code], e + "i4").tobytes()
        cnt = np.array([len(body)], it).tobytes() if count else b""
        pos = len(b) + len(head) + np.dtype(pt).itemsize + len(cnt) + len(body.tobytes())
        b += head + np.array([pos], pt).tobytes() + cnt + body.tobytes()

    key(3, np.array([dim], e + "i4"), False)
    pref = rng.integers(-5, 1000, n)
    refs = [rng.integers(-5, 1000, len(c)) for _, c in p["cells"]]
    code = {v: k for k, v in MEDITB.items()}

    def extra():
        if not s["extra"] or rng.random() < 0.5:
            return
        k = pick(rng, sorted(MESHB_OTHER))
        lay = MESHB_OTHER[k]
        one = lay.startswith("1")
        dt = [(f"c{i}", it if ch == "i" else ft, (dim,) if ch == "D" else ()) for i, ch in enumerate(lay.lstrip("1"))]
        a = np.zeros(1 if one else int(rng.integers(0, 4)), dt)
        for i in a.dtype.names:
            a[i] = rng.integers(1, 60, a[i].shape)
        key(k, a, not one)

    def verts():
        a = np.empty(n, [("x", ft, (dim,)), ("r", it)])
        a["x"], a["r"] = p["points"], pref
        key(4, a)

    if not s["late"]:
        verts()
    for (t, c), r in zip(p["cells"], refs):
        extra()
        key(code[t], np.column_stack([np.asarray(c, dtype="i8") + 1, r]).astype(it))
    if s["late"]:
        verts()
    extra()
    if not s["noend"]:
        b += np.array([54], e + "i4").tobytes() + np.array([0], pt).tobytes()
    return mk(p["points"], p["cells"], {"medit:ref": pref}, {"medit:ref": refs}), {"f.meshb": b}, "f.meshb"


MESHB_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=MT, dims=(3, 2), max_blocks=5, layouts=())),
                                     "style": flags("big", "extra", "late", "noend", version=st.sampled_from([1, 2, 3, 4]))})

# ------------------------------------------------------------------ Netgen


def netgen(case):
    s, p, rng = start(case)
    n, dim = p["points"].shape
    out = []

    def noise():
        if s["comments"] and rng.random() < 0.5:
            out.append(pick(rng, ["", "# comment", "#   surfnr    bcnr   domin  domout      np      p1", "  "]))

    noise()
    out.append("mesh3d")
    noise()
    out.extend(["dimension", str(dim)])
    noise()
    out.extend(["geomtype", pick(rng, ["0", "1", "11", "12"])])
    secs = []
    if s["twolines"]:
        secs_head = ["surf1 surf2 p1 p2"]
    else:
        secs_head = []
    by = {d: [i for i, (t, _) in enumerate(p["cells"]) if TDIM[t] == d] for d in range(4)}
    order = [d for d in (int(x) for x in rng.permutation(4)) if by[d]] if s["shuffle"] else [d for d in (2, 3, 1, 0) if by[d]]
    idx = [rng.integers(1, 8, len(c)) for _, c in p["cells"]]

    def cells(d):
        lines = []
        kw = {0: ["pointelements"], 1: ["edgesegmentsgi2"], 2: ["surfaceelements", "surfaceelementsgi", "surfaceelementsuv"], 3: ["volumeelements"]}[d]
        if d == 1 and not s["twolines"]:
            kw = ["edgesegments", "edgesegmentsgi", "edgesegmentsgi2"]
        kw = pick(rng, kw)
        for i in by[d]:
            t, c = p["cells"][i]
            for row, k in zip(c, idx[i]):
                f = [v + 1 for v in inv(NGP.get(t), row)]
                if d == 0:
                    v = f + [k]
                elif d == 1:
                    v = [k, int(rng.integers(0, 3))] + f
                    if kw == "edgesegmentsgi":
                        v += [1, 2]
                    elif kw == "edgesegmentsgi2":
                        v += [-1, -1, 0, 0] if s["twolines"] else [-1, -1, 0, 0, 1, 0.5, 1, 0]
                elif d == 2:
                    v = [int(rng.integers(1, 9)), k, 1, 0, len(f)] + f
                    if kw == "surfaceelementsgi":
                        v += [int(x) for x in rng.integers(1, 99, len(f))]
                    elif kw == "surfaceelementsuv":
                        v += ["0.25", "0.5"] * len(f)
                else:
                    v = [k, len(f)] + f
                lines.append(ws(rng, s, v))
                if d == 1 and s["twolines"]:
                    lines.append("1 0 1 0")
        noise()
        if d == 1:
            out.extend(secs_head)
        out.extend([kw, str(sum(len(p["cells"][i][1]) for i in by[d]))])
        for ln in lines:
            if s["comments"] and rng.random() < 0.05:
                out.append(pick(rng, ["", "# more"]))
            out.append(ln)

    def points():
        noise()
        out.extend(["points", str(n)])
        for x in p["points"]:
            out.append(ws(rng, s, [num(rng, v) for v in x] + ["0"] * (3 - dim)))

    if s["pfirst"]:
        points()
    for d in order:
        cells(d)
    if not s["pfirst"]:
        points()
    fd = {}
    pool = [f"{a}{b}" for a in ("inner", "wall_", "x-") for b in range(4)]
    if s["names"]:
        for k, kw in enumerate(["materials", "bcnames", "cd2names", "cd3names"][: dim + 1]):
            if rng.random() < 0.4:
                continue
            noise()
            m = int(rng.integers(1, 4))
            out.extend([kw, str(m)])
            for i in range(m):
                if rng.random() < 0.2:
                    out.append(f"{i + 1} ")
                    continue
                nm = pool.pop(int(rng.integers(len(pool))))
                out.append(f"{i + 1}{pick(rng, [' ', '   '])}{nm}")
                fd[nm] = np.array([i + 1, dim - k])
    if s["extra"]:
        for kw in ("face_colours", "singular_edge_left", "singular_points"):
            noise()
            out.extend([kw, "2", "1 0.1 0.2 0.3", "2 1 1 1"])
        if rng.random() < 0.3:
            out.extend(["identifications", "0", "identificationtypes", "0"])
    info = None
    if s["ident"]:
        a, b = rng.integers(1, n + 1, (int(rng.integers(1, 5)), 3)), rng.integers(1, 4, (1, int(rng.integers(1, 4))))
        noise()
        out.extend(["identifications", str(len(a))] + [ws(rng, s, r) for r in a])
        noise()
        out.extend(["identificationtypes", str(b.size), ws(rng, s, b[0])])
        info = {"netgen:identifications": a, "netgen:identificationtypes": b}
    if not s["noend"]:
        out.append("endmesh")
    groups = [[i] for d in order for i in by[d]]
    q = dict(p)
    q["cell_data"] = {"netgen:index": idx}
    q["point_data"] = {}
    e = merge_adjacent(regroup(q, groups))
    e["field_data"] = fd
    e["info"] = info
    e["point_sets"], e["cell_sets"] = {}, {}
    data = eol("\n".join(out) + "\n", s)
    if s["gz"]:
        return e, {"f.vol.gz": gzip.compress(data)}, "f.vol.gz"
    return e, {"f.vol": data}, "f.vol"


NGT = tuple(t for d in NG.values() for t in d.values())
NG_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=NGT, dims=(3, 2), max_blocks=6, max_extra=3, layouts=())),
                                  "style": flags("comments", "twolines", "shuffle", "blanks", "pfirst", "names", "extra", "noend", "gz", "ident", "crlf", "nofinal")})

# ------------------------------------------------------------------ SU2


def su2(case):
    s, p, rng = start(case)
    n, dim = p["points"].shape
    inner = ("triangle", "quad") if dim == 2 else ("tetra", "hexahedron", "wedge", "pyramid")
    out = []

    def noise():
        if s["comments"] and rng.random() < 0.5:
            out.append(pick(rng, ["%", "% comment", "%NELEM= 3", "", "% a = b"]))

    def kv(k, v):
        noise()
        out.append(f"{k}{pick(rng, ['= ', '=', ' = ', '=   ']) if s['blanks'] else '= '}{v}")

    rows = [(t, [int(x) for x in r]) for t, c in p["cells"] for r in c]
    if s["mix"]:
        rows = [rows[i] for i in rng.permutation(len(rows))]
    ins = [r for r in rows if r[0] in inner]
    outs = [r for r in rows if r[0] not in inner]
    nm = int(rng.integers(1, 4)) if outs else int(rng.integers(0, 2))
    marks = [[] for _ in range(nm)]
    for r in outs:
        marks[int(rng.integers(nm))].append(r)
    if s["strings"]:
        tags = [(pick(rng, ["lower", "wall_1", "far field", "x"]) + str(i), i + 1) for i in range(nm)]
    else:
        v = rng.permutation(50)[:nm]
        tags = [(str(int(x)), int(x)) for x in v]
    secs = []  # (type, rows, tags) in the order read

    def elems(rs, tag, extra):
        for k, (t, r) in enumerate(rs):
            out.append(ws(rng, s, [SU2I[t]] + r + ([k] if extra else [])))
        for t in sorted({t for t, _ in rs}, key=lambda t: SU2I[t]):
            secs.append((t, [r for u, r in rs if u == t], tag))

    def points():
        kv("NPOIN", f"{n} {n}" if s["npoin2"] else n)
        for k, x in enumerate(p["points"]):
            out.append(ws(rng, s, [num(rng, v) for v in x] + ([k] if s["pindex"] else []) + ([k] if s["pindex"] and s["npoin2"] else [])))

    def inside():
        kv("NELEM", len(ins))
        elems(ins, 0, s["eindex"])

    def outside():
        kv("NMARK", nm)
        for (name, tag), rs in zip(tags, marks):
            kv("MARKER_TAG", name)
            kv("MARKER_ELEMS", len(rs))
            elems(rs, tag, s["eindex"] and s["mindex"])
            if s["send"]:
                kv("SEND_RECV", 1)

    kv("NDIME", dim)
    if s["extra"]:
        kv("NZONE", 1)
        kv("IZONE", 1)
    parts = [points, inside, outside]
    for i in (rng.permutation(3) if s["order"] else [1, 0, 2]):
        parts[i]()
    outer = ("line",) if dim == 2 else ("triangle", "quad")
    cells, tg = [], []
    for t, rs, tag in secs:
        j = next((i for i, (u, _) in enumerate(cells) if u == t), None) if t in outer else None
        if j is None:
            cells.append((t, list(rs)))
            tg.append([tag] * len(rs))
        else:
            cells[j][1].extend(rs)
            tg[j].extend([tag] * len(rs))
    e = mk(p["points"], [(t, np.array(c)) for t, c in cells], {}, {"su2:tag": [np.array(x) for x in tg]})
    return e, {"f.su2": eol("\n".join(out) + "\n", s)}, "f.su2"


def su2_cases(dim, types):
    return st.fixed_dictionaries({"mesh": recipes(Dom(types=types, dims=(dim,), max_blocks=5, layouts=())),
                                  "style": flags("comments", "blanks", "mix", "strings", "npoin2", "pindex", "eindex", "mindex", "send", "extra", "order", "crlf", "nofinal")})


# ------------------------------------------------------------------ TetGen


def tetgen(case):
    s, p, rng = start(case)
    n = len(p["points"])
    (_, c), = p["cells"]
    base = int(s["base"])
    na, nb = int(rng.integers(0, 3)), int(rng.integers(0, 2))
    ca = int(rng.integers(0, 2))

    def noise(out):
        if s["comments"] and rng.random() < 0.6:
            out.append(pick(rng, ["# comment", "", "# 8 3 0 0", "   "]))

    node, ele = [], []
    noise(node)
    node.append(ws(rng, s, [n, 3, na, nb]))
    attrs = rng.integers(-999, 1000, (n, na)) / 8
    mk_ = rng.integers(-3, 9, n)
    for i, x in enumerate(p["points"]):
        node.append(ws(rng, s, [i + base] + [num(rng, v) for v in x] + [num(rng, v) for v in attrs[i]] + ([mk_[i]] if nb else [])))
    noise(ele)
    ele.append(ws(rng, s, [len(c), 4, ca]))
    cref = rng.integers(-3, 100, len(c))
    if s["floatattr"]:
        cref = cref + 0.5
    for i, r in enumerate(c):
        ele.append(ws(rng, s, [i + base] + [int(x) + base for x in r] + ([cref[i]] if ca else [])))
    for o in (node, ele):
        if s["tail"]:
            o.append("# Generated by tetgen -pq")
    pd = {f"tetgen:attr{k + 1}": attrs[:, k] for k in range(na)}
    if nb:
        pd["tetgen:ref"] = mk_.astype(float)
    return (mk(p["points"], [("tetra", np.asarray(c))], pd, {"tetgen:ref": [cref]} if ca else {}), {"f.node": eol("\n".join(node) + "\n", s), "f.ele": eol("\n".join(ele) + "\n", s)},
            pick(rng, ["f.node", "f.ele"]))


TET_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=("tetra",), max_blocks=1, max_cells=9, layouts=())), "style": flags("base", "comments", "blanks", "floatattr", "tail", "crlf", "nofinal")})

# ------------------------------------------------------------------ UGRID
UGK = {"ascii": None, "b8": (">f8", ">i4", False), "b4": (">f4", ">i4", False), "b8l": (">f8", ">i8", False), "lb8": ("<f8", "<i4", False), "lb4": ("<f4", "<i4", False), "lb8l": ("<f8", "<i8", False),
       "r8": (">f8", ">i4", True), "r4": (">f4", ">i4", True), "lr8": ("<f8", "<i4", True), "lr4": ("<f4", "<i4", True)}


def ugrid(case):
    s, p, rng = start(case)
    p = group_by_type(p, UG)
    n = len(p["points"])
    cnt = {t: len(c) for t, c in p["cells"]}
    head = [n] + [cnt.get(t, 0) for t in UG]
    refs = {t: rng.integers(0, 50, len(c)) for t, c in p["cells"]}
    conn = {}
    for t, c in p["cells"]:
        a = np.asarray(c, "i8") + 1
        if t == "pyramid":
            b = np.empty_like(a)
            b[:, [1, 0, 3, 4, 2]] = a
            a = b
        conn[t] = a
    seq = [("f", p["points"])] + [("i", conn[t]) for t in UG[:2] if t in conn] + [("i", refs[t]) for t in UG[:2] if t in conn] + [("i", conn[t]) for t in UG[2:] if t in conn]
    k = s["kind"]
    if k == "ascii":
        tok = [[str(x) for x in head]] + [[num(rng, x) if kind == "f" else str(int(x)) for x in np.ravel(a)] for kind, a in seq]
        lines = []
        for tk in tok:
            for ch in chunks(tk, int(rng.integers(1, 12))):
                lines.append(ws(rng, s, ch))
        b = "\n".join(lines) + "\n"
        b, fn = eol(b, s), pick(rng, ["f.ugrid", "f.ascii.ugrid"])
        pts = p["points"]
    else:
        ft, it, rec = UGK[k]
        h = np.array(head, it).tobytes()
        body = b"".join(np.ascontiguousarray(a).astype(ft if kind == "f" else it).tobytes() for kind, a in seq)
        if rec:
            h, body = (np.array([len(x)], it).tobytes() + x + np.array([len(x)], it).tobytes() for x in (h, body))
        b, fn = h + body, f"f.{k}.ugrid"
        pts = p["points"].astype(ft).astype("f8")
    cd = {"ugrid:ref": [refs[t] if t in UG[:2] else np.zeros(len(c), int) for t, c in p["cells"]]}
    return mk(pts, p["cells"], {}, cd), {fn: b}, fn


UG_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=tuple(UG), unique=True, max_blocks=6, layouts=(), pmodes=("int", "unit", "dec"))), "style": flags("blanks", "crlf", "nofinal", kind=st.sampled_from(["ascii"] * 4 + list(UGK)))})

# ------------------------------------------------------------------ Tecplot
TECZ = {v[0]: k for k, v in TECK.items()}


def tecplot(case):
    s, p, rng = start(case)
    n, dim = p["points"].shape
    (t, c), = p["cells"]
    z = TECZ[t]
    out = []

    def noise():
        if s["comments"] and rng.random() < 0.4:
            out.append(pick(rng, ["# comment", "", "#ZONE", "  "]))

    noise()
    if s["title"]:
        out.append(pick(rng, ['TITLE = "a title"', 'TITLE="x"', 'Title = "TITLE 1, 2"']))
    xyz = ["X", "Y", "Z"][:dim]
    if s["lowxyz"]:
        xyz = [x.lower() for x in xyz]
    block = s["block"]
    names = {k: k for k in p["point_data"]}
    var = [(x, p["points"][:, i], False) for i, x in enumerate(xyz)]
    var += [(k, v, False) for k, v in p["point_data"].items()]
    cv = [(k, v[0], True) for k, v in p["cell_data"].items() if k not in p["point_data"]] if block else []
    if s["nv"]:
        var = var + cv
    else:
        var = var + cv
        if s["mixvars"]:
            var = [var[i] for i in rng.permutation(len(var))]

    def q(x):
        return f'"{x}"' if s["quotes"] or " " in x else x

    sep = pick(rng, [", ", " ", ","]) if not s["multiline"] else "\n"
    vs = [q(x) for x, _, _ in var]
    if s["multiline"]:
        vs = [f'"{x}"' for x, _, _ in var]
        out.append(pick(rng, ["VARIABLES = ", "VARIABLES=", "variables = "]) + vs[0])
        out.extend(vs[1:])
    else:
        out.append(pick(rng, ["VARIABLES = ", "VARIABLES=", "Variables = "]) + sep.join(vs))
    noise()
    items = []
    if s["new"]:
        items += [("DATAPACKING", "BLOCK" if block else "POINT"), ("ZONETYPE", z), ("NODES" if s["long"] else "N", n), ("ELEMENTS" if s["long"] else "E", len(c))]
    else:
        items += [("F", "FEBLOCK" if block else "FEPOINT"), ("ET", z[2:]), ("N", n), ("E", len(c))]
    cc = [i + 1 for i, v in enumerate(var) if v[2]]
    if cc:
        if s["nv"]:
            items.append(("NV", len(var) - len(cc)))
        else:
            runs = []
            for i in cc:
                if runs and runs[-1][1] == i - 1:
                    runs[-1][1] = i
                else:
                    runs.append([i, i])
            if s["comma"]:
                loc = "([" + ",".join(str(i) for i in cc) + "]=CELLCENTERED)"
            else:
                loc = "(" + pick(rng, [", ", ","]).join(f"[{a}-{b}]{e}CELLCENTERED" if a != b else f"[{a}]{e}CELLCENTERED" for a, b in runs for e in [pick(rng, ["=", " = "])]) + ")"
                if rng.random() < 0.5:
                    nodal = [i + 1 for i, v in enumerate(var) if not v[2]]
                    first = nodal[: next((k for k in range(1, len(nodal)) if nodal[k] != nodal[k - 1] + 1), len(nodal))]
                    nod = [f"[{first[0]}-{first[-1]}]=NODAL" if len(first) > 1 else f"[{first[0]}]=NODAL", "[" + ",".join(map(str, nodal)) + "]=NODAL"][int(rng.integers(2))]
                    loc = pick(rng, [f"({nod}, {loc[1:]}", f"({nod},{loc[1:]}", f"{loc[:-1]}, {nod})"])
            items.append(("VARLOCATION", loc))
    if s["title2"]:
        items.append(("T", '"a zone, N=7"'))
    if s["keys"]:
        items += [("STRANDID", "1"), ("SOLUTIONTIME", "0.5")]
        if rng.random() < 0.5:
            items.append(("DT", "(" + " ".join(["SINGLE", "DOUBLE"][int(rng.integers(2))] for _ in var) + pick(rng, [")", " )"])))
    if s["shufflezone"]:
        items = [items[i] for i in rng.permutation(len(items))]
    eq = pick(rng, ["=", " = ", "= "]) if s["blanks"] else "="
    txt = [(k.lower() if s["lowkeys"] else k) + eq + (str(v).lower() if s["lowkeys"] and k in ("F", "ET", "DATAPACKING", "ZONETYPE") else str(v)) for k, v in items]
    j = pick(rng, [", ", " ", ","])
    if s["zonelines"]:
        k = int(rng.integers(1, len(txt) + 1))
        out.append("ZONE " + j.join(txt[:k]))
        out.extend(pick(rng, ["", ", "]) + j.join(ch) for ch in chunks(txt[k:], int(rng.integers(1, 4))))
    else:
        out.append(("zone " if s["lowkeys"] else "ZONE ") + j.join(txt))
    if block:
        for _, v, _ in var:
            for ch in chunks([num(rng, x) for x in v], int(rng.integers(1, 6))):
                out.append(ws(rng, s, ch))
    else:
        for i in range(n):
            out.append(ws(rng, s, [num(rng, v[i]) for _, v, _ in var]))
    for r in c:
        if s["comments"] and rng.random() < 0.1:
            out.append("")
        out.append(ws(rng, s, [int(x) + 1 for x in r]))
    us = lambda k: "_".join(k.split())
    pd = {us(k): v for k, v, b in var if not b and k not in xyz}
    cd = {us(k): [v] for k, v, b in var if b}
    return mk(p["points"], [(t, np.asarray(c))], pd, cd), {"f.dat": eol("\n".join(out) + "\n", s)}, "f.dat"


TD = Data(dtypes=("f8",), shapes=((),), modes=("int", "unit", "wide"), names=("a", "rho", "vel x", "p-1", "Mach number local", "T0", "c"))
TEC_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(TECZ), dims=(3, 2), max_blocks=1, max_cells=6, layouts=(), pd=TD, cd=TD)),
    "style": flags("comments", "title", "lowxyz", "block", "nv", "mixvars", "quotes", "multiline", "new", "long", "comma", "title2", "keys", "shufflezone", "blanks", "lowkeys", "zonelines", "crlf", "nofinal"),
})

# ------------------------------------------------------------------ AVS-UCD


def avsucd(case):
    s, p, rng = start(case)
    p = pad3(p)
    n = len(p["points"])
    nid = ids(rng, n, s["sparse"], s["shuffle"])
    tot = sum(len(c) for _, c in p["cells"])
    eid = ids(rng, tot, s["esparse"], s["shuffle"])
    nd = sum(1 if v.ndim == 1 else v.shape[1] for v in p["point_data"].values())
    cd_ = {k: np.concatenate(v) for k, v in p["cell_data"].items()}
    ncd = sum(1 if v.ndim == 1 else v.shape[1] for v in cd_.values())
    out = []
    if s["comments"]:
        out += ["# a file", "# 1 2 3"][: int(rng.integers(1, 3))]
    out.append(ws(rng, s, [n, tot, nd, ncd, 0]))
    for i in range(n):
        out.append(ws(rng, s, [nid[i]] + [num(rng, x) for x in p["points"][i]]))
    code = {v: k for k, v in AVS.items()}
    mats, k = [], 0
    for t, c in p["cells"]:
        mt = rng.integers(-2, 50, len(c))
        mats.append(mt)
        for r, m in zip(c, mt):
            out.append(ws(rng, s, [eid[k], m, code[t]] + [nid[i] for i in inv(AVSP.get(t), r)]))
            k += 1

    def data(d, tab):
        if not d:
            return
        sizes = [1 if v.ndim == 1 else v.shape[1] for v in d.values()]
        out.append(ws(rng, s, [len(d)] + sizes))
        for name in d:
            out.append(name + pick(rng, [", m/s", ",", ", none", " , unknown units"]))
        for i in (rng.permutation(len(tab)) if s["dorder"] else range(len(tab))):
            out.append(ws(rng, s, [tab[i]] + [num(rng, x) for v in d.values() for x in np.atleast_1d(v[i])]))

    data(p["point_data"], nid)
    data(cd_, eid)
    us = lambda q: q.replace(" ", "_")
    e = mk(p["points"], p["cells"], {us(q): v for q, v in p["point_data"].items()}, {"avsucd:material": mats, **{us(q): v for q, v in p["cell_data"].items()}})
    return merge_adjacent(e), {"f.avs": eol("\n".join(out) + "\n", s)}, "f.avs"


AD = Data(dtypes=("f8",), shapes=((), (), (2,), (3,), (6,)), modes=("int", "unit", "wide"), names=("a", "rho", "vel x", "p-1", "T0"))
AVS_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=tuple(AVS.values()), dims=(3,), max_blocks=5, layouts=(), pd=AD, cd=AD)),
                                   "style": flags("sparse", "shuffle", "esparse", "comments", "blanks", "dorder", "crlf", "nofinal")})

# ------------------------------------------------------------------ FLAC3D


def flac3d(case):
    s, p, rng = start(case)
    if s["b7"]:  # bricks with a collapsed edge: their last two vertices coincide
        o = list(FLP["hexahedron"])
        for t, c in p["cells"]:
            for r in c if t == "hexahedron" else ():
                if rng.random() < 0.5:
                    r[o.index(7)] = r[o.index(6)]
    n = len(p["points"])
    nid = ids(rng, n, s["sparse"], s["shuffle"])
    nid = [x + 2**31 for x in nid] if s["sparse"] and rng.random() < 0.2 else nid
    nid = nid if max(nid) < 2**32 else ids(rng, n, False, s["shuffle"])
    faces = [(t, np.asarray(c)) for t, c in p["cells"] if TDIM[t] == 2]
    zones = [(t, np.asarray(c)) for t, c in p["cells"] if TDIM[t] == 3]
    q = merge_adjacent(mk(p["points"], faces))["cells"] + merge_adjacent(mk(p["points"], zones))["cells"]
    sets = {}
    ztxt, zbin = [], b""
    res = {}
    for flag, blocks, letter in (("zone", zones, "Z"), ("face", faces, "F")):
        tot = sum(len(c) for _, c in blocks)
        cid = ids(rng, tot, s["esparse"], s["shuffle"])
        body, groups, bb, gb = [], [], b"", b""
        k = 0
        for t, c in blocks:
            for r in c:
                f = [nid[i] for i in inv(FLP.get(t), r)]
                name = FL[t]
                if len(f) == 8 and f[6] == f[7] and s["b7"]:
                    f, name = f[:7], "B7"
                body.append(f"{letter} {name} {cid[k]} " + " ".join(map(str, f)))
                bb += struct.pack(f"<2I{len(f)}I", cid[k], len(f), *f)
                k += 1
        ng = int(rng.integers(0, 4)) if tot and s["groups"] else 0
        used = set()
        for _ in range(ng):
            name, slot = pick(rng, ["a", "Group 1", "wall-2", "x=1", "long " * 60 + "name"]), pick(rng, ["1", "5", "Default", "Geo 2" if not s["binary"] else "g"])
            if (name, slot) in used:
                continue
            used.add((name, slot))
            sel = rng.permutation(tot)[: int(rng.integers(1, tot + 1))]
            qt = pick(rng, ["'", '"'])
            groups.append(f"{letter}GROUP {qt}{name}{qt} SLOT {slot}")
            for ch in chunks([str(cid[i]) for i in sel], int(rng.integers(1, 11))):
                groups.append(pick(rng, ["", " ", "    "]) + " ".join(ch))
            if s["comments"] and rng.random() < 0.3:
                groups.append(pick(rng, ["* comment", ""]))
            gb += struct.pack("<H", len(name)) + name.encode() + struct.pack("<H", len(slot)) + slot.encode() + struct.pack(f"<I{len(sel)}I", len(sel), *[cid[i] for i in sel])
            sets[f"{flag}:{name}:{slot}"] = (flag, [int(i) for i in sel])
        res[flag] = (tot, body, groups, bb, gb, len(used))
    if s["binary"]:
        b = struct.pack("<2I", 1375135718, 3) + struct.pack("<I", n)
        for i in range(n):
            b += struct.pack("<I3d", nid[i], *[float(x) for x in p["points"][i]])
        for flag in ("zone", "face"):
            tot, _, _, bb, gb, m = res[flag]
            b += struct.pack("<I", tot) + bb + struct.pack("<I", m) + gb
        data = b
    else:
        out = ["* FLAC3D grid produced elsewhere"] if s["comments"] else []
        if s["comments"]:
            out.append("* GRIDPOINTS")
        for i in range(n):
            out.append(f"G {nid[i]} " + pick(rng, [" ", "  "]).join(num(rng, x) for x in p["points"][i]))
        flags_ = ["zone", "face"] if not s["facesfirst"] else ["face", "zone"]
        for flag in flags_:
            if s["comments"]:
                out.append(pick(rng, [f"* {flag.upper()}S", ""]))
            out += res[flag][1]
            if s["groupsnext"]:
                out += res[flag][2]
        if not s["groupsnext"]:
            for flag in flags_:
                out += res[flag][2]
        data = eol("\n".join(out) + "\n", s)
    cs = {}
    nf = sum(len(c) for _, c in faces)
    for name, (flag, sel) in sets.items():
        per, at = [], 0
        for t, c in q:
            off = at - (nf if flag == "zone" else 0) if True else 0
            if (TDIM[t] == 3) == (flag == "zone"):
                per.append(np.array([i - off for i in sel if off <= i < off + len(c)], dtype=int))
            else:
                per.append(np.array([], dtype=int))
            at += len(c)
        cs[name] = per
    return mk(p["points"], q, {}, {}, {}, cs), {"f.f3grid": data}, "f.f3grid"


FL_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=tuple(FL), max_blocks=5, layouts=())), "style": flags("sparse", "shuffle", "esparse", "comments", "groups", "binary", "facesfirst", "groupsnext", "crlf", "b7")})

# ------------------------------------------------------------------ DOLFIN


def dolfin(case):
    s, p, rng = start(case)
    n, dim = p["points"].shape
    (t, c), = p["cells"]
    ct = {"triangle": "triangle", "tetra": "tetrahedron"}[t]
    nl = "\n" if not s["oneline"] else " "
    qt = "'" if s["single"] else '"'

    def at(d):
        it = list(d.items())
        if s["shuffle"]:
            it = [it[i] for i in rng.permutation(len(it))]
        return " ".join(f"{k}={qt}{v}{qt}" for k, v in it)

    out = ['<?xml version="1.0" encoding="UTF-8"?>'] if s["decl"] else []
    if s["comments"]:
        out.append("<!-- <vertex/> -->")
    out.append("<dolfin " + pick(rng, ["xmlns:dolfin=\"http://www.fenicsproject.org\"", "nsmap=\"0\"", ""]) + ">")
    out.append(f"<mesh {at({'celltype': ct, 'dim': dim})}>")
    out.append(f"<vertices size={qt}{n}{qt}>")
    for i in (rng.permutation(n) if s["anyorder"] else range(n)):
        a = at({"index": i, **{k: num(rng, v) for k, v in zip("xyz", p["points"][i])}})
        out.append(f"<vertex {a}/>" if not s["long"] else f"<vertex {a}></vertex>")
    out.append("</vertices>")
    out.append(f"<cells size={qt}{len(c)}{qt}>")
    for i in (rng.permutation(len(c)) if s["anyorder"] else range(len(c))):
        out.append(f"<{ct} {at({'index': i, **{f'v{k}': int(v) for k, v in enumerate(c[i])}})}/>")
    out.append("</cells></mesh></dolfin>")
    files = {"f.xml": nl.join(out).encode()}
    cd = {}
    for name in ("markers", "mf 2", "phys")[: int(rng.integers(0, 4))]:
        ty = pick(rng, ["int", "uint", "float"])
        v = rng.integers(0, 99, len(c)) if ty != "float" else rng.uniform(-1, 1, len(c))
        if ty == "int":
            v = v - 50
        o = ['<?xml version="1.0"?>'] if s["decl"] else []
        o.append(f"<dolfin><mesh_function {at({'type': ty, 'dim': 2 if t == 'triangle' else 3, 'size': len(c)})}>")
        for i in (rng.permutation(len(c)) if s["anyorder"] else range(len(c))):
            o.append(f"<entity {at({'index': i, 'value': v[i] if ty != 'float' else num(rng, v[i])})}/>")
        o.append("</mesh_function></dolfin>")
        files[f"f_{name}.xml"] = nl.join(o).encode()
        cd[name] = [v]
    return mk(p["points"], [(t, np.asarray(c))], {}, cd), files, "f.xml"


DOL_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=("triangle", "tetra"), dims=(3, 2), max_blocks=1, max_cells=8, layouts=())),
                                   "style": flags("decl", "comments", "shuffle", "anyorder", "long", "oneline", "single")})

FORMATS = {
    "medit": ("medit", medit, MEDIT_CASES), "meshb": ("medit", meshb, MESHB_CASES), "netgen": ("netgen", netgen, NG_CASES), "su2-2d": ("su2", su2, su2_cases(2, ("triangle", "quad", "line"))),
    "su2-3d": ("su2", su2, su2_cases(3, ("tetra", "hexahedron", "wedge", "pyramid", "triangle", "quad"))), "tetgen": ("tetgen", tetgen, TET_CASES), "ugrid": ("ugrid", ugrid, UG_CASES),
    "tecplot": ("tecplot", tecplot, TEC_CASES), "avsucd": ("avsucd", avsucd, AVS_CASES), "flac3d": ("flac3d", flac3d, FL_CASES), "dolfin": ("dolfin-xml", dolfin, DOL_CASES),
}
