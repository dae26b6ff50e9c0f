"""Abaqus, Nastran, PERMAS, mdpa and ANSYS decks as other programs write them, plus the mesh they describe."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from .fmt_fem import ABQ, ANS, NAS_ORDER, NAS_T, PER, PER_ORDER, mk
from .mesh import NN, Dom, build, merge_adjacent, pad3, recipes

B = st.booleans()


def flags(*names, **more):
    return st.fixed_dictionaries({**{k: B for k in names}, **more})


def ids(rng, n, sparse, shuffle, start=1):
    """n distinct positive identifiers"""
    if not sparse:
        a = np.arange(start, start + n)
    else:
        a = start + np.cumsum(rng.integers(1, rng.choice([3, 50, 100000]), n)) - 1
    if shuffle:
        a = disorder(rng, a)
    return [int(x) for x in a]


def disorder(rng, a):
    """increasing identifiers in another order: at random, reversed, rotated, or sorted but for a few"""
    a, u, n = np.array(a), rng.random(), len(a)
    if u < 0.4 or n < 3:
        return rng.permutation(a)
    if u < 0.5:
        return a[::-1].copy()
    if u < 0.6:
        return np.roll(a, int(rng.integers(1, n)))
    for _ in range(int(rng.integers(1, 4))):
        i, w = int(rng.integers(0, n - 1)), int(rng.choice([2, 2, 3, n]))
        if rng.random() < 0.7:
            a[i:i + w] = a[i:i + w][::-1].copy()
        else:
            j = int(rng.integers(0, n))
            a[i], a[j] = a[j], a[i]
    return a


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def num(rng, x):
    """a spelling of the float x which converts back to exactly x"""
    x = float(x)
    c = [repr(x), f"{x:.17e}", f"{x:.17E}", f"{x:.17g}"]
    if x == int(x) and abs(x) < 1e6:
        c += [f"{int(x)}.", f"{int(x)}.0", f"{int(x)}", f"{int(x)}.0e0", f"{int(x)}E+00"]
        if x < 0 or (x == 0 and np.signbit(x)):
            c = [s for s in c if s.startswith("-")]
    elif 0 < x < 1 and repr(x).startswith("0."):
        c += [repr(x)[1:], "+" + repr(x)]
    return pick(rng, c)


def eol(text, style):
    if style.get("crlf"):
        text = text.replace("\n", "\r\n")
    if style.get("nofinal"):
        text = text.rstrip("\r\n")
    return text.encode()


# ------------------------------------------------------------------ Abaqus
ABQ_BY = {}
for _n, _t in ABQ.items():
    ABQ_BY.setdefault(_t, []).append(_n)
SETN = ("s1", "wall", "In-Flow", "Set_2", "x1", "_int")


def abaqus(case):
    s = case["style"]
    p = build(case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    p["points"] = p["points"].astype("f8")
    n = len(p["points"])
    nid = ids(rng, n, s["sparse"], s["shuffle"])
    out = []
    names = [s.get("setn", "") + x for x in SETN]

    def comment():
        if s["comments"] and rng.random() < 0.4:
            out.append(pick(rng, ["**", "** a comment", "**, 1, 2, 3", "** *NODE", "**1,2,3", "", "  "]))

    def kw(name, /, **params):
        f = {"upper": str.upper, "lower": str.lower, "title": str.capitalize}[s["case"]]
        sep = pick(rng, [",", ", ", ",  "]) if s["blanks"] else ", "
        eq = pick(rng, ["=", " = ", "= "]) if s["blanks"] else "="
        comment()
        out.append("*" + sep.join([f(name)] + [f(k) + (eq + v if v is not None else "") for k, v in params.items()]))

    def ints(xs, per=16):
        j = pick(rng, [",", ", ", ",   "]) if s["blanks"] else ", "
        ls = chunks([str(x) for x in xs], per)
        for i, c in enumerate(ls):
            comment()
            out.append((" " if s["blanks"] else "") + j.join(c) + ("," if i < len(ls) - 1 and s["trail"] else ""))

    kw("heading")
    out.append("a model written elsewhere, 1, 2")
    if s["extra"]:
        kw("preprint", echo="NO", model="NO")
        kw("part", name="Part-1")
    parts = np.array_split(np.arange(n), 2) if s["nodes2"] and n > 1 else [np.arange(n)]
    point_lines = [f"{nid[i]}, " + ", ".join(num(rng, x) for x in p["points"][i]) for i in range(n)]
    tail = []
    if len(parts) == 2 and s["late"]:
        tail = [point_lines[i] for i in parts[1]]
        # the cells only use the first half; sets may use all later on
    for part in parts[: 1 if tail else 2]:
        kw("node")
        for i in part:
            comment()
            out.append((" " if s["blanks"] else "") + point_lines[i] + (" " if s["trail"] else ""))
    limit = len(parts[0]) if tail else n
    eid, emap, cells, cs, ps = [], {}, [], {}, {}
    tot = sum(len(c) for _, c in p["cells"])
    pool = ids(rng, tot, s["esparse"], s["eshuffle"])
    for t, c in p["cells"]:
        name = pick(rng, ABQ_BY[t])
        par = {"type": name.lower() if s["lowtype"] else name}
        elset = pick(rng, names) if s["elset"] and rng.random() < 0.6 else None
        if elset:
            par["elset"] = elset
        if s["order"] and elset:
            par = dict(reversed(list(par.items())))
        kw("element", **par)
        c = np.asarray(c) % limit if limit < n else np.asarray(c)
        for k, row in enumerate(c):
            e = pool.pop()
            emap[e] = (len(cells), k)
            eid.append(e)
            v = [e] + [nid[i] for i in row]
            per = 16
            if len(v) <= 16 and s["wrap"]:
                per = int(rng.integers(2, 17))
            ls = chunks([str(x) for x in v], per)
            for i, w in enumerate(ls):
                comment()
                out.append(", ".join(w) + ("," if i < len(ls) - 1 else ""))
        if elset:
            cs.setdefault(elset, []).extend((len(cells), k) for k in range(len(c)))
        cells.append((t, c))
    if tail:
        kw("node")
        out.extend(tail)
    for what, m, tab in (("nset", ps, nid), ("elset", cs, eid)):
        for _ in range(int(rng.integers(0, 4)) if s["sets"] else 0):
            nm = pick(rng, names)
            if len(tab) == 0:
                continue
            r = rng.random()
            if r < 0.25 and not s["sparse" if what == "nset" else "esparse"]:
                a = int(rng.integers(1, len(tab) + 1))
                b = int(rng.integers(a, len(tab) + 1))
                d = int(rng.integers(1, 4))
                sel = [i for i in range(a, b + 1, d)]
                kw(what, **{what: nm, "generate": None})
                out.append(f"{a}, {b}, {d}")
            elif r < 0.45 and any(k != nm for k in m):
                other = pick(rng, sorted(k for k in m if k != nm))
                kw(what, **{what: nm})
                out.append(other)
                m.setdefault(nm, []).extend(list(m[other]))
                continue
            else:
                sel = [tab[int(i)] for i in rng.permutation(len(tab))[: int(rng.integers(1, len(tab) + 1))]]
                kw(what, **{what: nm})
                ints(sel, int(rng.integers(1, 17)))
            m.setdefault(nm, []).extend((nid.index(i) if what == "nset" else emap[i]) for i in sel)
    if s["extra"]:
        kw("material", name="Steel")
        kw("elastic")
        out.append("210000., 0.3")
        kw("end part")
    csets = {k: [np.array([j for b, j in v if b == i], dtype=int) for i in range(len(cells))] for k, v in cs.items()}
    e = mk(p["points"], cells, ps={k: np.array(v, dtype=int) for k, v in ps.items()}, cs=csets)
    text = "\n".join(out) + ("" if s["nonl"] else "\n")
    return e, {"f.inp": eol(text, s)}, "f.inp"


ABQ_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(ABQ_BY), dims=(3, 2), max_blocks=5, layouts=(), max_extra=12)),
    "style": flags("sparse", "shuffle", "comments", "blanks", "trail", "extra", "nodes2", "late", "esparse", "eshuffle", "lowtype", "elset", "order", "wrap", "sets", "crlf", "nonl",
                   case=st.sampled_from(["upper", "lower", "title"])),
})



def abaqus_include(case):
    """a deck which includes another one that is complete in itself; the included deck's cell sets aren't part of the mesh"""
    inc_case, where = case["inc"], case["where"]
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 11))
    e, files, _ = abaqus(case)
    i, ifiles, _ = abaqus(inc_case)
    lines = files["f.inp"].decode().split("\n")
    marks = [k for k, x in enumerate(lines) if x.startswith("*") and not x.startswith("**")]
    at = len(lines) - (0 if case["style"]["nonl"] else 1)
    if where != "end":
        at = marks[{"start": 0, "mid": int(rng.integers(0, len(marks)))}[where]]
    npt = nblk = 0
    sect = ""
    for x in lines[:at]:
        if x.startswith("**") or not x.strip():
            continue
        if x.startswith("*"):
            sect = x[1:].split(",")[0].strip().upper()
            nblk += sect == "ELEMENT"
        elif sect == "NODE":
            npt += 1
    sub = case["sub"]
    ref = f"{sub}/part.inp" if sub else "part.inp"
    lines.insert(at, {"upper": "*INCLUDE,INPUT=", "lower": "*include, input = ", "title": "*Include, Input="}[case["style"]["case"]] + ref + ("\r" if case["style"]["crlf"] else ""))
    inc = ifiles["f.inp"]
    if case["nomesh"]:
        inc, i = b"** materials\n*MATERIAL, NAME=Steel\n*ELASTIC\n210000., 0.3\n", mk(np.zeros((0, e["points"].shape[1])), [])
    m = len(i["points"])
    new = lambda a: np.where(np.asarray(a) >= npt, np.asarray(a) + m, a).astype(int)  # noqa: E731
    cells = [(t, new(c)) for t, c in e["cells"]]
    cells[nblk:nblk] = [(t, np.asarray(c) + npt) for t, c in i["cells"]]
    ps = {k: new(v) for k, v in e["point_sets"].items()}
    for k, v in i["point_sets"].items():
        ps[k] = np.asarray(v, dtype=int) + npt
    none = [np.zeros(0, dtype=int)] * len(i["cells"])
    cs = {k: v[:nblk] + none + v[nblk:] for k, v in e["cell_sets"].items()}
    out = {"f.inp": "\n".join(lines).encode(), ref: inc}
    return mk(np.concatenate([e["points"][:npt], i["points"], e["points"][npt:]]), cells, ps=ps, cs=cs), out, "f.inp"


@st.composite
def abq_include_cases(draw):
    c = draw(ABQ_CASES)
    d = draw(ABQ_CASES)
    d["mesh"]["dim"] = c["mesh"]["dim"]
    d["style"]["setn"] = "i-"
    c.update(inc=d, where=draw(st.sampled_from(["start", "mid", "mid", "end"])), sub=draw(st.sampled_from(["", "", "parts"])), nomesh=draw(st.integers(0, 5)) == 5)
    return c


# ------------------------------------------------------------------ Nastran
NAS_KW = {"vertex": ["CELAS1"], "line": ["CROD", "CBAR", "CBEAM", "CBUSH", "CBUSH1D", "CGAP"], "triangle": ["CTRIA3", "CTRIAR"], "triangle6": ["CTRIA6", "CTRIA6", "CTRIAX6", "CTRAX6"], "quad": ["CQUAD4", "CQUADR", "CSHEAR"],
          "quad8": ["CQUAD8"], "quad9": ["CQUAD9"], "tetra": ["CTETRA"], "tetra10": ["CTETRA"], "pyramid": ["CPYRAM", "CPYRA"], "pyramid13": ["CPYRAM", "CPYRA"], "wedge": ["CPENTA"],
          "wedge15": ["CPENTA"], "hexahedron": ["CHEXA"], "hexahedron20": ["CHEXA"]}

# what may follow the nodes: material angle, offset, thicknesses
NAS_TAIL = {"CELAS1": [[1], [3], ["", ""]], "CTRIA3": [["30."], ["0.", ".5"], [".0", "", "", "", "", "1.", "1.", "1."]], "CTRIA6": [["45."], ["0.0", ".1"], ["", "", "1.", "1.", "1."]], "CTRIAX6": [["30."]], "CTRAX6": [["30."]],
            "CQUAD4": [["30."], ["0.", ".5"], ["", "", "", "", "1.", "1.", "1.", "1."]], "CQUAD8": [["1.", "1.", "1.", "1.", "0.", ".5"]]}


def nas_num(rng, x, width):
    """spellings of a multiple of 1/8 (exact in few digits)"""
    x = float(x)
    c = [f"{x:.3f}", f"{x:.3f}".rstrip("0"), repr(x)]
    a, sg = abs(x), "-" if x < 0 else ""
    m, e = f"{a:.6e}".split("e")
    m = m.rstrip("0")
    e = int(e)
    es = f"+{e}" if e >= 0 else str(e)
    c += [f"{sg}{m}{es}", f"{sg}{m}E{es}", f"{sg}{m}e{es}", f"{sg}{m}E{e}", f"{sg}{m}D{es}", f"{sg}{m}d{e}"]
    if 0 < a < 1:
        c.append(sg + f"{a:.3f}".rstrip("0")[1:])
    c = [z for z in c if len(z) <= width and "." in z]
    return pick(rng, c)


def nas_field(rng, width):
    """any decimal number that fits the field: (text, value)"""
    if rng.random() < 0.4:
        x = np.round(rng.uniform(-100, 100) * 8) / 8
        return nas_num(rng, x, width), x
    sg = pick(rng, ["", "", "-", "+"])
    e = int(rng.integers(-9, 10)) if width == 8 else int(rng.integers(-30, 31))
    k = int(rng.integers(1, 4 if width == 8 else 10))
    m = "".join(str(d) for d in rng.integers(0, 10, k))
    m = pick(rng, [f"{rng.integers(1, 10)}.{m[1:]}", f"{rng.integers(1, 10)}.{m[1:]}", f".{m}", f"0.{m}"])
    es = f"+{e}" if e >= 0 else str(e)
    c = [f"{sg}{m}{es}", f"{sg}{m}{es}", f"{sg}{m}E{es}", f"{sg}{m}e{e}", f"{sg}{m}D{es}", f"{sg}{m}d{e}"]
    c = [z for z in c if len(z) <= width] or ["0.0"]
    t = pick(rng, c)
    return t, float(f"{sg}{m}e{e}") if t != "0.0" else 0.0


def card(rng, s, kw, fields, form, tag):
    """the lines of one bulk data entry"""
    f = list(fields)
    if form == "free":
        blocks = chunks(f, 8)
        out = []
        for i, b in enumerate(blocks):
            head = kw if i == 0 else pick(rng, ["+", "", "+C"] if not s["tags"] else [f"+{tag}{i}"])
            line = ",".join([head] + [str(x) for x in b])
            if i < len(blocks) - 1:
                line += f",+{tag}{i + 1}" if s["tags"] else ","
            out.append(line)
        return out
    large = form == "large"
    per, w = (4, 16) if large else (8, 8)
    blocks = chunks(f, per)
    if large and len(blocks) % 2 and rng.random() < 0.5 and s["pad"]:
        blocks.append([])
    out = []
    auto = not s["tags"] and not large
    for i, b in enumerate(blocks):
        if i == 0:
            head = kw + ("*" if large else "")
        elif large:
            head = "*" + (f"{tag}{i}" if s["tags"] else "")
        else:
            head = "" if auto else f"+{tag}{i}"
        body = "".join((str(x).rjust(w) if s["right"] else str(x).ljust(w)) for x in b)
        line = head.ljust(8) + body
        if i < len(blocks) - 1:
            line = line.ljust(72)
            if s["tags"]:
                line += ("*" if large else "+") + f"{tag}{i + 1}"
            else:
                line = line if not s["strip"] else line.rstrip()
        elif s["strip"]:
            line = line.rstrip()
        else:
            line = line.ljust(pick(rng, [72, 80]))
        out.append(line)
    return out


def nastran(case):
    s = case["style"]
    p = build(case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    n = len(p["points"])
    pts = np.zeros((n, 3))
    nid = ids(rng, n, s["sparse"], s["shuffle"])
    nid = [i % 9999999 for i in nid] if max(nid) < 9999999 else ids(rng, n, False, s["shuffle"])
    out = ["$ a deck"]
    if s["exec"]:
        out = ["SOL 101", "CEND", "TITLE = A, B", "SUBCASE 1", "  LOAD = 2"]
    out.append("BEGIN BULK" + (" " if s["exec"] and rng.random() < 0.3 else ""))

    def noise():
        if s["comments"] and rng.random() < 0.35:
            out.append(pick(rng, ["$", "$ comment", "$GRID,9,,0.,0.,0.", "", "$ CTRIA3 1 1 1 2 3", "$*", "// comment", "# 1 2 3", "  "]))
        if s["cards"] and rng.random() < 0.25:
            out.extend(pick(rng, [["MAT1           1 210000.             0.3"], ["PSHELL,1,1,0.1,1,,1"], ["MAT1*                  1         210000.                              .3", "*"],
                                  ["SPC1,1,123456,1,2,3,4,5,6,+", "+,7,8"], ["FORCE          1       1       0      1.      0.      0.      1."],
                                  ["PARAM,POST,-1"], ["RBE2           1       1  123456       2       3       4       5       6", "               7       8"]]))

    prefs, crefs = [], []
    for i in range(n):
        noise()
        form = s["pform"] if s["pform"] != "mixed" else pick(rng, ["free", "small", "large"])
        ref = "" if s["noref"] or rng.random() < 0.3 else int(rng.integers(0, 100))
        prefs.append(ref)
        f = [nid[i], ref]
        for j in range(3):
            text, pts[i, j] = nas_field(rng, 16 if form != "small" else 8)
            f.append(text)
        if s["gridtail"] and rng.random() < 0.5:
            f += pick(rng, [[0], ["", 123456], [0, 345], [7]])
        out.extend(card(rng, s, "GRID", f, form, f"P{i}"[:5]))
    # blocks in the file are merged if of one type; several keywords of one type mix freely
    cells, cids = [], []
    pool = ids(rng, sum(len(c) for _, c in p["cells"]), s["esparse"], s["shuffle"])
    pool = pool if max(pool, default=0) < 9999999 else ids(rng, len(pool), False, s["shuffle"])
    for t, c in p["cells"]:
        refs = []
        for row in np.asarray(c):
            noise()
            kw = pick(rng, NAS_KW[t])
            e = pool.pop()
            ref = "" if s["norefc"] or rng.random() < 0.2 else int(rng.integers(1, 1000))
            refs.append((e, ref))
            nodes = [nid[i] for i in row]
            if t in NAS_ORDER:
                nodes = [nodes[j] for j in NAS_ORDER[t]]
            if kw in ("CTRIAX6", "CTRAX6"):  # corners and midpoints alternate
                nodes = [nodes[j] for j in (0, 3, 1, 4, 2, 5)]
            f = [e, ref] + nodes
            form = s["cform"] if s["cform"] != "mixed" else pick(rng, ["free", "small", "large"])
            if kw in ("CBAR", "CBEAM", "CBUSH", "CGAP") and s["orient"]:
                f += pick(rng, [[nid[0]], ["0.", "0.", "1."], ["1.", ".0", "0."]])
            if kw in NAS_TAIL and s.get("tail"):
                f += NAS_TAIL[kw][int(rng.integers(0, len(NAS_TAIL[kw])))]
            out.extend(card(rng, s, kw, f, form, f"E{e}"[:5]))
        cells.append((t, np.asarray(c)))
        crefs.append(refs)
    noise()
    out.append("ENDDATA")
    pd, cd = {}, {}
    if any(r != "" for r in prefs):
        pd["nastran:ref"] = np.array([0 if r == "" else r for r in prefs])
    if any(r != "" for b in crefs for _, r in b):
        cd["nastran:ref"] = [np.array([e if r == "" else r for e, r in b]) for b in crefs]
    e = merge_adjacent(mk(pts, cells, pd, cd))
    return e, {"f.bdf": eol("\n".join(out) + "\n", s)}, "f.bdf"


NAS_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=NAS_T, dims=(3,), max_blocks=5, layouts=())),
    "style": flags("sparse", "shuffle", "esparse", "exec", "comments", "cards", "noref", "norefc", "gridtail", "orient", "tags", "right", "strip", "pad", "tail", "crlf", "nofinal",
                   pform=st.sampled_from(["small", "large", "free", "mixed"]), cform=st.sampled_from(["small", "large", "free", "mixed"])),
})

# ------------------------------------------------------------------ PERMAS
PER_BY = {}
for _n, _t in PER.items():
    PER_BY.setdefault(_t, []).append(_n)


def permas(case):
    s = case["style"]
    p = pad3(build(case["mesh"]))
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    p["points"] = p["points"].astype("f8")
    n = len(p["points"])
    nid = ids(rng, n, s["sparse"], s["shuffle"])
    out = ["!PERMAS DataFile Version 18.0", "$ENTER COMPONENT NAME=KOMPO_1 DOFTYPE=DISP MATH", "$STRUCTURE", "!"]

    def noise():
        if s["comments"] and rng.random() < 0.4:
            out.append(pick(rng, ["!", "! comment", "! 1 2 3", "!$COOR", "", "  "]))

    out.append("$COOR" + pick(rng, ["", " NSET = ALL_NODES"]) if s["extra"] else "$COOR")
    for i in range(n):
        noise()
        out.append(pick(rng, ["", "   "]) + "  ".join([str(nid[i])] + [num(rng, x) for x in p["points"][i]]))
    pool = ids(rng, sum(len(c) for _, c in p["cells"]), s["esparse"], s["shuffle"])
    for t, c in p["cells"]:
        noise()
        out.append(f"$ELEMENT TYPE={pick(rng, PER_BY[t])}" + (" ESET=E1" if s["extra"] else ""))
        for row in np.asarray(c):
            noise()
            v = [nid[i] for i in row]
            o = PER_ORDER.get(t)
            if o:
                v = [v[j] for j in o]
            v = [pool.pop()] + v
            per = int(rng.integers(3, 12)) if s["wrap"] else len(v)
            ls = chunks([str(x) for x in v], per)
            for i, w in enumerate(ls):
                out.append(("& " if i else "") + " ".join(w) + (" !" if i < len(ls) - 1 else ""))
        out.append("!")
    if s["extra"]:
        out += ["$END STRUCTURE", "!", "$SYSTEM NAME = NORM", "$ELPROP", "  E1 MATERIAL = STEEL", "$END SYSTEM"]
    out += ["$EXIT COMPONENT", "$FIN"]
    return mk(p["points"], p["cells"]), {"f.dato": eol("\n".join(out) + "\n", s)}, "f.dato"


PER_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(PER_BY), dims=(3,), max_blocks=5, layouts=())),
    "style": flags("sparse", "shuffle", "esparse", "comments", "extra", "wrap", "crlf", "nofinal"),
})

# ------------------------------------------------------------------ mdpa
MDPA = {"line": ["Line2D2", "Line3D2"], "line3": ["Line2D3"], "triangle": ["Triangle2D3", "Triangle3D3"], "triangle6": ["Triangle2D6", "Triangle3D6"],
        "quad": ["Quadrilateral2D4", "Quadrilateral3D4"], "quad8": ["Quadrilateral2D8", "Quadrilateral3D8"], "quad9": ["Quadrilateral2D9", "Quadrilateral3D9"], "tetra": ["Tetrahedra3D4"],
        "tetra10": ["Tetrahedra3D10"], "hexahedron": ["Hexahedra3D8"], "wedge": ["Prism3D6"], "vertex": ["Point2D", "Point3D"]}


def mdpa(case):
    s = case["style"]
    p = pad3(build(case["mesh"]))
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    p["points"] = p["points"].astype("f8")
    n = len(p["points"])
    nid = ids(rng, n, s["sparse"], s["shuffle"])
    out = []

    def noise():
        if s["comments"] and rng.random() < 0.5:
            out.append(pick(rng, ["", "// comment", "  ", "// 1 2 3"]))

    noise()
    out += ["Begin ModelPartData", "//  VARIABLE_NAME value", "End ModelPartData", ""]
    if s["extra"]:
        out += ["Begin Properties 0", "  DENSITY 7.85", "  Begin Table 1 TEMPERATURE VISCOSITY", "    0. 1.", "  End Table", "End Properties"]
    noise()
    ind = pick(rng, ["", " ", "    ", "\t"]) if s["indent"] else ""
    out.append("Begin Nodes" + ("  // id X Y Z" if s["extra"] else ""))
    for i in range(n):
        out.append(ind + pick(rng, [" ", "  ", "\t"]).join([str(nid[i])] + [num(rng, x) for x in p["points"][i]]))
    out.append("End Nodes")
    cells = []
    pool = ids(rng, sum(len(c) for _, c in p["cells"]), s["esparse"], s["shuffle"])
    for t, c in p["cells"]:
        noise()
        w = "Conditions" if s["conds"] and rng.random() < 0.5 else "Elements"
        name = pick(rng, MDPA[t])
        if s["names"]:
            name = pick(rng, ["", "SmallDisplacement", "SurfaceCondition"]) + name + pick(rng, ["", "N", "// GUI group identifier: Parts", " // a comment"])
        out.append(f"Begin {w} {name}")
        for row in np.asarray(c):
            out.append(ind + pick(rng, [" ", "  ", "\t"]).join(str(x) for x in [pool.pop(), int(rng.integers(0, 9))] + [nid[i] for i in row]))
        out.append(f"End {w}")
        cells.append((t, np.asarray(c)))
    if s["extra"]:
        out += ["Begin NodalData TEMPERATURE", f"{nid[0]} 0 1.5", "End NodalData", "", "Begin SubModelPart Inlet", "  Begin SubModelPartNodes", f"    {nid[0]}", "  End SubModelPartNodes",
                "  Begin SubModelPartElements", "    1", "  End SubModelPartElements", "End SubModelPart"]
    e = merge_adjacent(mk(p["points"], cells))
    return e, {"f.mdpa": eol("\n".join(out) + "\n", s)}, "f.mdpa"


MDPA_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(MDPA), dims=(3,), max_blocks=5, layouts=())),
    "style": flags("sparse", "shuffle", "esparse", "comments", "extra", "indent", "conds", "names", "crlf", "nofinal"),
})

# ------------------------------------------------------------------ ANSYS (Fluent) msh
ANS_NO = {t: k for k, t in ANS.items()}
FACE_NO = {"line": 2, "triangle": 3, "quad": 4}


def ansys(case):
    s = case["style"]
    p = build(case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 7))
    p["points"] = p["points"].astype("f8")
    n, dim = p["points"].shape
    first = 7 if s["first"] else 1
    out = b""
    hx = (lambda v: f"{v:X}") if s["upper"] else (lambda v: f"{v:x}")

    def put(x):
        nonlocal out
        out += x.encode() if isinstance(x, str) else x

    def spread(header):
        """other white space in a section header"""
        if not s["spread"]:
            return header
        head, rest = header.split(" (")
        w = lambda: pick(rng, [" ", "  ", "\t", " \t "])
        return head + pick(rng, ["", " ", "  "]) + "(" + pick(rng, ["", " "]) + w().join(rest[:-1].split()).replace("\0", "") + pick(rng, ["", " "]) + ")"

    def noise():
        if s["comments"] and rng.random() < 0.5:
            put(pick(rng, ['(0 "a comment")\n', '(0 "Zone sections (nested)")\n', "\n", '(0 "two\nlines")\n', "  \n", "(39 (2 fluid fluid-1 3)())\n", "(45 (2 fluid solid)())\n",
                           "(45 (3 wall wall-1)(\n(a . b)\n))\n"]))
        if s["other"] and rng.random() < 0.4:
            put(pick(rng, ["(4 (60 0 0 1 2 4 4 4 8 8 4))\n", "(18 (1 3 a b)(\n1 2\n3 4\na b\n))\n", "(12 (9 1 4 1 1))\n", "(13 (0 1 1f 0))\n", "(58 (1 2 3 4)(\n2 5 6\n1 a\n)\n)\n",
                           '(37 (\n("Variables" (\n(a 1)\n))\n))\n', "(12 (9 1 6 1 0)(\n1 1 3 3\n1 3\n))\n", "(12 (9 1 4 0 3))\n", "(10 (0 1 ff 0))\n"]))

    def body(header, arr, isint):
        """header without the type prefix, e.g. '10 (1 1 4 1 3)'"""
        form = s["form"] if s["form"] != "mixed" else pick(rng, ["", "20", "30"])
        section, header = header.split()[0], spread(header)
        gap = pick(rng, ["", " ", "\n"]) if s["gap"] else ""
        put(f"({form}{header}{gap}(" if form == "" else f"({form}{header}" + pick(rng, ["(\n", " (\n", "\n("]))
        if form == "":
            put("\n")
            for row in arr:
                put((" " if s["gap"] else "") + pick(rng, [" ", "\t", "  "] if s["spread"] else [" "]).join(hx(int(x)) if isint else num(rng, x) for x in row) + "\n")
            put(pick(rng, ["))\n", ")\n)\n", "))\n\n"]))
        else:
            dt = {("20", 0): "<f4", ("30", 0): "<f8", ("20", 1): "<i4", ("30", 1): "<i8"}[form, int(isint)]
            put(np.ascontiguousarray(arr).astype(dt).tobytes())
            put(f")\nEnd of Binary Section   {form}{section})\n")
        return arr.astype("f4").astype("f8") if form == "20" and not isint else arr

    noise()
    put('(1 "another program")\n')
    put(f"(2 {dim})\n")
    if s["decl"]:
        put(f"(10 (0 {hx(first)} {hx(n + first - 1)} 0 {dim}))\n")
        put(f"(12 (0 1 {hx(sum(len(c) for _, c in p['cells']))} 0 0))\n")
    pts, k = [], first
    for part in (np.array_split(p["points"], 2) if s["zones"] and n > 1 else [p["points"]]):
        noise()
        pts.append(body(f"10 (1 {hx(k)} {hx(k + len(part) - 1)} 1 {dim})", part, False))
        k += len(part)
    cells, ci, fi = [], 1, 1
    for t, c in p["cells"]:
        noise()
        c = np.asarray(c).astype("i8")
        if t in FACE_NO and (t == "line" or (s["faces"] and rng.random() < 0.5)):
            owners = np.stack([rng.integers(0, 9, len(c)), rng.integers(0, 9, len(c))], axis=1)
            if s["mixedfaces"] and s["form"] == "":
                rows = [" ".join([hx(FACE_NO[t])] + [hx(int(x) + first) for x in r] + [hx(int(x)) for x in o]) for r, o in zip(c, owners)]
                put(f"(13 (3 {hx(fi)} {hx(fi + len(c) - 1)} 3 0)(\n" + "\n".join(rows) + "\n))\n")
            else:
                body(f"13 (3 {hx(fi)} {hx(fi + len(c) - 1)} 3 {FACE_NO[t]})", np.column_stack([c + first, owners]), True)
            fi += len(c)
        else:
            body(f"12 (2 {hx(ci)} {hx(ci + len(c) - 1)} 1 {ANS_NO[t]})", c + first, True)
            ci += len(c)
        cells.append((t, c))
    noise()
    return mk(np.concatenate(pts), cells), {"f.msh": out}, "f.msh"


ANS_CASES = st.fixed_dictionaries({
    "mesh": recipes(Dom(types=tuple(ANS_NO) + ("line",), dims=(3, 2), max_blocks=5, layouts=(), pmodes=("int", "unit", "dec"))),
    "style": flags("comments", "upper", "decl", "zones", "faces", "mixedfaces", "gap", "first", "other", "spread", form=st.sampled_from(["", "20", "30", "mixed"])),
})

FORMATS = {"abaqus": (abaqus, ABQ_CASES), "nastran": (nastran, NAS_CASES), "permas": (permas, PER_CASES), "mdpa": (mdpa, MDPA_CASES), "ansys": (ansys, ANS_CASES)}
