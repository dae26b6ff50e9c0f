"""OBJ, OFF, PLY, STL, WKT and Neuroglancer files as other programs write them."""
from __future__ import annotations

import struct

import numpy as np
from hypothesis import strategies as st

from .fmt_fem import mk
from .fmt_surf import BYW, PLYT, SURF
from .foreign_fem import eol, flags, num, pick
from .foreign_simple import start
from .mesh import Data, Dom, recipes


def sep(rng, s, vals):
    """one line of white-space separated items"""
    vals = [str(v) for v in vals]
    if not s["blanks"]:
        return " ".join(vals)
    return pick(rng, ["", "  ", "\t"]) + pick(rng, [" ", "   ", "\t"]).join(vals) + pick(rng, ["", " ", "\t"])


def key(rng, s, k, vals):
    """like sep, for lines beginning with a keyword"""
    return sep(rng, s, [k, *vals])


# ------------------------------------------------------------------ OBJ


def obj(case):
    s, p, rng = start(case)
    pts = p["points"]
    n = len(pts)
    out = []

    def noise():
        if s["noise"] and rng.random() < 0.3:
            out.append(pick(rng, ["# f 1 2 3", "", "   ", "s off", "s 1", "usemtl wood", "o object", "mtllib a.mtl", "#", "vp 0.5 0.5", "cstype bezier"]))

    # the number of texture coordinates and normals is either that of the vertices or unrelated to it
    nt = {"no": 0, "same": n, "other": n + 1 + int(rng.integers(0, 3))}[s["vt"]]
    nn = {"no": 0, "same": n, "other": n + 1 + int(rng.integers(0, 3))}[s["vn"]]
    vt, vn = rng.integers(-99, 99, (nt, 2 if s["vt2"] else 3)) / 7, rng.integers(-99, 99, (nn, 3)) / 7

    def vline(i):
        tail = {"no": [], "w": ["1.0"], "rgb": ["0.5", "0.25", "1"]}[s["tail"]]
        return key(rng, s, "v", [num(rng, x) for x in pts[i]] + tail)

    def tline():
        return [key(rng, s, "vt", [num(rng, x) for x in r]) for r in vt] + [key(rng, s, "vn", [num(rng, x) for x in r]) for r in vn]

    done = 0
    if not s["interleave"]:
        for i in range(n):
            noise()
            out.append(vline(i))
        done = n
    if s["tfirst"]:
        out = tline() + out
    else:
        out += tline()
    gid, blocks, fresh = -1, [], True
    for t, c in p["cells"]:
        for r in c:
            if s["groups"] and rng.random() < 0.3:
                for _ in range(pick(rng, [1, 1, 2])):
                    out.append(key(rng, s, "g", pick(rng, [["a"], ["a", "b"], ["group_1"], []])))
                    gid += 1
                fresh = True
            noise()
            need = int(max(r)) + 1
            while done < need:
                out.append(vline(done))
                done += 1
            ws = []
            for v in r:
                v = int(v)
                j = v + 1 if not (s["negative"] and rng.random() < 0.5) else v - done
                a, b = int(rng.integers(0, max(nt, 1))) + 1, int(rng.integers(0, max(nn, 1))) + 1
                if s["negative"] and rng.random() < 0.5:
                    a, b = a - nt - 1, b - nn - 1
                ws.append(f"{j}/{a}/{b}" if nt and nn else f"{j}/{a}" if nt else f"{j}//{b}" if nn else str(j))
            out.append(key(rng, s, "f", ws))
            if fresh or len(blocks[-1][1][-1]) != len(r):
                blocks.append((BYW.get(len(r), "polygon"), [], []))
            blocks[-1][1].append([int(x) for x in r])
            blocks[-1][2].append(gid)
            fresh = False
    while done < n:
        out.append(vline(done))
        done += 1
    noise()
    pd = {}
    if nt == n:
        pd["obj:vt"] = vt
    if nn == n:
        pd["obj:vn"] = vn
    text = "\n".join(out) + ("\n" if s["newline"] else "")
    return mk(pts, [(t, np.array(c)) for t, c, _ in blocks], pd, {"obj:group_ids": [np.array(g) for *_, g in blocks]}), {"f.obj": eol(text, s)}, "f.obj"


NUMBER = st.sampled_from(["no", "no", "same", "other"])
OBJ_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=SURF, max_blocks=5, layouts=())),
                                   "style": flags("noise", "blanks", "interleave", "groups", "negative", "newline", "crlf", "tfirst", "vt2", vt=NUMBER, vn=NUMBER, tail=st.sampled_from(["no", "no", "w", "rgb"]))})

# ------------------------------------------------------------------ OFF


def off(case):
    s, p, rng = start(case)
    pts = p["points"]
    tri = np.concatenate([c for _, c in p["cells"]])
    out = ["OFF" + (" " if s["blanks"] else "")]
    if s["comments"]:
        out += ["# comment", "", "  ", "# 3 2 1"][: int(rng.integers(1, 5))]
    out.append(sep(rng, s, [len(pts), len(tri), pick(rng, [0, 7, 3 * len(tri)])]))
    for r in pts:
        if s["comments"] and rng.random() < 0.1:
            out.append("")
        out.append(sep(rng, s, [num(rng, x) for x in r]))
    for r in tri:
        if s["comments"] and rng.random() < 0.1:
            out.append("")
        out.append(sep(rng, s, [3, *(int(x) for x in r)]))
    text = "\n".join(out) + ("\n" if s["newline"] else "")
    return mk(pts, [("triangle", tri)], {}, {}), {"f.off": eol(text, s)}, "f.off"


OFF_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=("triangle",), max_blocks=1, max_cells=12, layouts=())), "style": flags("comments", "blanks", "newline", "crlf")})

# ------------------------------------------------------------------ PLY
NAMES = {}
for _k, _v in PLYT.items():
    NAMES.setdefault(_v, []).append(_k)


def ply(case):
    s, p, rng = start(case)
    enc = s["format"]
    pts = p["points"].astype(s["pdt"])
    n = len(pts)
    bo = ">" if enc.endswith("big_endian") else "<"

    def ty(d):
        return pick(rng, NAMES[np.dtype(d).str[1:]])

    cols = [(x, pts[:, i]) for i, x in enumerate("xyz")] + [(k, v) for k, v in p["point_data"].items()]
    if s["anyorder"]:
        cols = [cols[i] for i in rng.permutation(len(cols))]
    # faces
    faces = [(t, [int(x) for x in r], {k: v[b][i] for k, v in p["cell_data"].items()}) for b, (t, c) in enumerate(p["cells"]) for i, r in enumerate(c)]
    if s["alternate"]:
        faces = [faces[i] for i in rng.permutation(len(faces))]
    tex = s["tex"]  # a further list per face, as long as twice its corners
    for _, r, d in faces:
        if tex:
            d["texcoord"] = np.array(rng.integers(-99, 99, 2 * len(r)) / 8, "f4")
    ct, it = pick(rng, ["u1", "u1", "i1", "i4", "u2"]), pick(rng, ["i4", "i4", "u4", "u1", "i2"])
    it = it if n <= np.iinfo(it).max else "i4"
    props = [("vertex_indices", (ct, it))] + [(k, v[0].dtype.str[1:]) for k, v in p["cell_data"].items()]
    if tex:
        props.append(("texcoord", ("u1", "f4")))
    if s["anyorder"]:
        props = [props[i] for i in rng.permutation(len(props))]
    vi = "vertex_index" if s["viname"] else "vertex_indices"

    def noise():
        return [pick(rng, ["comment made by hand", "obj_info num_cols 512", "comment", "comment element face 3", "comment end_header"])] if s["comments"] and rng.random() < 0.4 else []

    head = ["ply"]
    if s["comments"] and rng.random() < 0.4:
        head.append("comment first")
    head.append(f"format {enc} 1.0")
    head += noise()
    head.append(f"element vertex {n}")
    for k, v in cols:
        head.append(f"property {ty(v.dtype)} {k}")
        if s["comments"] and rng.random() < 0.1:
            head.append("comment in between")
    head += noise()
    head.append(f"element face {len(faces)}")
    for k, d in props:
        head.append(f"property list {ty(d[0])} {ty(d[1])} {vi if k == 'vertex_indices' else k}" if isinstance(d, tuple) else f"property {ty(d)} {k}")
    head += noise()
    head.append("end_header")
    nl = "\r\n" if s["crlf"] else "\n"
    h = (nl.join(head) + nl).encode()
    b = b""

    def one(d, v):
        if np.dtype(d).kind == "f":
            if np.dtype(d).itemsize == 4:
                return f"{float(v):.9g}"
            return num(rng, v)
        return str(int(v))

    if enc == "ascii":
        lines = [sep(rng, s, [one(v.dtype, v[i]) for _, v in cols]) for i in range(n)]
        for _, r, d in faces:
            w = []
            for k, dt in props:
                if k == "vertex_indices":
                    w += [len(r), *r]
                elif isinstance(dt, tuple):
                    w += [len(d[k]), *(one(dt[1], x) for x in d[k])]
                else:
                    w.append(one(dt, d[k]))
            lines.append(sep(rng, s, w))
        b = (nl.join(lines) + (nl if s["newline"] else "")).encode()
    else:
        for i in range(n):
            for _, v in cols:
                b += np.array(v[i]).astype(v.dtype.newbyteorder(bo)).tobytes()
        for _, r, d in faces:
            for k, dt in props:
                if isinstance(dt, tuple):
                    x = r if k == "vertex_indices" else d[k]
                    b += np.array(len(x)).astype(np.dtype(dt[0]).newbyteorder(bo)).tobytes() + np.array(x).astype(np.dtype(dt[1]).newbyteorder(bo)).tobytes()
                else:
                    b += np.array(d[k]).astype(np.dtype(dt).newbyteorder(bo)).tobytes()
    blocks = []
    cd = {k: [] for k in [*p["cell_data"], *(["texcoord"] if tex else [])]}
    for _, r, d in faces:
        if not blocks or len(blocks[-1][1][-1]) != len(r):
            blocks.append((BYW.get(len(r), "polygon"), []))
            for v in cd.values():
                v.append([])
        blocks[-1][1].append(r)
        for k, v in cd.items():
            v[-1].append(d[k])
    e = mk(pts, [(t, np.array(c)) for t, c in blocks], dict(p["point_data"]), {k: [np.array(x) for x in v] for k, v in cd.items()})
    return e, {"f.ply": h + b}, "f.ply"


PT = ("f8", "f4", "i4", "i2", "u1", "u2", "u4", "i1")
PD = Data(dtypes=PT, shapes=((),), modes=("int", "unit", "wide"), names=("nx", "ny", "red", "alpha", "quality", "intensity", "s", "confidence"))
CD = Data(dtypes=PT, shapes=((),), modes=("int", "unit", "wide"), names=("red", "flags", "quality", "label"))
PLY_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=("triangle", "quad", "polygon", "line", "vertex"), max_blocks=4, layouts=(), pd=PD, cd=CD)),
                                   "style": flags("anyorder", "alternate", "tex", "viname", "comments", "crlf", "blanks", "newline", pdt=st.sampled_from(["f4", "f8", "f8"]),
                                                  format=st.sampled_from(["ascii", "ascii", "binary_little_endian", "binary_big_endian"]))})

# ------------------------------------------------------------------ STL


def facets(p):
    return np.concatenate([c for _, c in p["cells"]])


def weld(x, dt):
    ids, tri = {}, []
    for t in x.tolist():
        tri.append([ids.setdefault(tuple(c), len(ids)) for c in t])
    return np.array([list(k) for k in ids], dtype=dt), np.array(tri)


def stl_ascii(case):
    s, p, rng = start(case)
    x = p["points"][facets(p)]
    nrm = rng.integers(-99, 99, (len(x), 3)) / 8
    cs = str.upper if s["upper"] else str
    name = pick(rng, ["", "part", "a b c", "solid facet", "name 1 2 3", "x" * 90]) if s["name"] else ""
    ind = {0: ("", "", ""), 1: ("  ", "    ", "      "), 2: ("\t", "\t\t", "\t\t\t")}[int(s["indent"]) * int(rng.integers(1, 3))]
    out = [cs("solid") + (" " + name if name else "")]
    parts = np.sort(rng.integers(0, len(x) + 1, int(rng.integers(1, 4)))).tolist() if s["solids"] else []
    for i in range(len(x)):
        if i in parts:
            out += [cs("endsolid") + (" " + name if name else ""), cs("solid") + " other"]
        if s["blank"] and rng.random() < 0.3:
            out.append(pick(rng, ["", "   "]))
        out.append(ind[0] + cs("facet normal") + " " + pick(rng, [" ", "  "]).join(num(rng, v) for v in nrm[i]))
        out.append(ind[1] + cs("outer loop"))
        for v in x[i]:
            out.append(ind[2] + cs("vertex") + pick(rng, [" ", "   "]) + " ".join(num(rng, c) for c in v) + pick(rng, ["", " "]))
        out.append(ind[1] + cs("endloop"))
        out.append(ind[0] + cs("endfacet"))
    out.append(cs("endsolid") + (" " + name if name else ""))
    if s["blank"]:
        out += [""] * int(rng.integers(0, 3))
    pts, tri = weld(x, "f8")
    return mk(pts, [("triangle", tri)], {}, {"facet_normals": [nrm]}), {"f.stl": eol("\n".join(out) + ("\n" if s["newline"] else ""), s)}, "f.stl"


STLA_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=("triangle",), max_blocks=1, max_cells=8, layouts=(), pmodes=("int", "unit", "wide"))),
                                    "style": flags("upper", "name", "indent", "solids", "blank", "newline", "crlf")})


def stl_bin(case):
    s, p, rng = start(case)
    with np.errstate(all="ignore"):
        x = p["points"].astype("<f4")[facets(p)]
    h = pick(rng, [b"solid ascii? no", b"\0" * 80, b"STLB ATF 11.0 COLOR=\xff\x00\x10\x80", b"solid " + bytes(range(74)), b"\xff" * 80, b"facet normal"]) if s["header"] else b""
    b = h[:80].ljust(80, pick(rng, [b" ", b"\0"])) + struct.pack("<I", len(x))
    for t in x:
        b += np.array(rng.uniform(-1, 1, 3), "<f4").tobytes() + t.tobytes() + struct.pack("<H", int(rng.integers(0, 65536)) if s["attr"] else 0)
    pts, tri = weld(x, "f4")
    return mk(pts, [("triangle", tri)], {}, {}), {"f.stl": b}, "f.stl"


STLB_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=("triangle",), max_blocks=1, max_cells=12, layouts=(), pmodes=("int", "unit"))), "style": flags("header", "attr")})

# ------------------------------------------------------------------ WKT


def wkt(case):
    s, p, rng = start(case)
    pts = p["points"]
    if s["m"]:
        pts = np.column_stack([pts, np.arange(len(pts)) / 8])
    x = pts[facets(p)]
    w = (lambda: pick(rng, ["", " ", "\n", "  "])) if s["blanks"] else (lambda: "")
    g = (lambda: pick(rng, [" ", "\n", "   "])) if s["blanks"] else (lambda: " ")
    tag = "TIN" + ((" ZM" if s["m"] else " Z") if s["z"] else "")
    if s["lower"]:
        tag = tag.lower()
    ts = []
    for t in x:
        ring = [g().join(num(rng, c) for c in t[i]) for i in (0, 1, 2)]
        ring.append(g().join(num(rng, c) for c in t[0]))
        ts.append("(" + w() + "(" + w() + (w() + "," + w()).join(ring) + w() + ")" + w() + ")")
    text = w() + tag + pick(rng, ["", " "]) + "(" + w() + (w() + "," + (w() or pick(rng, ["", " "]))).join(ts) + w() + ")" + pick(rng, ["", "\n"])
    pt, tri = weld(x, "f8")
    return mk(pt, [("triangle", tri)], {}, {}), {"f.wkt": text.encode()}, "f.wkt"


WKT_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=("triangle",), max_blocks=1, max_cells=6, layouts=())), "style": flags("m", "blanks", "z", "lower")})

# ------------------------------------------------------------------ Neuroglancer


def ngl(case):
    s, p, rng = start(case)
    with np.errstate(all="ignore"):
        pts = p["points"].astype("<f4")
    tri = facets(p)
    return mk(pts, [("triangle", tri)], {}, {}), {"f": struct.pack("<I", len(pts)) + pts.tobytes() + tri.astype("<u4").tobytes()}, "f"


NGL_CASES = st.fixed_dictionaries({"mesh": recipes(Dom(types=("triangle",), max_blocks=1, max_cells=12, layouts=())), "style": flags()})

FORMATS = {"obj": ("obj", obj, OBJ_CASES), "off": ("off", off, OFF_CASES), "ply": ("ply", ply, PLY_CASES), "stl-ascii": ("stl", stl_ascii, STLA_CASES), "stl-bin": ("stl", stl_bin, STLB_CASES),
           "wkt": ("wkt", wkt, WKT_CASES), "neuroglancer": ("neuroglancer", ngl, NGL_CASES)}
