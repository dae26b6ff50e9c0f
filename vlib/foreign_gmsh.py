"""MSH files as Gmsh and other tools write them (sparse, unordered tags, entity blocks,
several physical groups, partitions, comments, foreign sections)."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from .fmt_gmsh import GN, GTYPES, PNAMES, _sq, periodic_for, to_gmsh_order
from .foreign_fem import disorder
from .mesh import TDIM, Data, Dom, build, merge_adjacent, pad3, recipes

FDATA = Data(dtypes=("f8",), shapes=((), (3,), (9,)), modes=("int", "unit", "special"), names=("a", "u", "vel x", "Z", "t2"), max=2)
FDOM = Dom(types=GTYPES, dims=(3,), pmodes=("int", "unit", "wide"), pd=FDATA, cd=FDATA, max_blocks=4, idt=("i8",))


def cases(version):
    b = st.booleans()
    return st.fixed_dictionaries({
        "mesh": recipes(FDOM),
        "v": st.sampled_from({"2.2": ["2.2", "2.2", "2", "2.1", "2.0"], "4.0": ["4.0"], "4.1": ["4.1", "4"]}[version]),
        "bin": b, "ds": st.sampled_from([8, 8, 4]), "sparse": b, "shuffle": b, "comments": b, "blank": b,
        "entities": b, "names": b, "periodic": b, "ntags": st.integers(2, 4), "crlf": st.sampled_from([False, False, True]),
        "ncom": st.integers(1, 3), "reals": st.integers(0, 2), "scheme": b, "trail": b, "ws": st.sampled_from([False, False, True]), "vtags": b,
        "eord": b, "order": b, "part": st.sampled_from([False, False, True]), "param": st.sampled_from([0, 0, 0, 0, 0, 0, 0, 0, 0, 1]), "large": st.sampled_from([False] * 24 + [True]), "seed2": st.integers(0, 2**20)})


class W:
    def __init__(self, binary):
        self.o, self.bin = [], binary

    def text(self, s):
        self.o.append(s.encode())

    def put(self, dt, vals, nl=False):
        vals = np.asarray(vals)
        if self.bin:
            self.o.append(vals.astype(dt).tobytes())
        else:
            f = (lambda x: repr(float(x))) if np.dtype(dt).kind == "f" else (lambda x: str(int(x)))
            self.o.append((" ".join(f(x) for x in vals.ravel()) + ("\n" if nl else " ")).encode())

    def end(self, name):
        if self.bin:
            self.o.append(b"\n")
        elif self.o and not self.o[-1].endswith(b"\n"):
            self.o.append(b"\n")
        self.o.append(f"$End{name}\n".encode())


def make(case):
    """-> (expected plain, bytes)"""
    c = case
    p = build(c["mesh"])
    rng = np.random.Generator(np.random.PCG64(c["seed2"]))
    n = len(p["points"])
    v2, v40 = c["v"][0] == "2", c["v"] == "4.0"
    tags = np.arange(1, n + 1)
    if not (v2 and c["bin"]):
        if c["sparse"]:
            tags = np.cumsum(rng.integers(1, rng.choice([3, 6, 1000]), n))
            if c["large"]:  # not exact in single precision
                tags = tags + 2**24
        if c["shuffle"]:
            tags = disorder(rng, tags)
    nc = sum(len(d) for _, d in p["cells"])
    etags = np.arange(1, nc + 1)
    if c["sparse"]:
        etags = np.cumsum(rng.integers(1, 6, nc))
    if c["eord"]:
        etags = disorder(rng, etags)
    # entities of the blocks; two blocks of different type may share one
    ents = []
    for i, (t, _) in enumerate(p["cells"]):
        same = [e for e, (u, _) in zip(ents, p["cells"]) if TDIM[u] == TDIM[t] and u != t
                and not any(e2 == e and w == t for e2, (w, _) in zip(ents, p["cells"]))]
        if same and rng.random() < 0.5:
            ents.append(same[0])
            continue
        while True:
            e = (TDIM[t], int(rng.integers(1, 20)))
            if e not in ents:
                break
        ents.append(e)
    phys = {e: rng.permutation(np.arange(1, 6))[: rng.integers(0, 4)].tolist() for e in ents}
    names = {}
    if c["names"]:
        pool = sorted({(x, e[0]) for e in ents for x in phys[e]}) + [(60, 1)]
        for k in rng.permutation(len(PNAMES))[:3]:
            if pool:
                names[PNAMES[k]] = np.array(pool.pop(int(rng.integers(0, len(pool)))))
    per = periodic_for(np.random.Generator(np.random.PCG64(c["seed2"] + 7)), n) if c["periodic"] else None

    w = W(c["bin"])
    if c["comments"]:
        w.text("$Comments\nwritten by hand $ 1 2 3\n$EndComments\n" * c["ncom"])
    w.text(f"$MeshFormat\n{c['v']} {int(c['bin'])} {8 if v2 or v40 else c['ds'] if c['bin'] else 8}\n")
    if c["bin"]:
        w.o.append(np.array([1], "i4").tobytes() + b"\n")
    w.text("$EndMeshFormat\n")
    size = "u8" if not c["bin"] else f"u{c['ds']}"

    def gap():
        if c["blank"]:
            w.text("\n")

    def physnames():
        w.text(f"$PhysicalNames\n{len(names)}\n")
        for k, (num, dim) in names.items():
            w.text(f'{dim} {num} "{k}"\n')
        w.text("$EndPhysicalNames\n")
        gap()

    late = v2 and c["order"]
    if names and not late:
        physnames()
    if c["comments"]:
        w.text("$PartitionedStuff\n1 2 3\nabc\n$EndPartitionedStuff\n")
        if c["ncom"] == 2 and not c["bin"]:
            w.text('$ElementNodeData\n1\n"x"\n1\n0.5\n3\n0\n1\n1\n1 2 0.25 0.5\n$EndElementNodeData\n')
    exp = dict(p)
    exp["cell_data"], exp["point_data"] = dict(p["cell_data"]), dict(p["point_data"])
    exp["field_data"], exp["periodic"] = names, per
    def periodic():
        if per is not None:
            _periodic(w, c, tags, per, v2, v40, size)
            gap()

    mid = c["order"] and c["seed2"] % 2
    if v2:
        _nodes2(w, c, tags, p)
        gap()
        if mid:
            periodic()
        _elems2(w, c, rng, tags, etags, p, exp)
    else:
        dt = _v4(w, c, rng, tags, etags, p, exp, ents, phys, names, size, v40, periodic if mid else None)
        if not v40:
            exp["point_data"]["gmsh:dim_tags"] = dt
    gap()
    rest = [] if mid else [periodic]
    if names and late:
        rest.append(physnames)
    for sec, tt in (("NodeData", tags), ("ElementData", etags)):
        for k in p["point_data" if sec == "NodeData" else "cell_data"]:
            rest.append(lambda sec=sec, tt=tt, k=k: _data(w, c, rng, sec, k, tt, p, exp, gap))
    if c["order"]:
        rest = [rest[i] for i in rng.permutation(len(rest))]
    for r in rest:
        r()
    if v2:
        exp = merge_adjacent(exp)
    b = b"".join(w.o)
    if not c["bin"] and c["trail"]:
        b = b.replace(b"$EndNodes\n", b"$EndNodes \n").replace(b"$EndElements\n", b"$EndElements\t\n")
    if not c["bin"] and c["ws"]:
        b = b"\n".join(_space(rng, x) for x in b.split(b"\n"))
    if not c["bin"] and c["crlf"]:
        b = b.replace(b"\n", b"\r\n")
    return _sq(pad3(exp)), b


def _data(w, c, rng, sec, k, tt, p, exp, gap):
    a = p["point_data"][k] if sec == "NodeData" else np.concatenate(p["cell_data"][k])
    a2 = a.reshape(len(a), -1)
    ix = rng.permutation(len(a)) if c["shuffle"] else np.arange(len(a))
    if c["part"] and len(a) > 1 and rng.random() < 0.7:  # not given everywhere
        out = ix[: int(rng.integers(1, len(a)))]
        ix = ix[len(out):]
        a = a.astype(float)
        a[out] = np.nan
        if sec == "NodeData":
            exp["point_data"][k] = a
        else:
            exp["cell_data"][k] = np.split(a, np.cumsum([len(d) for _, d in p["cells"]])[:-1])
    strings = [k] + (["SCHEME 1"] if c["scheme"] else [])
    w.text(f"${sec}\n{len(strings)}\n" + "".join(f'"{x}"\n' for x in strings) + f"{c['reals']}\n" + "0.25\n" * c["reals"] + ("3\n0\n" if not c["sparse"] else "4\n3\n") + f"{a2.shape[1]}\n{len(ix)}\n" + ("" if not c["sparse"] else "0\n"))
    for i in ix:
        w.put("i4", [tt[i]])
        w.put("f8", a2[i], True)
    w.end(sec)
    gap()


def _space(rng, line):
    """white space between numbers does not matter"""
    if not line[:1].isdigit() and line[:1] != b"-" or b'"' in line:
        return line
    return bytes(rng.choice([b"", b" ", b"\t"])) + bytes(rng.choice([b" ", b"  ", b"\t"])).join(line.split()) + bytes(rng.choice([b"", b"  "]))


def _nodes2(w, c, tags, p):
    w.text(f"$Nodes\n{len(tags)}\n")
    for t, x in zip(tags, p["points"]):
        w.put("i4", [t])
        w.put("f8", x, True)
    w.end("Nodes")


def _elems2(w, c, rng, tags, etags, p, exp):
    w.text(f"$Elements\n{len(etags)}\n")
    o = 0
    ph, ge = [], []
    for t, d in p["cells"]:
        d = to_gmsh_order(t, tags[d])
        tg = np.column_stack([rng.integers(0, 5, len(d)), rng.integers(1, 9, len(d)), np.full(len(d), 1), rng.integers(1, 4, len(d))])[:, : c["ntags"]]
        ph.append(tg[:, 0])
        ge.append(tg[:, 1])
        if c["bin"]:
            cut = int(rng.integers(0, len(d))) if c["shuffle"] else 0
            for a, b in ((0, cut), (cut, len(d))):
                if b > a:
                    w.put("i4", [GN[t], b - a, c["ntags"]])
                    w.put("i4", np.column_stack([etags[o + a:o + b], tg[a:b], d[a:b]]))
        else:
            for i, row in enumerate(d):
                k = int(rng.integers(2, c["ntags"] + 1)) if c["vtags"] else c["ntags"]
                w.put("i4", [etags[o + i], GN[t], k, *tg[i][:k], *row], True)
        o += len(d)
    w.end("Elements")
    exp["cell_data"]["gmsh:physical"] = ph
    exp["cell_data"]["gmsh:geometrical"] = ge


def _v4(w, c, rng, tags, etags, p, exp, ents, phys, names, size, v40, mid=None):
    n = len(tags)
    ulong = "u8" if v40 else size
    uniq = list(dict.fromkeys(ents))
    pts_ents = uniq + [(0, 30), (1, 31)]
    nb = int(rng.integers(1, 5))
    cuts = np.sort(rng.integers(0, n + 1, nb - 1)).tolist()
    runs = list(zip([0] + cuts, cuts + [n]))
    rents = [pts_ents[int(i)] for i in rng.permutation(len(pts_ents))[:nb]]
    while len(rents) < nb:
        rents.append((3, 40 + len(rents)))
    if c["entities"]:
        allents = sorted(set(uniq) | set(rents) | {(2, 77)})
        w.text("$Entities\n")
        w.put(ulong, [sum(e[0] == d for e in allents) for d in range(4)], True)
        for e in allents:
            w.put("i4", [e[1]])
            w.put("f8", np.arange(6.0 if (e[0] or v40) else 3.0))
            ph = phys.get(e, [])
            w.put(ulong, [len(ph)])
            if ph:
                w.put("i4", ph)
            if e[0]:
                bd = [1, -2, 3][: int(rng.integers(0, 4))]
                w.put(ulong, [len(bd)])
                if bd:
                    w.put("i4", bd)
            if not w.bin:
                w.text("\n")
        w.end("Entities")
    w.text("$Nodes\n")
    if v40:
        w.put("u8", [nb, n], True)
    else:
        w.put(size, [nb, n, tags.min(), tags.max()], True)
    dt = np.zeros((n, 2), int)
    for (a, b), e in zip(runs, rents):
        dt[a:b] = e
        if v40:
            w.put("i4", [e[1], e[0], c["param"]])
            w.put("u8", [b - a], True)
            for i in range(a, b):
                w.put("i4", [tags[i]])
                w.put("f8", [*p["points"][i], *[0.25, 0.5, 0.75][: c["param"] * e[0]]], True)
        else:
            w.put("i4", [e[0], e[1], c["param"]])
            w.put(size, [b - a], True)
            for i in range(a, b):
                w.put(size, [tags[i]], True)
            for i in range(a, b):
                w.put("f8", [*p["points"][i], *[0.25, 0.5, 0.75][: c["param"] * e[0]]], True)
    w.end("Nodes")
    if mid:
        mid()
    w.text("$Elements\n")
    nc = len(etags)
    w.put(ulong, [len(p["cells"]), nc] if v40 else [len(p["cells"]), nc, etags.min(), etags.max()], True)
    o = 0
    for (t, d), e in zip(p["cells"], ents):
        w.put("i4", [e[1], e[0], GN[t]] if v40 else [e[0], e[1], GN[t]])
        w.put(ulong, [len(d)], True)
        for row in to_gmsh_order(t, tags[d]):
            w.put("i4" if v40 else size, [etags[o], *row], True)
            o += 1
    w.end("Elements")
    cd = exp["cell_data"]
    cd["gmsh:geometrical"] = [np.full(len(d), e[1]) for (_, d), e in zip(p["cells"], ents)]
    pe = [phys[e][0] if c["entities"] and phys[e] else 0 for e in ents]
    cd["gmsh:physical"] = [np.full(len(d), x) for (_, d), x in zip(p["cells"], pe)]
    exp["cell_sets"] = {}
    if not v40:
        for k, (num, dim) in names.items():
            exp["cell_sets"][k] = [np.arange(len(d)) if c["entities"] and e[0] == dim and num in phys[e] else np.zeros(0, int)
                                   for (_, d), e in zip(p["cells"], ents)]
    return dt


def _periodic(w, c, tags, per, v2, v40, size):
    w.text("$Periodic\n")
    if v2:
        b, w.bin = w.bin, False
    w.put("i4" if v2 or v40 else size, [len(per)], True)
    for d, (s, m), aff, sm in per:
        w.put("i4", [d, s, m], True)
        if v2 or (v40 and not w.bin):
            if aff is not None:
                w.text("Affine ")
                w.put("f8", aff, True)
            w.put("i4", [len(sm)], True)
        elif v40:
            if aff is not None:
                w.put("i8", [-1])
                w.put("f8", aff)
            w.put("u8", [len(sm)])
        else:
            w.put(size, [0 if aff is None else 16])
            if aff is not None:
                w.put("f8", aff)
            w.put(size, [len(sm)], True)
        for a in sm:
            w.put("i4" if v2 or v40 else size, tags[a], True)
    if v2:
        w.bin = b
        w.text("$EndPeriodic\n")
    else:
        w.end("Periodic")
