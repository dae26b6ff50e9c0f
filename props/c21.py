"""Choosing the format: registry, extensions, refusals before anything is touched."""
from __future__ import annotations

import io
import os
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib import mesh as M
from vlib.core import Suite, require, sut
from vlib.registry import VARIANTS

from .c18 import tree
from .common import mesh_for, plain_for

RULE = (
    "Hypothesis draws (a) histories of register/deregister/read/write with made-up formats sharing extensions, replayed against a dictionary model; (b) meshes "
    "with one block of a wrong width, for every format; (c) unknown extensions, formats and missing files; non-trivial: a history of three or more steps, or any of (b), (c)."
)

# ---------------------------------------------------------------- (a) registry histories

EXTS = [".qa", ".qb", ".qc.qa", ".qd", ".Qe", ".q1.q2.qb", ".msh", ".vtk", ".qa.gz"]
FILES = ["x.qa", "x.qc.qa", "X.QA", "y.qb", "a.b.qb", "x.q1.q2.qb", "x.q2.qb", "z.qd", "z.Qd", "w.qe", "v.zz", "noext", "d.qa/x", "d.qa/x.qb", "u.qa.gz", ".qa", "t.qa.qb", "x.qc.QA"]
NAMES = ["f0", "f1", "f2", "f3"]
OP = st.one_of(
    st.fixed_dictionaries({"op": st.just("register"), "name": st.sampled_from(NAMES), "exts": st.lists(st.sampled_from([e for e in EXTS if e not in (".msh", ".vtk", ".Qe")]), unique=True, max_size=3),
                           "reader": st.sampled_from(["ok", "ok", "refuse", "none"]), "writer": st.sampled_from(["own", "own", "none", "two"])}),
    st.fixed_dictionaries({"op": st.just("deregister"), "name": st.sampled_from(NAMES + ["never"])}),
    st.fixed_dictionaries({"op": st.just("read"), "file": st.sampled_from(FILES), "fmt": st.sampled_from([None, None] + NAMES + ["nope"]), "exists": st.sampled_from([True, True, True, False]), "kind": st.sampled_from(["str", "path"])}),
    st.fixed_dictionaries({"op": st.just("write"), "file": st.sampled_from(FILES), "fmt": st.sampled_from([None, None] + NAMES + ["nope", "f0-b"]), "kw": st.sampled_from([{}, {"alpha": 1}, {"binary": True, "x": "y"}]),
                           "how": st.sampled_from(["write", "method"])}),
    st.fixed_dictionaries({"op": st.just("buffer"), "fmt": st.sampled_from([None] + NAMES + ["nope"]), "w": st.booleans()}),
)
HIST = st.lists(OP, min_size=1, max_size=14)


def parts(file):
    """the trailing parts of the suffixes of a file name, shortest first"""
    suf = Path(file).suffixes
    return ["".join(suf[i:]).lower() for i in reversed(range(len(suf)))]


def check_history(case, ctx):
    import meshio

    for d in ("d.qa",):
        os.mkdir(d)
    pts = np.zeros((1, 3))
    log = []
    reg = {}  # name -> exts
    order = {}  # ext -> [names]
    readers, writers = {}, {}
    ops = case["ops"]

    def make_reader(name, step, ok):
        def reader(f):
            log.append(("read", name, step, str(f) if isinstance(f, str) else "buffer"))
            if not ok:
                raise meshio.ReadError("not mine")
            return meshio.Mesh(np.full((1, 3), float(step)), [("vertex", [[0]])])

        return reader

    def make_writer(name, step):
        def writer(f, mesh, **kw):
            log.append(("write", name, step, f if isinstance(f, str) else "buffer", kw, len(mesh.points)))

        return writer

    mesh = meshio.Mesh(pts, [("vertex", [[0]])])
    try:
        for i, o in enumerate(ops):
            what = f"step {i} {o}"
            log.clear()
            if o["op"] == "register":
                n = o["name"]
                if n in reg:
                    continue
                r = None if o["reader"] == "none" else make_reader(n, i, o["reader"] == "ok")
                w = {} if o["writer"] == "none" else {n: make_writer(n, i)}
                if o["writer"] == "two" and n == "f0":
                    w["f0-b"] = make_writer("f0-b", i)
                with sut(what):
                    meshio.register_format(n, list(o["exts"]), r, w)
                reg[n] = o["exts"]
                for e in o["exts"]:
                    order.setdefault(e, []).append(n)
                if r:
                    readers[n] = (i, o["reader"] == "ok")
                for k in w:
                    writers[k] = i
            elif o["op"] == "deregister":
                n = o["name"]
                with sut(what):
                    meshio.deregister_format(n)
                for e in reg.pop(n, []):
                    order[e].remove(n)
                readers.pop(n, None)
                writers.pop(n, None)
            elif o["op"] == "read":
                f = o["file"]
                if o["exists"]:
                    Path(f).write_text("x")
                elif os.path.exists(f):
                    os.remove(f)
                if o["fmt"]:
                    cands = [o["fmt"]]
                else:
                    cands = [n for e in parts(f) for n in order.get(e, [])]
                expect = None
                tried = []
                if o["exists"]:
                    for n in cands:
                        if n not in readers:
                            break
                        tried.append(n)
                        if readers[n][1]:
                            expect = readers[n][0]
                            break
                try:
                    g = meshio.read(Path(f) if o["kind"] == "path" else f, o["fmt"])
                except meshio.ReadError:
                    require(expect is None, f"{what}: refused, expected the reader of step {expect}")
                except SystemExit as e:
                    require(expect is None and e.code, f"{what}: SystemExit({e.code})")
                except Exception as e:
                    require(False, f"{what}: {type(e).__name__}: {e}")
                else:
                    require(expect is not None, f"{what}: a mesh was returned, expected an error; readers called: {log}")
                    require(g.points[0, 0] == expect, f"{what}: reader of step {g.points[0, 0]:.0f}, expected that of step {expect}")
                    ctx.label("read ok")
                require([x[1] for x in log] == tried, f"{what}: readers tried {[x[1] for x in log]}, expected {tried}")
                require(all(x[3] == str(Path(f)) for x in log), f"{what}: reader got {log}")
            elif o["op"] == "write":
                f = o["file"]
                if os.path.exists(f):
                    os.remove(f)
                if o["fmt"]:
                    n = o["fmt"]
                else:
                    c = [n for e in parts(f) for n in order.get(e, [])]
                    n = c[0] if c else None
                before = tree(".")
                try:
                    if o["how"] == "write":
                        meshio.write(f, mesh, o["fmt"], **o["kw"])
                    else:
                        mesh.write(f, o["fmt"], **o["kw"])
                except (meshio.WriteError, meshio.ReadError):
                    require(n not in writers, f"{what}: refused, expected the writer of {n}")
                    require(not log and tree(".") == before, f"{what}: refused after writing")
                except Exception as e:
                    require(False, f"{what}: {type(e).__name__}: {e}")
                else:
                    require(n in writers, f"{what}: accepted, expected an error; {log}")
                    require(log == [("write", n, writers[n], f, o["kw"], 1)], f"{what}: writers called: {log}, expected {n} of step {writers[n]} with {o['kw']}")
                    ctx.label("write ok")
            elif o["op"] == "buffer":
                n = o["fmt"]
                try:
                    if o["w"]:
                        meshio.write(io.BytesIO(), mesh, n)
                    else:
                        meshio.read(io.BytesIO(b"x"), n)
                except (meshio.WriteError, meshio.ReadError) as e:
                    require(not (n in writers if o["w"] else n in readers and readers[n][1]), f"{what}: refused ({e})")
                except Exception as e:
                    require(False, f"{what}: {type(e).__name__}: {e}")
                else:
                    require(n in writers if o["w"] else n in readers and readers[n][1], f"{what}: accepted")
                    require(len(log) == 1 and log[0][1] == n and log[0][3] == "buffer", f"{what}: called {log}")
        # the formats of meshio itself are as before
        m = meshio.Mesh(np.zeros((3, 3)), [("triangle", [[0, 1, 2]])])
        with sut("write and read after the history"):
            meshio.write("last.vtk", m)
            require(len(meshio.read("last.vtk").points) == 3, "read after the history")
    finally:
        for n in list(reg) + ["f0-b"]:
            meshio.deregister_format(n)


def cl_hist(case):
    return (len(case["ops"]) >= 3, [f"{len(case['ops'])} steps"])


# ---------------------------------------------------------------- (b) wrong widths

SIZES = sorted((t, n) for t, n in M.NN.items() if isinstance(n, int))


@st.composite
def width_cases(draw, v):
    r = draw(M.recipes(M.replace(v.dom, max_blocks=3)))
    t, n = draw(st.sampled_from(SIZES))
    return {"mesh": r, "type": t, "n": n, "delta": draw(st.sampled_from([-1, 1, 2])), "at": draw(st.integers(0, 3)), "rows": draw(st.integers(0, 3)),
            "exists": draw(st.booleans()), "how": draw(st.sampled_from(["write", "method", "buffer", "infer"]))}


def check_width(v):
    def check(case, ctx):
        import meshio

        p = plain_for(v, case["mesh"])
        m = mesh_for(v, p)
        w = max(1, case["n"] + case["delta"])
        if w == case["n"]:
            w += 1
        at = case["at"] % (len(m.cells) + 1)
        bad = meshio.CellBlock(case["type"], np.zeros((case["rows"], w), dtype=int))
        m.cells.insert(at, bad)
        for k, x in m.cell_data.items():
            x.insert(at, np.zeros((case["rows"],) + x[0].shape[1:], dtype=x[0].dtype))
        m.cell_sets = {}
        path = ctx.path("m" + v.ext)
        if case["exists"]:
            Path(path).write_bytes(b"precious")
        before = tree(ctx.dir)
        buf = io.BytesIO()
        what = f"{v.id}: {case['type']} cells with {w} columns"
        try:
            if case["how"] == "method":
                m.write(path, v.write_format)
            elif case["how"] == "buffer":
                meshio.write(buf, m, v.write_format)
            elif case["how"] == "infer" and v.ext:
                meshio.write(path, m)
            else:
                meshio.write(path, m, v.write_format)
        except meshio.WriteError:
            pass
        except Exception as e:
            require(False, f"{what}: {type(e).__name__}: {e} instead of WriteError")
        else:
            require(False, f"{what} were written")
        require(tree(ctx.dir) == before and not buf.getvalue(), f"{what}: refused, but the target was touched")

    return check


def cl_width(case):
    return (True, [case["type"], case["how"]])


# ---------------------------------------------------------------- (c) unknown things

MISC = st.fixed_dictionaries({
    "what": st.sampled_from(["missing", "missing-fmt", "unknown-ext-read", "unknown-ext-write", "unknown-fmt-read", "unknown-fmt-write", "no-reader", "missing-dir"]),
    "var": st.integers(0, 10**6), "kind": st.sampled_from(["str", "path"]), "stem": st.sampled_from(["m", "a.b", "x y", "vtk", ".vtk", "m.vtk"]),
    "ext": st.sampled_from(["", ".", ".foo", ".vt", ".vtkk", ".gz", ".tar.gz", ".vtk.gz", ".mesh2", ".m", ".vtu~", ".vtk.bak"]),
    "fmt": st.sampled_from(["foo", "VTK", "vtk ", "msh", "gmsh2", "gmsh4", "h5", "xml", "dolfin", ".vtk"]),
})


def check_misc(case, ctx):
    import meshio

    vs = [v for v in VARIANTS.values() if not v.group.endswith("-out") and v.ext]
    v = vs[case["var"] % len(vs)]
    m = meshio.Mesh(np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]]), [("triangle", [[0, 1, 2]])])
    wrap = Path if case["kind"] == "path" else str
    what = case["what"]
    errs = (meshio.ReadError, meshio.WriteError)
    if what == "missing":
        path, fn = case["stem"] + v.ext, lambda p: meshio.read(p)
    elif what == "missing-fmt":
        path, fn = case["stem"] + case["ext"], lambda p: meshio.read(p, v.fmt)
    elif what == "unknown-ext-read":
        path, fn = "m" + case["ext"], lambda p: meshio.read(p)
    elif what == "unknown-ext-write":
        path, fn = "m" + case["ext"], lambda p: meshio.write(p, m)
    elif what == "unknown-fmt-read":
        path, fn = "m" + v.ext, lambda p: meshio.read(p, case["fmt"])
    elif what == "unknown-fmt-write":
        path, fn = "m" + v.ext, lambda p: meshio.write(p, m, case["fmt"])
    elif what == "no-reader":
        path, fn = "m.svg", lambda p: meshio.read(p)
    else:
        path, fn = "no/such/dir/m" + v.ext, lambda p: meshio.write(p, m, v.write_format)
        errs = Exception
    if what in ("unknown-ext-read", "unknown-fmt-read", "no-reader"):
        Path(path).write_text("OFF\n0 0 0\n")
    before = tree(ctx.dir)
    try:
        fn(wrap(path))
    except errs:
        pass
    except Exception as e:
        require(False, f"{what} {path!r} {case['fmt']!r}: {type(e).__name__}: {e}")
    else:
        require(False, f"{what} {path!r} {case['fmt']!r}: no error")
    require(tree(ctx.dir) == before, f"{what} {path!r}: files changed")
    require(sorted(os.listdir(ctx.dir)) == sorted({k.split("/")[0] for k in before}), f"{what}: directories created")


# documented file extensions
DOC = {
    "abaqus": [".inp"], "ansys": [".msh"], "avsucd": [".avs"], "cgns": [".cgns"], "dolfin-xml": [".xml"], "exodus": [".e", ".exo", ".ex2"], "flac3d": [".f3grid"], "gmsh": [".msh"],
    "h5m": [".h5m"], "hmf": [".hmf"], "mdpa": [".mdpa"], "med": [".med"], "medit": [".mesh", ".meshb"], "nastran": [".bdf", ".fem", ".nas"], "netgen": [".vol", ".vol.gz"], "obj": [".obj"],
    "off": [".off"], "permas": [".post", ".post.gz", ".dato", ".dato.gz"], "ply": [".ply"], "stl": [".stl"], "su2": [".su2"], "tecplot": [".dat", ".tec"], "tetgen": [".node", ".ele"], "ugrid": [".ugrid"],
    "vtk": [".vtk"], "vtu": [".vtu"], "wkt": [".wkt"], "xdmf": [".xdmf", ".xmf"],
}


@st.composite
def ext_cases(draw):
    fmt = draw(st.sampled_from(sorted(DOC)))
    vs = sorted(v.id for v in VARIANTS.values() if v.fmt == fmt and not v.group.endswith("-out"))
    vid = draw(st.sampled_from(vs))
    ext = draw(st.sampled_from(DOC[fmt]))
    return {"var": vid, "mesh": draw(M.recipes(VARIANTS[vid].dom)), "ext": ext, "case": draw(st.sampled_from(["lower", "upper", "title"])),
            "stem": draw(st.sampled_from(["m", "a.b", "x.vtk", "a.mesh", "x.post"])), "write": draw(st.booleans())}


def check_ext(case, ctx):
    """every documented extension selects its format, for reading and writing"""
    import meshio

    v = VARIANTS[case["var"]]
    m = mesh_for(v, plain_for(v, case["mesh"]))
    ext = getattr(case["ext"], case["case"])() if case["case"] != "lower" else case["ext"]
    path = case["stem"] + ext
    kw = dict(v.kwargs)
    what = f"{v.id} as {path}"
    with sut(what):
        if case["write"] and v.writer is None and v.write_format == v.fmt and v.fmt != "gmsh":
            meshio.write(path, m, **kw)
        elif v.writer is not None:
            v.writer(path, m, **kw)
        else:
            meshio.write(path, m, file_format=v.write_format, **kw)
        a = meshio.read(path)
        b = meshio.read(path, file_format=v.fmt)
    d = M.mesh_diff(M.plain(b), M.plain(a), M.Cmp(pdtype="exact", ddtype="exact", sets=True, field_data=True))
    require(d is None, f"{what}: {d}")


def suites():
    out = [Suite("history", st.fixed_dictionaries({"ops": HIST}), check_history, quick=6000, classify=cl_hist, shards=6),
           Suite("refusals", MISC, check_misc, quick=3000, classify=lambda c: (True, [c["what"]]), shards=2),
           Suite("extensions", ext_cases(), check_ext, quick=2400, classify=lambda c: (True, [c["var"]]), shards=4)]
    for v in VARIANTS.values():
        out.append(Suite(f"width/{v.id}", width_cases(v), check_width(v), quick=40, classify=cl_width))
    return out
