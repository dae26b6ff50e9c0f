"""The command line does what the library does, and never loses a mesh."""
from __future__ import annotations

import contextlib
import io
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from vlib import mesh as M
from vlib.core import Skip, Suite, require, sut
from vlib.registry import VARIANTS

from .c18 import HDF, TIMESTAMP, tree
from .common import do_read, mesh_for, plain_for
from .c22 import infers, write_file

RULE = (
    "Hypothesis draws meshes, a format variant for the input file and a command line (in-place commands in sequence, conversions with options, info); the commands "
    "run in-process through meshio._cli.main; non-trivial: a mesh of more than one cell or block, or with data or sets."
)

ASCII = {"ansys", "flac3d", "gmsh", "mdpa", "ply", "stl", "vtk", "vtu", "xdmf"}
COMPRESS = {"ansys", "cgns", "gmsh", "h5m", "mdpa", "ply", "stl", "vtk", "vtu", "xdmf"}
DECOMPRESS = {"cgns", "h5m", "vtu", "xdmf"}
SUPPORT = {"ascii": ASCII, "binary": ASCII, "compress": COMPRESS, "compress-max": COMPRESS, "decompress": DECOMPRESS, "a": ASCII, "b": ASCII}


def cli(*argv):
    """-> (exit status, stdout, stderr, exception)"""
    from meshio._cli import main

    out, err = io.StringIO(), io.StringIO()
    exc = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            rc = main(list(argv))
        except SystemExit as e:
            rc = e.code
        except Exception as e:
            rc, exc = 1, e
    return rc or 0, out.getvalue(), err.getvalue(), exc


# ---------------------------------------------------------------- in place


def heads(fmt, path, op):
    """what the file must look like after the command"""
    with open(path, "rb") as f:
        raw = f.read()
    if fmt == "vtk":
        return raw.split(b"\n")[2].strip() == (b"ASCII" if op == "ascii" else b"BINARY")
    if fmt == "ply":
        return (raw.split(b"\n")[1].split()[1] == b"ascii") == (op == "ascii")
    if fmt == "stl":
        return (raw[:5] == b"solid") == (op == "ascii")
    if fmt == "gmsh":
        w = raw.split(b"\n")
        i = w.index(b"$MeshFormat")
        return w[i + 1].split()[1] == (b"0" if op == "ascii" else b"1")
    if fmt == "flac3d":
        return (b"\x00" not in raw) == (op == "ascii")
    if fmt == "ansys":
        try:
            raw.decode("ascii")
            ok = True
        except UnicodeDecodeError:
            ok = False
        return (b"(2010" not in raw and b"(3010" not in raw and ok) if op == "ascii" else b"(2010" in raw or b"(3010" in raw
    if fmt == "vtu":
        a = b'format="ascii"' in raw
        if op == "ascii":
            return a and b'format="binary"' not in raw
        if op == "decompress":
            return not a and b"compressor" not in raw
        if op == "compress":
            return not a and b"vtkZLibDataCompressor" in raw
        if op == "compress-max":
            return not a and b"vtkLZMADataCompressor" in raw
        return not a
    if fmt == "xdmf":
        x = b'Format="XML"' in raw
        if op == "ascii":
            return x and b'Format="HDF"' not in raw
        if x or b'Format="HDF"' not in raw:
            return False
        return True if op == "binary" else filters(os.path.splitext(path)[0] + ".h5", op)
    if fmt in ("h5m", "cgns"):
        return filters(path, op)
    return True


def filters(path, op):
    import h5py

    seen = []

    def visit(name, d):
        if isinstance(d, h5py.Dataset) and d.shape not in ((), None) and d.size and d.dtype.kind in "iuf":
            seen.append((d.compression, d.compression_opts))

    with h5py.File(path, "r") as f:
        f.visititems(visit)
    # not every small array need be compressed, but the bulk is
    want = {"compress": ("gzip", 4), "compress-max": ("gzip", 9), "decompress": (None, None)}[op]
    if op == "decompress":
        return all(s == want for s in seen)
    return want in seen and all(s in (want, (None, None)) for s in seen)


def check_inplace(v):
    def check(case, ctx):
        p = plain_for(v, case["mesh"])
        path = ctx.path(case["stem"] + v.ext)
        with sut(f"write {v.id}"):
            write_file(v, mesh_for(v, p), path)
            a = do_read(v, path)
        types = a.cells
        for op in case["ops"]:
            before = tree(ctx.dir)
            name = {"compress-max": "compress"}.get(op, op)
            op = {"a": "ascii", "b": "binary"}.get(op, op)
            args = [name, os.path.basename(path) if case["rel"] else path] + (["--max"] if op == "compress-max" else [])
            if case["fmt"] or v.id.startswith("ansys"):
                args += [case["opt"], v.fmt]
            rc, out, err, exc = cli(*args)
            what = f"{v.id}: meshio {' '.join(x for x in args if x != path)}"
            if v.fmt not in SUPPORT[op]:
                require(rc != 0, f"{what}: exit status 0 for an unsupported format")
                require(tree(ctx.dir) == before, f"{what}: refused, but the files changed")
                ctx.label("unsupported")
                continue
            if rc != 0 or exc is not None:
                require(refusable(v, types, op), f"{what}: {rc} {type(exc).__name__}: {exc} {err[-200:]}")
                require(tree(ctx.dir) == before, f"{what}: failed and destroyed the file")
                ctx.label("refused")
                continue
            ctx.label(op)
            require("File size before" in out and "File size after" in out, f"{what}: output {out!r}")
            with sut(f"{what}, then reading"):
                b = do_read(v, path)
            tol = 1e-11 if v.fmt == "vtu" else 0.0
            c = M.Cmp(rtol=tol, drtol=tol, pdtype=None, ddtype=None, cast=True, sets=True, field_data=v.cmp.field_data)
            if v.fmt == "stl":
                # corner by corner: binary files hold 32-bit floats and no normals are kept of them
                s, t = (np.asarray(m.points, float)[m.cells[0].data] if m.cells else np.zeros((0, 3, 3)) for m in (a, b))
                fits = np.abs(s).max(initial=0) < 3e38
                require(not fits or s.shape == t.shape and np.allclose(t, s, rtol=1e-6, atol=1e-37), f"{what} changed the triangles")
                continue
            x, y = M.plain(a), M.plain(b)
            if v.fmt == "gmsh" and not v.id.startswith("gmsh41"):
                # the file is now MSH 4.1: tags belong to entities
                for q in (x, y):
                    q["cell_sets"] = {}
                    for k in ("gmsh:dim_tags", "gmsh:physical", "gmsh:geometrical"):
                        q["point_data"].pop(k, None)
                        q["cell_data"].pop(k, None)
            elif v.fmt == "gmsh":
                y["cell_sets"].pop("gmsh:bounding_entities", None)
                x["cell_sets"].pop("gmsh:bounding_entities", None)
            if v.fmt == "flac3d":
                # zones are made right-handed (flat ones each time anew), group names get prefixes
                x, a = v.expect(x), b
                y = v.post(y) if v.post else y
                for q in (x, y):  # the slot depends on the encoding
                    q["cell_sets"] = {k.rsplit(":", 1)[0]: s for k, s in q["cell_sets"].items()}
            if v.id == "h5m-noids":
                y["point_data"].pop("GLOBAL_ID", None)
            d = M.mesh_diff(x, y, c)
            require(d is None, f"{what} changed the mesh: {d}")
            with sut(f"looking at the file after {what}"):
                ok = heads(v.fmt, path, op)
            require(ok, f"{what}: the file is not in the encoding asked for")
            require(set(before) | {case["stem"] + ".h5"} >= set(tree(ctx.dir)), f"{what}: stray files {sorted(tree(ctx.dir))}")

    return check


def refusable(v, types, op):
    # MSH 4.1 needs entity information for meshes of several blocks
    # MDPA has no binary form
    return v.fmt == "gmsh" and len(types) > 1 or v.fmt == "mdpa" and op != "ascii"


@st.composite
def inplace_cases(draw, v):
    ops = [o for o in SUPPORT if v.fmt in SUPPORT[o]] or list(SUPPORT)
    if draw(st.integers(0, 9)) == 0:
        ops = list(SUPPORT)
    return {"mesh": draw(M.recipes(M.replace(v.dom, layouts=()))), "ops": draw(st.lists(st.sampled_from(ops), min_size=1, max_size=4)), "rel": draw(st.booleans()), "fmt": draw(st.booleans()),
            "opt": draw(st.sampled_from(["-i", "--input-format"])), "stem": draw(st.sampled_from(["m", "a.b", "x y"]))}


# ---------------------------------------------------------------- convert

FLOATFMT = {"mdpa", "flac3d", "medit", "gmsh", "gmsh22", "netgen", "tetgen", "su2"}
OUT = [("abaqus", ".inp"), ("ansys", ".msh"), ("avsucd", ".avs"), ("cgns", ".cgns"), ("dolfin-xml", ".xml"), ("exodus", ".e"), ("flac3d", ".f3grid"), ("gmsh", ".msh"), ("gmsh22", ".msh"),
       ("h5m", ".h5m"), ("hmf", ".hmf"), ("mdpa", ".mdpa"), ("med", ".med"), ("medit", ".mesh"), ("medit", ".meshb"), ("nastran", ".bdf"), ("netgen", ".vol"), ("netgen", ".vol.gz"), ("obj", ".obj"),
       ("off", ".off"), ("permas", ".post"), ("ply", ".ply"), ("stl", ".stl"), ("su2", ".su2"), ("svg", ".svg"), ("tecplot", ".dat"), ("tetgen", ".node"), ("ugrid", ".ugrid"), ("ugrid", ".lb8.ugrid"),
       ("vtk", ".vtk"), ("vtk42", ".vtk"), ("vtk51", ".vtk"), ("vtu", ".vtu"), ("wkt", ".wkt"), ("xdmf", ".xdmf"), ("xdmf", ".xmf")]
RICH = ["vtk51-bin", "vtu-zlib", "gmsh41-bin", "gmsh22-asc", "abaqus", "med", "xdmf-hdf", "medit-asc"]


def convert_cases(v):
    return st.fixed_dictionaries({
        "mesh": M.recipes(M.replace(v.dom, layouts=())), "out": st.sampled_from(OUT).map(list), "infmt": st.booleans(), "outfmt": st.booleans(), "ascii": st.booleans(), "float": st.sampled_from([None, None, ".3e", ".8f"]),
        "s": st.booleans(), "d": st.booleans(), "short": st.booleans(), "c": st.booleans(), "order": st.integers(0, 3), "exists": st.booleans(),
    })


def scalar_int(arrays):
    return all(x.dtype.kind in "iu" and x.ndim == 1 for x in arrays)


def check_convert(v):
    def check(case, ctx):
        import meshio

        p = plain_for(v, case["mesh"])
        os.mkdir("in")
        path = os.path.abspath("in/m" + v.ext)
        with sut(f"write {v.id}"):
            write_file(v, mesh_for(v, p), path)
        fmt, ext = case["out"]
        if fmt == "netgen" and any(x.dtype.kind in "iu" and np.abs(x.astype(float)).max(initial=0) > 1e4 for c in p["cell_data"].values() for x in c):
            raise Skip()  # one line per region number up to the largest
        explicit = case["outfmt"] or fmt in ("gmsh", "gmsh22", "vtk42", "vtk51")
        infmt = case["infmt"] or v.id.startswith("ansys") or not v.ext
        before = tree("in")

        # what the library does
        def library():
            with contextlib.redirect_stdout(io.StringIO()):
                m = meshio.read(path, file_format=v.fmt if infmt else None)
            if case["s"]:
                m.point_sets_to_data()
                m.cell_sets_to_data()
            if case["d"]:
                for k in [k for k, x in m.point_data.items() if scalar_int([x])]:
                    m.point_data_to_sets(k)
                for k in [k for k, x in m.cell_data.items() if scalar_int(x)]:
                    m.cell_data_to_sets(k)
            kw = {}
            if explicit:
                kw["file_format"] = fmt
            if case["ascii"]:
                kw["binary"] = False
            if case["float"]:
                kw["float_fmt"] = case["float"]
            m.points = np.ascontiguousarray(m.points)
            meshio.write("o" + ext, m, **kw)
            return m

        os.mkdir("lib")
        os.mkdir("cli")
        if case["exists"]:
            for d in ("lib/o", "cli/o"):
                with open(d + ext, "w") as f:
                    f.write("old contents")
        os.chdir("lib")
        failed = None
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                m = library()
            except (Exception, SystemExit) as e:
                failed = e
        os.chdir("../cli")
        s = case["short"]
        opts = []
        if infmt:
            opts += ["-i" if s else "--input-format", v.fmt]
        if explicit:
            opts += ["-o" if s else "--output-format", fmt]
        if case["ascii"]:
            opts += ["-a" if s else "--ascii"]
        if case["float"]:
            opts += ["-f" if s else "--float-format", case["float"]]
        if case["s"]:
            opts += ["-s" if s else "--sets-to-int-data"]
        if case["d"]:
            opts += ["-d" if s else "--int-data-to-sets"]
        files = [path, "o" + ext]
        args = [opts + files, files + opts, [path] + opts + ["o" + ext], files[:1] + opts + files[1:]][case["order"]]
        what = f"{v.id}: meshio convert " + " ".join("IN" if x == path else x for x in args)
        rc, out, err, exc = cli("c" if case["c"] else "convert", *args)
        os.chdir("..")
        require(tree("in") == before, f"{what}: changed the input file")
        if failed is not None:
            require(rc != 0, f"{what}: exit status 0, but the library refuses: {type(failed).__name__}: {failed}")
            ctx.label("refused")
            return
        require(rc == 0 and exc is None, f"{what}: status {rc} {type(exc).__name__}: {exc} {err[-300:]}, but the library does it")
        a, b = tree("lib"), tree("cli")
        require(set(a) == set(b), f"{what}: files {sorted(b)}, the library makes {sorted(a)}")
        if fmt not in TIMESTAMP and fmt not in HDF and ".gz" not in ext:
            for k in a:
                require(a[k] == b[k], f"{what}: {k} differs from what the library writes")
        elif fmt != "svg":
            rf = {"gmsh22": "gmsh", "vtk42": "vtk", "vtk51": "vtk"}.get(fmt, fmt)
            try:
                x = meshio.read("lib/o" + ext, file_format=rf)
            except (Exception, SystemExit):
                ctx.label("not readable")
                return
            with sut(f"{what}: reading the result"):
                y = meshio.read("cli/o" + ext, file_format=rf)
            d = M.mesh_diff(M.plain(x), M.plain(y), M.Cmp(pdtype="exact", ddtype="exact", sets=True, field_data=True))
            require(d is None, f"{what}: {d}")
            if fmt == "ply":
                require((b"format ascii" in b["o" + ext][:60]) == case["ascii"], f"{what}: encoding")
        ctx.label(f"to {fmt}", *(["-s"] if case["s"] else []), *(["-d"] if case["d"] else []))

    return check


# ---------------------------------------------------------------- info


@st.composite
def info_cases(draw, v):
    return {"mesh": draw(M.recipes(M.replace(v.dom, layouts=()))), "use": draw(st.booleans()), "bad": draw(st.sampled_from([False, False, True])), "short": draw(st.booleans()), "fmt": draw(st.booleans())}


def check_info(v):
    def check(case, ctx):
        p = plain_for(v, case["mesh"])
        path = ctx.path("m" + v.ext)
        with sut(f"write {v.id}"):
            write_file(v, mesh_for(v, p), path)
            m = do_read(v, path)
        t0 = tree(ctx.dir)
        args = ["i" if case["short"] else "info", path]
        if case["fmt"] or v.id.startswith("ansys") or not v.ext:
            args += ["--input-format", v.fmt]
        rc, out, err, exc = cli(*args)
        what = f"{v.id}: meshio info"
        require(rc == 0 and exc is None, f"{what}: status {rc} {type(exc).__name__}: {exc} {err[-300:]}")
        require(tree(ctx.dir) == t0, f"{what}: changed the file")
        n = len(m.points)
        require(f"Number of points: {n}\n" in out, f"{what}: {out!r} does not say that there are {n} points")
        lines = [x.strip() for x in out.splitlines()]
        for c in m.cells:
            require(any(x.startswith(c.type) and x.endswith(f": {len(c)}") for x in lines), f"{what}: {out!r} does not list {len(c)} {c.type} cells")
        for names, head in ((m.point_data, "Point data: "), (m.cell_data, "Cell data: ")):
            if names:
                got = [x[len(head):] for x in lines if x.startswith(head)]
                require(got and all(k.strip() in got[0] for k in names if "\n" not in k), f"{what}: {out!r} does not list {list(names)}")
        used = set()
        for c in m.cells:
            used |= members(c.data)
        text = " ".join(err.split())
        bad = any(i >= n for i in used)
        require(("Inconsistent mesh" in text) == bad, f"{what}: {'no ' if bad else ''}warning about inconsistency: {text!r}")
        unused = not bad and len(used) < n
        require(("not part of any cell" in text) == unused, f"{what}: {'no ' if unused else ''}warning about unused points ({len(used)} of {n} used): {text!r}")
        ctx.label("unused points" if unused else "all used")

    return check


def members(x):
    if isinstance(x, np.ndarray) and x.dtype != object:
        return set(x.ravel().tolist())
    out = set()
    for y in x:
        if np.ndim(y) == 0 and not isinstance(y, (list, tuple, np.ndarray)):
            out.add(int(y))
        else:
            out |= members(np.asarray(y) if isinstance(y, (list, tuple)) and all(np.ndim(z) == 0 for z in y) else y)
    return out


BAD = st.fixed_dictionaries({"n": st.integers(3, 8), "off": st.integers(0, 3), "at": st.integers(0, 2), "row": st.integers(0, 3), "fmt": st.sampled_from([("vtk", ".vtk"), ("vtu", ".vtu"), ("medit", ".mesh"), ("off", ".off"), ("xdmf", ".xdmf")]).map(list)})


def check_bad(case, ctx):
    """info on meshes whose cells refer to points that are not there"""
    import meshio

    n = case["n"]
    t = np.array([[0, 1, 2], [2, 1, 0], [0, 2, 1], [1, 2, 0]])
    t[case["row"], case["at"]] = n - 1 + case["off"]
    fmt, ext = case["fmt"]
    with sut("write"):
        meshio.write("m" + ext, meshio.Mesh(np.random.default_rng(0).random((n, 3)), [("triangle", t)]), file_format=fmt)
    rc, out, err, exc = cli("info", "m" + ext)
    require(rc == 0 and exc is None, f"info: status {rc} {type(exc).__name__}: {exc}")
    bad = case["off"] > 0
    text = " ".join(err.split())
    require(("Inconsistent mesh" in text) == bad, f"info on {n} points and index {t.max()}: {text!r}")


# ---------------------------------------------------------------- command line errors

ERR = st.fixed_dictionaries({"cmd": st.sampled_from(["convert", "info", "compress", "decompress", "ascii", "binary"]), "what": st.sampled_from(["missing", "garbage", "noext", "badfmt", "noargs", "nocmd"]), "ext": st.sampled_from([".vtk", ".vtu", ".msh", ".xdmf", ".stl", ".off", ".med"])})


def check_errors(case, ctx):
    cmd, ext = case["cmd"], case["ext"]
    f = "m" + ext
    args = [cmd, f]
    if case["what"] == "garbage":
        with open(f, "wb") as fh:
            fh.write(b"this is not a mesh\n\x00\x01")
    elif case["what"] == "noext":
        args[1] = f = "m.unknown"
        with open(f, "wb") as fh:
            fh.write(b"x")
    elif case["what"] == "badfmt":
        args += ["--input-format", "nope"]
    elif case["what"] == "noargs":
        args = [cmd]
    elif case["what"] == "nocmd":
        args = []
    if cmd == "convert" and case["what"] in ("missing", "garbage", "noext", "badfmt"):
        args.append("out.vtk")
    before = tree(ctx.dir)
    rc, out, err, exc = cli(*args)
    require(rc != 0, f"meshio {' '.join(args)} ({case['what']}): exit status 0")
    require(tree(ctx.dir) == before, f"meshio {' '.join(args)} ({case['what']}): files changed: {sorted(tree(ctx.dir))}")


def cl(case):
    return M.classify_recipe(case["mesh"])


def suites():
    out = [Suite("errors", ERR, check_errors, quick=400, classify=lambda c: (True, [c["what"]])), Suite("info-bad", BAD, check_bad, quick=300, classify=lambda c: (True, []))]
    for v in VARIANTS.values():
        if v.group.endswith("-out"):
            continue
        if v.ext:
            q = 50 if v.fmt in ASCII | COMPRESS else 12
            out.append(Suite(f"inplace/{v.id}", inplace_cases(v), check_inplace(v), quick=q, classify=cl))
        out.append(Suite(f"info/{v.id}", info_cases(v), check_info(v), quick=16, classify=cl))
        out.append(Suite(f"convert/{v.id}", convert_cases(v), check_convert(v), quick=40, classify=cl))
    return out
