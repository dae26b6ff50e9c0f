"""The same mesh however the file is named or handed over."""
from __future__ import annotations

import io
import os
import warnings
from dataclasses import replace
from pathlib import Path

from hypothesis import strategies as st

from vlib import mesh as M
from vlib.core import Suite, require, sut
from vlib.registry import VARIANTS

from .c18 import HDF, TIMESTAMP, fds, tree
from .common import mesh_for, plain_for

RULE = (
    "Hypothesis draws, per format variant, a mesh recipe plus a way to name the file (directory, stem, case of the extension, str/Path/PathLike, "
    "format given or inferred, which entry point) or a kind of buffer; non-trivial: a mesh of more than one cell or block, or with data or sets."
)

STEMS = ["m", "a.b", "mesh.v2.1", "UPPER", "with space", "ünï-网格", "b8", "x.vtk", "out.msh", "1.5", "-dash", "a%sb", "a#b", "a[1]", "a(1)+", "a_b", ".hidden",
         "q'uote", "a,b=c", "x{}", "~t", "a&b<c>"]
DIRS = ["", "./", "sub/", "sub.dir/", "d.vtk/e.f/", "sub/../", "sp ace/", "ABS/", "ABS/su.b/", "ünï/"]
CASES = ["lower", "lower", "lower", "upper", "title"]
NAMED = st.fixed_dictionaries({
    "dir": st.sampled_from(DIRS), "stem": st.sampled_from(STEMS), "case": st.sampled_from(CASES), "kind": st.sampled_from(["str", "path", "pathlike"]),
    "infer": st.booleans(), "infer_r": st.booleans(), "api": st.sampled_from(["write", "method", "points_cells", "positional"]),
    "rkind": st.sampled_from(["str", "path", "pathlike"]), "rapi": st.sampled_from(["read", "positional"]), "move": st.booleans(), "link": st.booleans(),
})


class PL:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def dressed(path, kind):
    return {"str": str, "path": Path, "pathlike": PL}[kind](path)


def infers(v):
    return v.write_format == v.fmt and v.fmt not in ("gmsh", "neuroglancer") and v.ext != ""


def write_file(v, m, path):
    import meshio

    if v.writer is not None:
        v.writer(path, m, **v.kwargs)
    else:
        meshio.write(path, m, file_format=v.write_format, **v.kwargs)


def check_names(v):
    def check(case, ctx):
        import meshio

        p = plain_for(v, case["mesh"])
        m = mesh_for(v, p)
        os.mkdir("ref")
        os.chdir("ref")
        with sut(f"write {v.id}"):
            write_file(v, m, "m" + v.ext)
            a = meshio.read("m" + v.ext, file_format=v.fmt)
        os.chdir("..")
        ref = tree("ref")

        c = case["how"]
        ext = {"lower": v.ext, "upper": v.ext.upper(), "title": v.ext.title()}[c["case"] if v.id != "dolfin-dots" else "lower"]
        d = c["dir"].replace("ABS/", os.path.join(ctx.dir, "top") + "/")
        os.mkdir("top")
        os.chdir("top")
        os.makedirs(d if d else ".", exist_ok=True)
        path = d + c["stem"] + ext
        f0 = fds()
        kw = dict(v.kwargs)
        infer = c["infer"] and infers(v)
        if not infer:
            kw["file_format"] = v.write_format
        what = f"{v.id}: writing to {c['kind']} {c['dir'] + c['stem'] + ext!r}" + (" (format inferred)" if infer else "")
        with sut(what):
            target = dressed(path, c["kind"])
            if v.writer is not None:
                v.writer(target, m, **v.kwargs)
            elif c["api"] == "write":
                meshio.write(target, m, **kw)
            elif c["api"] == "positional" and not infer:
                kw.pop("file_format")
                meshio.write(target, m, v.write_format, **kw)
            elif c["api"] == "points_cells" and not v.mesh_kw:
                meshio.write_points_cells(target, m.points, m.cells, point_data=m.point_data, cell_data=m.cell_data, field_data=m.field_data,
                                          point_sets=m.point_sets, cell_sets=m.cell_sets, **kw)
            else:
                m.write(target, **kw)
        made = tree(ctx.path("top"))
        base = os.path.relpath(os.path.abspath(d or "."), ctx.path("top"))
        base = "" if base == "." else base + "/"

        def rename(k):
            assert k.startswith("m")
            return base + c["stem"] + (ext if k == "m" + v.ext else k[1:])

        expected = {rename(k): k for k in ref}
        require(set(made) == set(expected), f"{what}: created {sorted(made)}, expected {sorted(expected)}")
        if v.fmt not in TIMESTAMP and v.fmt not in HDF and ".gz" not in v.ext:
            for k, r in expected.items():
                require(made[k] == ref[r], f"{what}: the contents of {k} depend on its name (lengths {len(made[k])}, {len(ref[r])})")
        top = ctx.path("top")
        if c["move"]:
            # the files belong together wherever they are and wherever we are
            os.chdir(ctx.dir)
            os.rename("top", "moved")
            top = ctx.path("moved")
            path = os.path.join("moved", base, c["stem"] + ext)
        what = f"{v.id}: reading {c['rkind']} {c['dir'] + c['stem'] + ext!r}" + (" after moving it" if c["move"] else "")
        if c["link"] and (len(made) == 1 or v.fmt == "xdmf"):
            os.mkdir(ctx.path("links"))
            link = ctx.path("links/l" + ext)
            os.symlink(os.path.abspath(path), link)
            path, what = link, what + " through a symbolic link"
        with sut(what):
            src = dressed(path, c["rkind"])
            if c["infer_r"] and v.ext:
                b = meshio.read(src)
                ctx.label("format inferred")
            elif c["rapi"] == "positional":
                b = meshio.read(src, v.fmt)
            else:
                b = meshio.read(src, file_format=v.fmt)
        diff = M.mesh_diff(M.plain(a), M.plain(b), M.Cmp(pdtype="exact", ddtype="exact", sets=True, field_data=True))
        require(diff is None, f"{what}: {diff}")
        require(tree(top) == made, f"{what}: changed the files")
        left = fds() - f0
        require(not left, f"{what}: files left open: {sorted(left)}")

    return check


# ---------------------------------------------------------------- the format's own read and write


def module_of(v):
    import meshio

    return getattr(meshio, {"dolfin-xml": "dolfin"}.get(v.fmt, v.fmt))


FMT_VERSION = {"gmsh22": "2.2", "gmsh": "4.1", "vtk42": "4.2", "vtk51": "5.1"}


def check_module(v):
    def check(case, ctx):
        import meshio

        p = plain_for(v, case["mesh"])
        m = mesh_for(v, p)
        mod = module_of(v)
        trees = []
        for d in ("one", "two"):
            os.mkdir(d)
            os.chdir(d)
            target = dressed("m" + v.ext, case["kind"])
            with sut(f"{v.id}: {'meshio' if d == 'one' else 'module'}.write"):
                if d == "one":
                    write_file(v, m, "m" + v.ext)
                elif v.writer is not None:
                    v.writer(target, m, **v.kwargs)
                elif v.write_format in FMT_VERSION and (case["version"] or v.write_format not in (v.fmt, "vtk51")):
                    mod.write(target, m, fmt_version=FMT_VERSION[v.write_format], **v.kwargs)
                else:
                    mod.write(target, m, **v.kwargs)
            os.chdir("..")
            trees.append(tree(d))
        one, two = trees
        require(set(one) == set(two), f"{v.id}: meshio.write made {sorted(one)}, the module's write {sorted(two)}")
        if v.fmt not in TIMESTAMP and v.fmt not in HDF and ".gz" not in v.ext:
            for k in one:
                require(one[k] == two[k], f"{v.id}: {k} has {len(one[k])} bytes by meshio.write, {len(two[k])} by the module's write; they differ")
        got = []
        for how in ("meshio.read", "module's read", "Mesh.read"):
            path = os.path.join("two", "m" + v.ext)
            with sut(f"{v.id}: {how}"):
                if how == "meshio.read":
                    got.append(meshio.read(os.path.join("one", "m" + v.ext), file_format=v.fmt))
                elif how == "Mesh.read":
                    if v.ext:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            got.append(meshio.Mesh.read(path, v.fmt))
                else:
                    got.append(mod.read(dressed(path, case["kind"])))
        for how, b in zip(("module's read", "Mesh.read"), got[1:]):
            diff = M.mesh_diff(M.plain(got[0]), M.plain(b), M.Cmp(pdtype="exact", ddtype="exact", sets=True, field_data=True))
            require(diff is None, f"{v.id}: {how} against meshio.read: {diff}")

    return check


MODULE = {"kind": st.sampled_from(["str", "path"]), "version": st.booleans()}

# ---------------------------------------------------------------- buffers

TEXT = {"abaqus", "nastran", "permas", "tecplot", "avsucd", "netgen", "obj", "wkt"}
# kinds of buffer each format supports; others must refuse, not misread
READ_OK = {
    **{f: {"text", "stringio"} for f in TEXT},
    "ansys": {"bytes", "bytesio"}, "mdpa": {"bytes"}, "ply": {"bytes", "bytesio"}, "neuroglancer": {"bytes", "bytesio"},
    "med": {"bytes", "bytesio"}, "h5m": {"bytes", "bytesio"}, "medit": {"text"}, "su2": {"text"}, "ugrid": {"text", "bytes"}, "off": {"text"},
    "flac3d": {"bytes", "bytesio"},
}
WRITE_OK = {
    **{f: {"text", "stringio"} for f in TEXT},
    "ansys": {"bytes", "bytesio"}, "mdpa": {"bytes", "bytesio"}, "ply": {"bytes", "bytesio"}, "neuroglancer": {"bytes", "bytesio"},
    "med": {"bytesio"}, "h5m": {"bytesio"}, "medit": {"bytes", "bytesio"}, "su2": {"bytes", "bytesio"},
    "ugrid": {"text", "stringio", "bytes", "bytesio"},
}
NOTEXT = {"exodus", "med", "h5m", "cgns", "hmf"}  # h5py crashes when given a text buffer
KINDS = ["bytes", "bytesio", "text", "stringio"]


def plain_encoding(v):
    """the encoding does not depend on the file name"""
    return v.ext not in (".meshb",) and ".gz" not in v.ext and not (v.fmt == "ugrid" and v.ext != ".ugrid")


def check_buffer_read(v):
    def check(case, ctx):
        import meshio

        p = plain_for(v, case["mesh"])
        path = ctx.path("m" + v.ext)
        with sut(f"write {v.id}"):
            write_file(v, mesh_for(v, p), path)
            a = meshio.read(path, file_format=v.fmt)
        t0, f0 = tree(ctx.dir), fds()
        for kind in KINDS:
            if v.fmt in NOTEXT and kind in ("text", "stringio"):
                continue
            try:
                if kind in ("text", "stringio"):
                    f = open(path)
                    if kind == "stringio":
                        with f:
                            f = io.StringIO(f.read())
                else:
                    f = open(path, "rb")
                    if kind == "bytesio":
                        with f:
                            f = io.BytesIO(f.read())
            except UnicodeDecodeError:
                continue
            must = kind in READ_OK.get(v.fmt, ()) and plain_encoding(v)
            if v.id.startswith("ansys-bin"):
                must = must and kind == "bytes"
            with f:
                try:
                    b = meshio.read(f, file_format=v.fmt)
                except (Exception, SystemExit) as e:
                    require(not must, f"{v.id}: reading from {kind}: {type(e).__name__}: {e}")
                    ctx.label(f"{kind} refused")
                    continue
            ctx.label(f"{kind} read")
            diff = M.mesh_diff(M.plain(a), M.plain(b), M.Cmp(pdtype="exact", ddtype="exact", sets=True, field_data=True))
            require(diff is None, f"{v.id}: reading from {kind}: {diff}")
        require(tree(ctx.dir) == t0, f"{v.id}: reading from buffers changed the files: {sorted(set(tree(ctx.dir)) ^ set(t0))}")
        require(not (fds() - f0), f"{v.id}: files left open")

    return check


def check_buffer_write(v):
    def check(case, ctx):
        import meshio

        p = plain_for(v, case["mesh"])
        m = mesh_for(v, p)
        path = ctx.path("m" + v.ext)
        with sut(f"write {v.id}"):
            write_file(v, m, path)
            a = meshio.read(path, file_format=v.fmt)
        with open(path, "rb") as f:
            ref = f.read()
        t0, f0 = tree(ctx.dir), fds()
        other = ctx.path("other" + v.ext)
        for kind in KINDS:
            if v.fmt in NOTEXT and kind in ("text", "stringio"):
                continue
            must = kind in WRITE_OK.get(v.fmt, ()) and not (v.id.startswith("ansys-bin") and kind == "bytesio")
            f = {"bytesio": io.BytesIO, "stringio": io.StringIO, "text": lambda: open(other, "w"), "bytes": lambda: open(other, "wb")}[kind]()
            with f:
                try:
                    meshio.write(f, m, file_format=v.write_format, **v.kwargs)
                except (Exception, SystemExit) as e:
                    require(not must, f"{v.id}: writing to {kind}: {type(e).__name__}: {e}")
                    ctx.label(f"{kind} refused")
                    continue
                ctx.label(f"{kind} written")
                if kind == "bytesio":
                    got = f.getvalue()
                elif kind == "stringio":
                    got = f.getvalue().encode()
                else:
                    f.flush()
            if kind in ("text", "bytes"):
                with open(other, "rb") as f:
                    got = f.read()
            if v.fmt in TIMESTAMP or v.fmt in HDF:
                back = ctx.path("back" + v.ext)
                with open(back, "wb") as f:
                    f.write(got)
                with sut(f"{v.id}: reading what was written to {kind}"):
                    b = meshio.read(back, file_format=v.fmt)
                os.remove(back)
                diff = M.mesh_diff(M.plain(a), M.plain(b), M.Cmp(pdtype="exact", ddtype="exact", sets=True, field_data=True))
                require(diff is None, f"{v.id}: writing to {kind}: {diff}")
            else:
                require(got == ref, f"{v.id}: {kind} holds {len(got)} bytes, the file {len(ref)}; they differ")
        t1 = tree(ctx.dir)
        t1.pop("other" + v.ext, None)
        require(t1 == t0, f"{v.id}: writing to buffers left files behind: {sorted(set(t1) ^ set(t0))}")
        require(not (fds() - f0), f"{v.id}: files left open")
        for fn, exc in ((lambda: meshio.write(io.BytesIO(), m), meshio.WriteError), (lambda: meshio.read(io.BytesIO(ref)), meshio.ReadError)):
            try:
                fn()
            except exc:
                continue
            except Exception as e:
                require(False, f"a buffer without format: {type(e).__name__}: {e}")
            require(False, "a buffer without format is accepted")

    return check


def cl(case):
    return M.classify_recipe(case["mesh"])


def suites():
    out = []
    for v in VARIANTS.values():
        if v.group.endswith("-out"):
            continue
        r = M.recipes(v.dom)
        out.append(Suite(f"names/{v.id}", st.fixed_dictionaries({"mesh": r, "how": NAMED}), check_names(v), quick=100, classify=cl))
        # meshio.write also takes arrays of any layout, the modules' functions only plain ones
        plain = M.recipes(replace(v.dom, layouts=()))
        out.append(Suite(f"module/{v.id}", st.fixed_dictionaries({"mesh": plain, **MODULE}), check_module(v), quick=30, classify=cl))
        out.append(Suite(f"read-buffer/{v.id}", r.map(lambda r: {"mesh": r}), check_buffer_read(v), quick=20, classify=cl))
        if plain_encoding(v) and v.writer is None:
            out.append(Suite(f"write-buffer/{v.id}", r.map(lambda r: {"mesh": r}), check_buffer_write(v), quick=20, classify=cl))
    return out
