"""Reading and writing have no side effects but the one asked for."""
from __future__ import annotations

import contextlib
import copy
import os

import numpy as np
from hypothesis import strategies as st

from vlib import files
from vlib import mesh as M
from vlib.core import Suite, require, sut
from vlib.registry import VARIANTS

from .common import do_read, do_write, got_plain, import_all, mesh_for, plain_for  # noqa: F401

RULE = (
    "Hypothesis draws, per format variant, mesh recipes from a superset of the variant's domain (extra cell types, sets, names, data) and, for "
    "the overwriting suite, a pair of meshes; non-trivial: more than one cell or block, or data or sets."
)

NAMES = ("a", "left", "b 2")
EXTRA = ("vertex", "triangle", "wedge15", "pyramid", "line3")
# the file contains the time of writing
TIMESTAMP = {"flac3d", "ply", "obj"}
# HDF5 containers: compared through the reader
HDF = {"exodus", "med", "h5m", "cgns", "hmf", "xdmf"}


def snapshot(m):
    def a(x):
        if isinstance(x, np.ndarray):
            return ("arr", x.dtype.str, x.shape, x.tobytes())
        return repr(x)

    return {
        "points": a(m.points),
        "cells": [(c.type, a(c.data), list(c.tags)) for c in m.cells],
        "point_data": [(k, a(v)) for k, v in m.point_data.items()],
        "cell_data": [(k, [a(x) for x in v]) for k, v in m.cell_data.items()],
        "field_data": [(k, a(v)) for k, v in m.field_data.items()],
        "point_sets": [(k, a(v)) for k, v in m.point_sets.items()],
        "cell_sets": [(k, [a(x) for x in v]) for k, v in m.cell_sets.items()],
        "gmsh_periodic": repr(m.gmsh_periodic),
        "attributes": sorted(m.__dict__),
    }


def fds():
    out = set()
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if t.startswith("/") and not t.startswith(("/dev", "/proc", "/usr", "/opt")):
            out.add((f, t))
    return out


def world():
    """what a library call should not change behind the caller's back"""
    import locale
    import random
    import sys

    mask = os.umask(0)
    os.umask(mask)
    a = np.random.get_state()
    return {
        "the working directory": os.getcwd(), "the umask": mask, "the environment": dict(os.environ), "numpy's print options": np.get_printoptions(), "numpy's error handling": np.geterr(),
        "numpy's random numbers": (a[0], a[1].tobytes(), *a[2:]), "Python's random numbers": random.getstate(), "the locale": locale.setlocale(locale.LC_ALL),
        "the standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "the recursion limit": sys.getrecursionlimit(), "the integer string limit": sys.get_int_max_str_digits(),
    }


def same_world(a, what):
    b = world()
    for k in a:
        require(a[k] == b[k], f"{what} changed {k}")


@contextlib.contextmanager
def odd_settings(on):
    """settings of the process which files do not depend on"""
    if not on:
        yield
        return
    with np.printoptions(precision=2, threshold=4, edgeitems=1, suppress=True, sign="+", linewidth=20):
        yield


def tree(d):
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def wide(v):
    d = v.dom
    types = tuple(dict.fromkeys(d.types + EXTRA))
    data = M.Data(dtypes=("f8", "i4", "f4", "i8"), shapes=((), (3,), (2,)), names=("a", "b c", "u", "x:y"))
    return M.replace(d, types=types, dims=tuple(set(d.dims) | {2, 3}), pd=d.pd or data, cd=d.cd or data, psets=d.psets or NAMES, csets=d.csets or NAMES,
                     unique=False, max_blocks=max(3, d.max_blocks), large=())


def check_write(v):
    def check(case, ctx):
        p = M.build(case["mesh"])
        if v.adjust is not None:
            try:
                p = v.adjust(p, np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 1)))
            except Exception:
                p = M.build(case["mesh"])
        p["field_data"] = p["field_data"] or {"tag one": np.array([1, 2])}
        m = mesh_for(v, p)
        import_all()
        before, w0 = snapshot(m), world()
        f0 = fds()
        try:
            do_write(v, m, ctx.path("m" + v.ext))
            ctx.label("written")
        except (Exception, SystemExit):
            ctx.label("refused")
        same_world(w0, f"writing {v.id}")
        after = snapshot(m)
        for k in before:
            require(before[k] == after[k], f"writing {v.id} changed the caller's mesh: {k}")
        left = fds() - f0
        require(not left, f"writing {v.id} leaves files open: {sorted(t for _, t in left)}")

    return check


def same(v, a, b, what):
    d = M.mesh_diff(M.plain(a), M.plain(b), M.Cmp(pdtype="exact", ddtype="exact", sets=True, field_data=True))
    require(d is None, f"{what}: {d}")


def check_read(v):
    def check(case, ctx):
        p = plain_for(v, case["mesh"])
        path = ctx.path("m" + v.ext)
        with sut(f"write {v.id}"):
            do_write(v, mesh_for(v, p), path)
        import_all()
        t0, f0, w0 = tree(ctx.dir), fds(), world()
        with sut(f"read {v.id}"):
            a = do_read(v, path)
        same_world(w0, f"reading {v.id}")
        left = fds() - f0
        require(not left, f"reading {v.id} leaves files open: {sorted(t for _, t in left)}")
        with sut(f"read {v.id}"), odd_settings(True):
            b = do_read(v, path)
        same(v, a, b, f"reading {v.id} twice")
        a = copy.deepcopy(a)  # the two must not share anything
        with sut(f"changing a mesh read from {v.id}"):
            scribble(b)
        with sut(f"read {v.id}"):
            c = do_read(v, path)
        same(v, a, c, f"reading {v.id} again after changing the first result")
        t1 = tree(ctx.dir)
        require(t0 == t1, f"reading {v.id} changed the files: {sorted(k for k in set(t0) | set(t1) if t0.get(k) != t1.get(k))}")

    return check


def scribble(m):
    def fill(a):
        if isinstance(a, np.ndarray) and a.dtype.kind in "iuf":
            if a.ndim == 0:
                return
            if not a.flags.writeable:
                return  # nothing to spoil
            a[...] = 1

    fill(m.points)
    for c in m.cells:
        fill(c.data)
    for d in (m.point_data, m.field_data, m.point_sets):
        for x in d.values():
            fill(x)
    for d in (m.cell_data, m.cell_sets):
        for v in d.values():
            for x in v:
                fill(x)
    m.point_data.clear()
    m.cell_data.clear()
    m.cells.clear()


def check_again(v):
    """Writing over an older file gives what writing a new one gives; writing twice gives the same."""

    def check(case, ctx):
        p, q = plain_for(v, case["mesh"]), plain_for(v, case["old"])
        os.mkdir("x")
        os.mkdir("y")
        path, ref = os.path.abspath("x/m" + v.ext), os.path.abspath("y/m" + v.ext)
        m = mesh_for(v, p)
        with sut(f"write {v.id}"):
            if case["both"]:
                do_write(v, mesh_for(v, q), path)
            os.chdir("x")
            do_write(v, m, path)
            os.chdir("../y")
            with odd_settings(case["odd"]):
                do_write(v, m, ref)
            os.chdir("..")
        a, b = tree("x"), tree("y")
        require(set(b) <= set(a), f"writing {v.id}: files {sorted(b)} when new, {sorted(a)} when overwriting")
        if not case["both"]:
            require(set(a) == set(b), f"writing {v.id} twice: files {sorted(a)} and {sorted(b)}")
        d = files.dirs_differ("x", "y", extra=case["both"])
        require(d is None, f"writing {v.id}: the file depends on what was there before: {d}")
        with sut(f"read {v.id}"):
            same(v, do_read(v, ref), do_read(v, path), f"{v.id}: overwritten and new file")

    return check


def check_history(vs):
    """No operation is influenced by those before it, whether they worked or failed, nor changes what they gave."""

    def check(case, ctx):
        kept, where = [], {}
        import_all()
        w0 = world()
        for k, step in enumerate(case["steps"]):
            v = vs[step["v"] % len(vs)]
            spot = f"d{step['dir']}" if v.fmt not in SKIP_AGAIN else f"k{k}"
            os.makedirs(spot, exist_ok=True)
            path = os.path.join(ctx.dir, spot, "m" + v.ext)
            where.pop(spot, None)
            op = step["op"] if k < len(case["steps"]) - 1 else "rt"
            if op == "bad":
                try:
                    do_write(v, M.to_mesh(M.build(step["wide"])), path)
                except (Exception, SystemExit):
                    pass
                continue
            p = plain_for(v, step["mesh"][v.id])
            with sut(f"step {k}: write {v.id}"):
                do_write(v, mesh_for(v, p), path)
            if op == "cut":
                with open(path, "rb") as f:
                    b = f.read()
                with open(path, "wb") as f:
                    f.write(b[: len(b) * step["pos"] // 1000])
                try:
                    do_read(v, path)
                except (Exception, SystemExit):
                    pass
                for x in tree(spot):
                    os.remove(os.path.join(spot, x))
                continue
            with sut(f"step {k}: read {v.id}"):
                g = do_read(v, path)
            M.assert_same(v.expect(p), got_plain(v, g), v.cmp, f"step {k}: {v.id} write+read")
            kept.append((k, v, g, copy.deepcopy(g)))
            where[spot] = (k, v, tree(spot))
        same_world(w0, "reading and writing")
        for k, v, g, c in kept:
            same(v, c, g, f"the mesh read in step {k} ({v.id}) after the later steps")
        for spot, (k, v, t) in where.items():
            require(tree(spot) == t, f"the files written in step {k} ({v.id}) are changed by the later steps")

    return check


CUTTABLE = {"xdmf", "hmf", "exodus", "med", "h5m", "cgns", "tetgen", "dolfin-xml", "neuroglancer"}


@st.composite
def histories(draw, vs):
    steps = []
    for _ in range(draw(st.integers(2, 5))):
        i = draw(st.integers(0, len(vs) - 1))
        v = vs[i]
        ops = ["rt", "rt", "rt", "bad"] + (["cut"] if v.fmt not in CUTTABLE else [])
        s = {"v": i, "dir": draw(st.integers(0, 1)), "op": draw(st.sampled_from(ops)), "pos": draw(st.integers(0, 999))}
        s["mesh"] = {v.id: draw(M.recipes(M.replace(v.dom, large=())))}
        if s["op"] == "bad":
            s["wide"] = draw(M.recipes(wide(v)))
        steps.append(s)
    return {"steps": steps}


def cl_history(case):
    return True, [s["op"] for s in case["steps"]]


def cl(case):
    return M.classify_recipe(case["mesh"])


SKIP_AGAIN = {"dolfin-xml"}  # DOLFIN picks up the companion files of the older mesh


def check_svg(case, ctx):
    import meshio

    p = M.build(case["mesh"])
    if case["flat"] and p["points"].shape[1] == 3:
        p["points"][:, 2] = 0
    m = M.to_mesh(p)
    before, f0 = snapshot(m), fds()
    try:
        meshio.write(ctx.path("m.svg"), m, **case["kw"])
        ctx.label("written")
    except meshio.WriteError:
        ctx.label("refused")
    after = snapshot(m)
    for k in before:
        require(before[k] == after[k], f"writing SVG changed the caller's mesh: {k}")
    require(fds() <= f0, "writing SVG leaves files open")


def suites():
    from .c10 import svg_cases

    out = [Suite("mesh-unchanged/svg", svg_cases(), check_svg, quick=300, classify=cl)]
    for v in VARIANTS.values():
        r = M.recipes(wide(v))
        out.append(Suite(f"mesh-unchanged/{v.id}", r.map(lambda r: {"mesh": r}), check_write(v), quick=60, classify=cl))
        if v.group.endswith("-out"):
            continue
        out.append(Suite(f"read-pure/{v.id}", M.recipes(v.dom).map(lambda r: {"mesh": r}), check_read(v), quick=50, classify=cl))
        s = M.recipes(v.dom)
        both = st.just(False) if v.fmt in SKIP_AGAIN else st.booleans()
        out.append(Suite(f"overwrite/{v.id}", st.fixed_dictionaries({"mesh": s, "old": s, "both": both, "odd": st.booleans()}), check_again(v), quick=50, classify=cl))
    return out + history_suites()


def history_suites():
    vs = [v for v in VARIANTS.values() if not v.group.endswith("-out")]
    fmts = {}
    for v in vs:
        fmts.setdefault(v.fmt, []).append(v)
    out = [Suite(f"history/{f}", histories(x), check_history(x), quick=60, classify=cl_history) for f, x in fmts.items()]
    return out + [Suite("history/any", histories(vs), check_history(vs), quick=400, classify=cl_history, shards=4)]
