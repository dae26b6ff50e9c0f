from __future__ import annotations

import functools
import os

import numpy as np  # noqa: F401
from hypothesis import strategies as st

from vlib import mesh as M
from vlib.core import Suite, Violation, oracle, require, sut
from vlib.registry import VARIANTS, load_all

load_all()


def variants(group):
    return [v for v in VARIANTS.values() if v.group == group]


def do_write(v, m, path, **extra):
    import meshio

    kw = dict(v.kwargs)
    kw.update(extra)
    if v.writer is not None:
        return v.writer(path, m, **kw)
    meshio.write(path, m, file_format=v.write_format, **kw)


def plain_for(v, recipe):
    p = M.build(recipe)
    if v.adjust is not None:
        p = v.adjust(p, np.random.Generator(np.random.PCG64(recipe["seed"] + 1)))
    return p


def mesh_for(v, p):
    return M.to_mesh(p, **(v.mesh_kw(p) if v.mesh_kw else {}))


def do_read(v, path):
    import meshio

    return v.reader(path) if v.reader else meshio.read(path)


def got_plain(v, m):
    g = M.plain(m)
    return v.post(g) if v.post else g


def roundtrip_check(v):
    def check(case, ctx):
        p = plain_for(v, case["mesh"])
        path = ctx.path("m" + v.ext)
        with sut(f"write {v.id}"):
            do_write(v, mesh_for(v, p), path)
        with sut(f"read {v.id}"):
            g = do_read(v, path)
        M.internally_consistent(g)
        M.assert_same(v.expect(p), got_plain(v, g), v.cmp, f"{v.id} write+read")

    return check


def parse_check(v):
    def check(case, ctx):
        p = plain_for(v, case["mesh"])
        path = ctx.path("m" + v.ext)
        with sut(f"write {v.id}"):
            do_write(v, mesh_for(v, p), path)
        with oracle(f"{v.id} output"):
            g = v.parse(path)
        M.assert_same((v.parse_expect or v.expect)(p), g, v.parse_cmp or v.cmp, f"{v.id} output")

    return check


def classify(case):
    return M.classify_recipe(case["mesh"])


def mesh_cases(v):
    return M.recipes(v.dom).map(lambda r: {"mesh": r})


def without_empty(p, merge=True):
    """Empty blocks may be dropped or kept, and what they separate may be merged."""
    keep = [i for i, (_, d) in enumerate(p["cells"]) if len(d)]
    q = dict(p)
    q["cells"] = [p["cells"][i] for i in keep]
    q["cell_data"] = {k: [v[i] for i in keep] for k, v in p["cell_data"].items()} if keep else {}
    q["cell_sets"] = {k: [v[i] for i in keep] for k, v in p["cell_sets"].items()} if keep else {}
    if not merge or any(t.startswith("polyhedron") for t, _ in q["cells"]):
        return q
    return M.merge_adjacent(q)


@st.composite
def hollow(draw, v):
    """Meshes with empty cell blocks or none at all."""
    r = draw(M.recipes(v.dom))
    modes = ["some"] if v.id.startswith("gmsh41") else ["some", "some", "some", "all", "none"]
    mode = draw(st.sampled_from(modes))
    if mode == "none":
        r["blocks"], r["cd"] = [], []
        if "csets" in r:
            r["csets"] = []
    else:
        n = len(r["blocks"])
        some = draw(st.sets(st.integers(0, n - 1), min_size=1)) if mode == "some" else range(n)
        for i in some:
            r["blocks"][i][1] = 0
        if v.id.startswith("gmsh41"):  # the entity of the nodes is that of the first block
            r["blocks"][0][1] = max(1, r["blocks"][0][1])
    return {"mesh": r, "mode": mode}


def hollow_check(v):
    def check(case, ctx):
        import meshio

        p = plain_for(v, case["mesh"])
        path = ctx.path("m" + v.ext)
        with sut(f"write {v.id}"):
            try:
                do_write(v, mesh_for(v, p), path)
            except meshio.WriteError:
                ctx.label("refused")
                return
        with sut(f"read {v.id}"):
            g = do_read(v, path)
        M.internally_consistent(g)
        M.assert_same(without_empty(v.expect(without_empty(p, False))), without_empty(got_plain(v, g)), v.cmp, f"{v.id} write+read")

    return check


# formats which tell empty blocks from none in their own ways, or cannot express a mesh without cells
HOLLOW_NOT = ("cgns", "tecplot", "med", "flac3d", "avsucd", "dolfin-xml")


def hollow_suites(group):
    return [
        Suite(f"hollow/{v.id}", hollow(v), hollow_check(v), quick=60, classify=lambda c: (True, [c["mode"]]), shards=1) for v in variants(group) if v.fmt not in HOLLOW_NOT
    ]


MANY = tuple(f"n{i}" for i in range(14)) + ("a" * 31, "b" * 32, "c" * 33, "d" * 63, "e" * 65, "f_" * 50)


def many_dom(v):
    """Many blocks, many data arrays, long names."""

    def data(d):
        if d is None or d.max < 3 or len(d.names) < 4:
            return d
        return M.replace(d, names=d.names + tuple(k for k in MANY if len(k) <= v.namelen), max=16)

    d = v.dom
    return M.replace(d, large=(), max_blocks=d.max_blocks if d.unique or d.max_blocks < 3 else 24, max_cells=3, pd=data(d.pd), cd=data(d.cd))


def many_suites(group):
    return [Suite(f"many/{v.id}", M.recipes(many_dom(v)).map(lambda r: {"mesh": r}), roundtrip_check(v), quick=80, thorough=3000, classify=classify, shards=1) for v in variants(group)]


def roundtrip_suites(group, shards=2):
    return [
        Suite(f"rt/{v.id}", mesh_cases(v), roundtrip_check(v), quick=v.quick, classify=classify, shards=shards)
        for v in variants(group)
    ] + [
        Suite(f"big/{v.id}", M.big_recipes(v.dom, v.biglimit).map(lambda r: {"mesh": r}), roundtrip_check(v),
              quick=v.bigquick, thorough=20 * v.bigquick, classify=classify, shards=1)
        for v in variants(group) if v.bigquick
    ] + [
        Suite(f"huge/{v.id}", M.huge_recipes(v.dom).map(lambda r: {"mesh": r}), roundtrip_check(v), quick=1 if "poly" in v.id or "nastran" in v.id else 2, thorough=30, classify=classify, shards=1, hang_s=300)
        for v in variants(group) if v.bigquick
    ] + hollow_suites(group) + many_suites(group)


def parse_suites(groups, shards=1):
    return [
        Suite(f"out/{v.id}", mesh_cases(v), parse_check(v), quick=max(100, v.quick // 2), classify=classify, shards=shards)
        for v in VARIANTS.values() if v.group in groups and v.parse is not None
    ]


RULE_MESH = (
    "Hypothesis draws a mesh recipe (point dimension/dtype/value class, block list with types, sizes and index dtype, "
    "data arrays with dtype/shape/value class, sets, value seed); a case is non-trivial when it has more than one "
    "cell or block, or carries data or sets; distinct by hash of the recipe."
)


@functools.lru_cache(None)
def import_all():
    """modules imported on first use would otherwise look like side effects"""
    import importlib
    import pkgutil

    import meshio

    for x in pkgutil.walk_packages(meshio.__path__, "meshio."):
        if not x.name.endswith("__main__"):
            importlib.import_module(x.name)
    for x in ("h5py", "netCDF4", "lzma", "gzip", "rich.console", "xml.etree.ElementTree"):
        importlib.import_module(x)
