"""Gmsh files written by other tools."""
from vlib import foreign_gmsh as F
from vlib import mesh as M
from vlib.core import Suite, sut
from vlib.fmt_gmsh import post_phys

RULE = (
    "Hypothesis draws a mesh recipe plus a file style (MSH version string, ASCII/binary, data size, sparse or shuffled node and "
    "element tags, extra tags, entities with 0-3 physical groups, physical names, periodic links, comments, unknown sections, "
    "blank lines, data given for some nodes or elements only, sections in different order); non-trivial: more than one cell or block or data present."
)


def check(case, ctx):
    import meshio

    e, b = F.make(case)
    path = ctx.path("f.msh")
    with open(path, "wb") as f:
        f.write(b)
    if case["param"] and case["v"][0] == "4":  # nodes with parametric coordinates may be refused
        try:
            m = meshio.read(path)
        except (Exception, SystemExit):
            ctx.label("refused")
            return
    else:
        with sut("read msh"):
            m = meshio.read(path)
    M.internally_consistent(m)
    g = post_phys(M.plain(m))
    g["cell_sets"].pop("gmsh:bounding_entities", None)
    M.assert_same(e, g, M.Cmp(bits=False, field_data=True, sets=True, periodic=True), "foreign msh")


def cl(case):
    nt, labels = M.classify_recipe(case["mesh"])
    labels = [x for x in labels if not x.startswith("type:")]
    return nt, labels + [k for k in ("bin", "sparse", "shuffle", "comments", "blank", "entities", "names", "periodic", "eord", "order", "part", "large") if case[k]]


def suites():
    vs = ("2.2", "4.0", "4.1")
    return [Suite(f"foreign/msh{v}", F.cases(v), check, quick=2000, classify=cl, shards=4) for v in vs] + [
        Suite(f"foreign-big/msh{v}", M.big_cases(F.cases(v)), check, quick=120, classify=cl, shards=4) for v in vs]
