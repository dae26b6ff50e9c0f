"""OBJ, OFF, PLY, STL, WKT and Neuroglancer files written by other programs."""
from vlib import foreign_surf as F
from vlib import mesh as M
from vlib.core import Suite

from .c15 import check, cl

RULE = (
    "Hypothesis draws a surface mesh recipe with data plus style flags (white space, comments, foreign lines, groups, index forms, order and types of properties, byte order, header spellings, several solids); "
    "an independent encoder writes the file; non-trivial: more than one cell or block or data present."
)
N = {"obj": 1500, "ply": 2000, "neuroglancer": 300, "stl-bin": 600}


def suites():
    cmp = M.Cmp(cast=True, bits=False)
    return [Suite(f"foreign/{k}", cases, check(fmt, enc, cmp), quick=N.get(k, 1000), classify=cl, shards=4) for k, (fmt, enc, cases) in F.FORMATS.items()] + [
        Suite(f"foreign-big/{k}", M.big_cases(cases, 2500), check(fmt, enc, cmp), quick=40, classify=cl, shards=2) for k, (fmt, enc, cases) in F.FORMATS.items()]
