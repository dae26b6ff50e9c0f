"""FEM decks written by other programs."""
import contextlib
import os

from vlib import foreign_fem as F
from vlib import mesh as M
from vlib.core import Suite, sut

RULE = (
    "Hypothesis draws a mesh recipe plus style flags (sparse or shuffled identifiers, comments, foreign cards and sections, field layouts, continuations, letter case, number spellings, "
    "set definitions, zones, ASCII/binary); an independent encoder writes the deck; non-trivial: more than one cell or block or data present."
)


@contextlib.contextmanager
def elsewhere(ctx, away):
    """the working directory isn't the one of the files"""
    old = os.getcwd()
    if away:
        os.makedirs(ctx.path("away"), exist_ok=True)
        os.chdir(ctx.path("away"))
    try:
        yield
    finally:
        os.chdir(old)


def check(fmt, encode, cmp):
    def run(case, ctx):
        import meshio

        e, files, main = encode(case)
        for name, b in files.items():
            os.makedirs(os.path.dirname(ctx.path(name)), exist_ok=True)
            with open(ctx.path(name), "wb") as f:
                f.write(b)
        with sut(f"read {fmt} deck"), elsewhere(ctx, len(files) > 1):
            m = meshio.read(ctx.path(main), file_format=fmt)
        M.internally_consistent(m)
        M.assert_same(e, M.plain(m), cmp, f"foreign {fmt} deck")

    return run


def cl(case):
    nt, labels = M.classify_recipe(case["mesh"])
    labels = [x for x in labels if not x.startswith("type:")]
    return nt, labels + [f"style:{k}={v}" if not isinstance(v, bool) else f"style:{k}" for k, v in case["style"].items() if v]


def suites():
    cmp = M.Cmp(cast=True, bits=False, sets=True)
    return [Suite(f"foreign/{k}", cases, check(k, enc, cmp), quick=2500, classify=cl, shards=4) for k, (enc, cases) in F.FORMATS.items()] + [
        Suite(f"foreign-big/{k}", M.big_cases(cases, 1500), check(k, enc, cmp), quick=64, classify=cl, shards=4) for k, (enc, cases) in F.FORMATS.items()] + [
        Suite("foreign/abaqus-include", F.abq_include_cases(), check("abaqus", F.abaqus_include, cmp), quick=1500, classify=cl, shards=4)]
