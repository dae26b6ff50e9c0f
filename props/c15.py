"""Medit, Netgen, SU2, TetGen, UGRID, Tecplot, AVS-UCD, FLAC3D and DOLFIN files written by other programs."""
from vlib import foreign_simple as F
from vlib import mesh as M
from vlib.core import Suite, require, sut

RULE = (
    "Hypothesis draws a mesh recipe with data plus style flags (identifiers, comments, foreign sections, order of sections, header spellings, number spellings, white space, versions, byte order, "
    "record marks, extra columns); an independent encoder writes the file(s); non-trivial: more than one cell or block or data present."
)


def check(fmt, encode, cmp):
    def run(case, ctx):
        import meshio

        e, files, main = encode(case)
        for name, b in files.items():
            with open(ctx.path(name), "wb") as f:
                f.write(b)
        with sut(f"read {fmt} file"):
            m = meshio.read(ctx.path(main), file_format=fmt)
        M.internally_consistent(m)
        M.assert_same(e, M.plain(m), cmp, f"foreign {fmt} file")
        if "info" in e:
            require(M.arr_dicts_same(e["info"] or {}, m.info or {}), f"foreign {fmt} file: info is {m.info}, expected {e['info']}")

    return run


def cl(case):
    nt, labels = M.classify_recipe(case["mesh"])
    labels = [x for x in labels if not x.startswith("type:")]
    return nt, labels + [f"style:{k}={v}" if not isinstance(v, bool) else f"style:{k}" for k, v in case["style"].items() if v]


def suites():
    out = []
    for k, (fmt, enc, cases) in F.FORMATS.items():
        cmp = M.Cmp(cast=True, bits=False, sets=True, field_data=fmt == "netgen", ignore_extra=("cell_ids",) if fmt == "flac3d" else ())
        out.append(Suite(f"foreign/{k}", cases, check(fmt, enc, cmp), quick=1000, classify=cl, shards=4))
        out.append(Suite(f"foreign-big/{k}", M.big_cases(cases, 2500), check(fmt, enc, cmp), quick=40, classify=cl, shards=2))
    return out
