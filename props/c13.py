"""XDMF, Exodus II, MED and H5M files written by other programs."""
import numpy as np

from vlib import foreign_hdf as F
from vlib import mesh as M
from vlib.core import Suite, require, sut
from vlib.fmt_fem import mk

RULE = (
    "Hypothesis draws a mesh recipe with data plus style flags (attribute spellings and defaults, XML/HDF/binary storage, mixed topologies, references, white space, netCDF flavours, coordinate layouts, "
    "empty blocks, truth tables, time steps, families, profiles, Gauss points); an independent writer (xml.etree, h5py, netCDF4) makes the file; non-trivial: more than one cell or block or data present."
)
CMP = M.Cmp(pdtype="exact", ddtype="exact", bits=True)
XCMP = M.Cmp(pdtype="exact", ddtype="exact", bits=True, field_data=True)
LOOSE = M.Cmp(cast=True, sets=True, bits=False)


def reader(fmt, encode, cmp):
    def run(case, ctx):
        import meshio

        e, fn = encode(case, ctx.dir)
        with sut(f"read {fmt} file"):
            m = meshio.read(fn, file_format=fmt)
        M.internally_consistent(m)
        M.assert_same(e, M.plain(m), cmp, f"foreign {fmt} file")
        if "info" in e:
            require(sorted(e["info"]) == sorted(m.info or []), f"info is {m.info}, expected {e['info']}")

    return run


def series(case, ctx):
    import meshio

    steps, fn = F.xdmf_series(case, ctx.dir)
    with sut("read time series"), meshio.xdmf.TimeSeriesReader(fn) as r:
        points, cells = r.read_points_cells()
        got = [(i % len(steps), r.read_data(i % len(steps))) for i in list(range(len(steps))) + case["order"]]
        require(r.num_steps == len(steps), f"{r.num_steps} steps instead of {len(steps)}")
    for i, (t, pd, cd) in got:
        te, e = steps[i]
        require(t == te, f"step {i}: time {t!r} instead of {te!r}")
        M.assert_same(e, mk(points, [(c.type, c.data) for c in cells], pd, cd), CMP, f"step {i}")


def med(case, ctx):
    import meshio

    e, fn, fam = F.med(case, ctx.dir)
    with sut("read med file"):
        m = meshio.read(fn, file_format="med")
    M.internally_consistent(m)
    M.assert_same(e, M.plain(m), M.Cmp(bits=False), "foreign MED file")
    for kind, got in (("NOEUD", m.point_tags), ("ELEME", m.cell_tags)):
        require({int(k): list(v) for k, v in got.items()} == fam[kind], f"families {kind}: {got} instead of {fam[kind]}")


def cl(case):
    nt, labels = M.classify_recipe(case["mesh"])
    labels = [x for x in labels if not x.startswith("type:")]
    return nt or bool(case.get("fields")) or bool(case.get("steps")), labels + [f"style:{k}={v}" if not isinstance(v, bool) else f"style:{k}" for k, v in case["style"].items() if v]


def suites():
    b = M.big_cases
    return [
        Suite("foreign-big/xdmf", b(F.XDMF_CASES, 2500), reader("xdmf", F.xdmf, XCMP), quick=80, classify=cl, shards=4),
        Suite("foreign-big/exodus", b(F.EXO_CASES), reader("exodus", F.exodus, LOOSE), quick=80, classify=cl, shards=4),
        Suite("foreign-big/med", b(F.MED_CASES), med, quick=60, classify=cl, shards=4),
        Suite("foreign-big/h5m", b(F.H5M_CASES), reader("h5m", F.h5m, CMP), quick=40, classify=cl, shards=2),
        Suite("foreign/xdmf", F.XDMF_CASES, reader("xdmf", F.xdmf, XCMP), quick=1600, classify=cl, shards=4),
        Suite("foreign/series", F.SERIES_CASES, series, quick=800, classify=cl, shards=4),
        Suite("foreign/exodus", F.EXO_CASES, reader("exodus", F.exodus, LOOSE), quick=1000, classify=cl, shards=4),
        Suite("foreign/med", F.MED_CASES, med, quick=1200, classify=cl, shards=4),
        Suite("foreign/h5m", F.H5M_CASES, reader("h5m", F.h5m, CMP), quick=300, classify=cl, shards=2),
    ]
