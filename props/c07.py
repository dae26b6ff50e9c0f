from hypothesis import strategies as st

from props.common import RULE_MESH, VARIANTS, do_read, do_write, got_plain, mesh_cases, mesh_for, parse_suites, plain_for, roundtrip_suites
from vlib import mesh as M
from vlib.core import Suite, require, sut

RULE = RULE_MESH


def identifications(case, ctx):
    """Netgen's point identifications are kept in mesh.info"""
    import numpy as np

    v = VARIANTS[case["v"]]
    p = plain_for(v, case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 3))
    a = rng.integers(1, len(p["points"]) + 1, (case["n"], 3)).astype(case["dt"])
    b = rng.integers(0, 9, (1, case["m"])).astype(case["dt"])
    info = {"netgen:identifications": a.copy(), "netgen:identificationtypes": b.copy() if case["row"] else b[0].copy()}
    m = mesh_for(v, p)
    m.info = dict(info)
    path = ctx.path("m" + v.ext)
    with sut("write"):
        do_write(v, m, path)
    with sut("read"):
        g = do_read(v, path)
    M.assert_same(v.expect(p), got_plain(v, g), v.cmp, "write+read")
    require(M.arr_dicts_same({"netgen:identifications": a, "netgen:identificationtypes": b}, g.info or {}), lambda: f"info is {g.info}, written {info}")


def suites():
    return roundtrip_suites("simple", shards=1) + parse_suites(["simple"]) + [
        Suite("info/netgen", st.fixed_dictionaries({
            "mesh": mesh_cases(VARIANTS["netgen"]).map(lambda c: c["mesh"]), "v": st.sampled_from(["netgen", "netgen-gz"]), "n": st.integers(1, 20), "m": st.integers(1, 12),
            "dt": st.sampled_from(["i8", "i4"]), "row": st.booleans()}), identifications, quick=400, classify=lambda c: (True, [c["v"], c["dt"]])),
    ]
