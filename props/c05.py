import numpy as np
from hypothesis import strategies as st

from vlib import mesh as M
from vlib.core import Suite, oracle, require, sut
from vlib.fmt_hdf import parse_med

from .common import RULE_MESH, VARIANTS, classify, mesh_cases, mesh_for, parse_suites, plain_for, roundtrip_suites

RULE = RULE_MESH + " MED family cases additionally carry named families and component names."

_name = st.text("abcXYZ019_-. /éü日", min_size=1, max_size=12).map(lambda s: "n" + s.strip() + "e")
_names = st.lists(st.one_of(_name, st.just("g" * 80)), min_size=1, max_size=3, unique=True)
_fam = st.lists(_names, max_size=4)


@st.composite
def fam_cases(draw):
    r = draw(mesh_cases(VARIANTS["med"]))
    return {"mesh": r["mesh"], "pt": draw(_fam), "ct": draw(_fam), "comp": draw(st.booleans())}


def check_families(case, ctx):
    """point/cell tags, their family names and the component names survive med -> med."""
    import meshio

    v = VARIANTS["med"]
    p = plain_for(v, case["mesh"])
    rng = np.random.Generator(np.random.PCG64(case["mesh"]["seed"] + 2))
    pt = {i + 1: x for i, x in enumerate(case["pt"])}
    ct = {-i - 1: x for i, x in enumerate(case["ct"])}
    p["point_data"]["point_tags"] = rng.integers(0, len(pt) + 1, len(p["points"]))
    p["cell_data"]["cell_tags"] = [-rng.integers(0, len(ct) + 1, len(c)) for _, c in p["cells"]]
    m = mesh_for(v, p)
    m.point_tags, m.cell_tags = pt, ct
    noms = None
    if case["comp"]:
        noms = {}
        for d, first in ((p["point_data"], lambda a: a), (p["cell_data"], lambda a: a[0])):
            for k, a in d.items():
                if k in ("point_tags", "cell_tags"):
                    continue
                a = first(a)
                noms[k] = [f"{k[0] if k[0].isalnum() else 'c'}{i}" for i in range(1 if a.ndim == 1 else a.shape[-1])]
        m.field_data["med:nom"] = [noms[k] for k in [*p["point_data"], *p["cell_data"]] if k in noms]
    with sut("write med"):
        meshio.write(ctx.path("a.med"), m)
    with oracle("med output"):
        g = parse_med(ctx.path("a.med"))
    require(g["fam"] == {"NOEUD": pt, "ELEME": ct}, lambda: f"families in the file {g['fam']}, expected {pt} {ct}")
    cur = ctx.path("a.med")
    for i in range(2):
        with sut("read med"):
            m2 = meshio.read(cur)
        M.internally_consistent(m2)
        M.assert_same(v.expect(p), M.plain(m2), v.cmp, "med families")
        got = ({int(k): list(x) for k, x in m2.point_tags.items()}, {int(k): list(x) for k, x in m2.cell_tags.items()})
        require(got == (pt, ct), lambda: f"families {got}, expected {(pt, ct)}")
        if noms:
            ks = [k for k in [*m2.point_data, *m2.cell_data] if k in noms]
            got = dict(zip(ks, [list(x) for x in m2.field_data["med:nom"]]))
            require(got == noms, lambda: f"component names {got}, expected {noms}")
        cur = ctx.path(f"b{i}.med")
        if i == 0:
            with sut("write med again"):
                meshio.write(cur, m2)


def suites():
    return roundtrip_suites("hdf") + parse_suites(["hdf"]) + [
        Suite("med-families", fam_cases(), check_families, quick=300, classify=classify, shards=2)]
