"""Reads and writes in different threads do not influence each other."""
from __future__ import annotations

import os

from hypothesis import strategies as st

from vlib import mesh as M
from vlib.core import Suite, Violation, require, sut
from vlib.registry import VARIANTS
from vlib.sched import Interleaver

from .common import do_read, do_write, got_plain, import_all, mesh_for, plain_for

RULE = (
    "Hypothesis draws two or three jobs (format variant, mesh; write then read, each in its own directory, or all on one shared mesh or file) and a schedule "
    "of thread switches in source lines; non-trivial: the schedule switched threads at least once before the first job ended."
)

# repeated over and over
gaps = st.one_of(
    st.lists(st.integers(1, 4), min_size=1, max_size=3),
    st.lists(st.integers(1, 60), min_size=1, max_size=6),
    st.lists(st.integers(1, 2000), min_size=1, max_size=8),
)


HDF = {"exodus", "med", "h5m", "cgns", "hmf"}


def small(v):
    return M.replace(v.dom, large=())


@st.composite
def cases(draw, vs):
    mode = draw(st.sampled_from(["own", "own", "own", "mesh", "file"]))
    n = draw(st.integers(2, 3))
    ids = [draw(st.sampled_from(vs)).id for _ in range(n)]
    if mode != "own":
        ids = ids[:1] * n
    meshes = [draw(M.recipes(small(VARIANTS[i]))) for i in (ids if mode == "own" else ids[:1])]
    return {"mode": mode, "ids": ids, "meshes": meshes, "gaps": draw(gaps)}


def check(case, ctx):
    import meshio

    mode, jobs = case["mode"], []
    shared = None
    for k, i in enumerate(case["ids"]):
        v = VARIANTS[i]
        p = plain_for(v, case["meshes"][k if mode == "own" else 0])
        exp = v.expect(p)
        d = ctx.path(f"t{k}")
        os.mkdir(d)
        path = os.path.join(d, "m" + v.ext)
        if mode == "own":
            m = mesh_for(v, p)
        else:
            m = shared = shared if shared is not None else mesh_for(v, p)
        if mode == "file":
            path = ctx.path("t0/m" + v.ext)
            if k == 0:
                with sut(f"write {v.id}"):
                    do_write(v, m, path)

        def job(v=v, m=m, path=path, write=mode != "file"):
            if write:
                do_write(v, m, path)
            return do_read(v, path)

        jobs.append((v, exp, job))
    il = Interleaver([j for _, _, j in jobs], case["gaps"], os.path.dirname(meshio.__file__))
    out = il.run()
    if out is None:
        raise Violation(f"{case['ids']} in threads: no result after 40 s")
    ctx.label("switches:" + ("0" if il.switches == 0 else "1-9" if il.switches < 10 else "10-99" if il.switches < 100 else "100+"))
    what = {"own": "own mesh and file", "mesh": "shared mesh", "file": "shared file"}[mode]
    for k, ((v, exp, _), (ok, g)) in enumerate(zip(jobs, out)):
        w = f"{v.id} in thread {k} of {case['ids']} ({what})"
        with sut(w):
            if not ok:
                raise g
        M.internally_consistent(g)
        M.assert_same(exp, got_plain(v, g), v.cmp, w)


def classify(case):
    return True, [case["mode"], f"threads:{len(case['ids'])}"]


def suites():
    import_all()
    # HDF5 and netCDF are not ours to schedule: h5py holds its lock while meshio iterates over a group, netCDF4 must not be used in threads at all
    vs = [v for v in VARIANTS.values() if not v.group.endswith("-out") and v.fmt not in HDF and (v.fmt != "xdmf" or v.id in ("xdmf-xml", "xdmf-bin"))]
    fmts = {}
    for v in vs:
        fmts.setdefault(v.fmt, []).append(v)
    out = [Suite(f"threads/{f}", cases(x), check, quick=80, classify=classify, hang_s=120) for f, x in fmts.items()]
    return out + [Suite("threads/any", cases(vs), check, quick=480, classify=classify, shards=4, hang_s=120)]


__all__ = ["suites", "RULE", "require"]
