"""Format variants: what each writer is documented/observed to accept, what a faithful
write-then-read must give back, and the reference parser of the written file."""
from __future__ import annotations

from dataclasses import dataclass, field

from .mesh import Cmp, Dom

VARIANTS = {}


def ident(p):
    return p


@dataclass
class Variant:
    id: str
    group: str  # property family
    fmt: str  # format key (reader name)
    ext: str
    dom: Dom
    write_format: str = ""  # default: fmt
    kwargs: dict = field(default_factory=dict)
    expect: object = ident  # plain -> plain expected from meshio.read
    cmp: Cmp = field(default_factory=Cmp)
    parse: object = None  # path -> plain (reference parser)
    parse_expect: object = None  # plain -> plain expected from the reference parser
    parse_cmp: object = None
    explicit: bool = True  # pass file_format to write
    quick: int = 300
    buffer: str = ""  # "rb"/"r": in-memory buffers supported (binary/text)
    siblings: tuple = ()  # companion files written beside the main one
    adjust: object = None  # (plain, rng) -> plain: make the generated mesh fit the domain
    post: object = None  # plain -> plain: applied to what meshio.read returned
    writer: object = None  # (path, mesh): instead of meshio.write
    reader: object = None  # path -> mesh: instead of meshio.read
    bigquick: int = 24  # cases of the large-mesh suite
    biglimit: int = 9000
    namelen: int = 200  # longest name of a data array
    mesh_kw: object = None  # plain -> extra Mesh() arguments

    def __post_init__(self):
        if not self.write_format:
            self.write_format = self.fmt


def add(v):
    assert v.id not in VARIANTS, v.id
    VARIANTS[v.id] = v
    return v


def load_all():
    from . import fmt_fem, fmt_gmsh, fmt_hdf, fmt_misc, fmt_simple, fmt_surf, fmt_vtk, fmt_xdmf  # noqa: F401

    return VARIANTS
