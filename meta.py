#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (single source)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
S = "src/meshio/"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


RT = ("property-based testing (Hypothesis): generated meshes; oracle = write/read round trip against the input mesh, plus an "
      "independent reference parser of the written file; failures shrunk to a replay file")
FOR = ("property-based testing (Hypothesis): generated meshes written by an independent encoder in many legal spellings; oracle = "
       "meshio.read must return the mesh that was encoded; failures shrunk to a replay file")
NOTE = "generated-input search; no proof. Bounds: small meshes (a few blocks of a few cells, occasionally some hundreds), see DESIGN.md for the domain"

prop("C01", "VTK and VTU files: what is written is what is read, and the file says so",
     "For every mesh within the format's capabilities, writing it as legacy VTK (4.2 or 5.1, ASCII or binary) or VTU (ASCII, binary, any "
     "compression) and reading it back gives the same points, cell blocks, connectivity, and point and cell data (values, shapes, types, "
     "alignment with cells). The file itself, decoded by an independent parser of the published format, contains exactly that mesh.",
     ["inputs", "configurations"],
     "all meshes over the writer's cell types (incl. higher-order, Lagrange, polygon, polyhedron), point/data dtypes, data shapes, block "
     "orders and sizes; all encodings",
     "The tests round-trip a couple of dozen fixed meshes and never look at the bytes; combinations (several blocks of one type, polygons "
     "with data, odd dtypes, names needing escapes, special floats) and errors that cancel between writer and reader are out of reach.",
     [S + "vtk/_vtk_42.py", S + "vtk/_vtk_51.py", S + "vtk/_main.py", S + "vtu/_vtu.py", S + "_vtk_common.py"],
     [("cell array / offsets encoding", S + "vtk/_vtk_51.py:write"), ("legacy cell and data sections", S + "vtk/_vtk_42.py:write"),
      ("array encoding and compression", S + "vtu/_vtu.py:write")], RT, NOTE)
prop("C02", "Gmsh files: what is written is what is read, and the file says so",
     "For every mesh within the format's capabilities, writing it as Gmsh MSH 2.2, 4.0 or 4.1 (ASCII or binary) and reading it back gives the "
     "same points, cells, connectivity (Gmsh node ordering converted both ways), data, physical names, physical/geometrical tags, cell sets and "
     "periodic links the format version carries. The file itself, decoded by an independent MSH parser, contains exactly that mesh.",
     ["inputs", "configurations"],
     "all meshes over Gmsh cell types, data shapes, tag and entity assignments, periodic links; all versions and encodings",
     "The tests use a few fixed meshes and mirror-image writer/reader mistakes (node orderings, tag columns, counts) cancel in round trips.",
     [S + "gmsh/main.py", S + "gmsh/_gmsh22.py", S + "gmsh/_gmsh40.py", S + "gmsh/_gmsh41.py", S + "gmsh/common.py"],
     [("node order conversion", S + "gmsh/common.py:_gmsh_to_meshio_order"), ("entity blocks", S + "gmsh/_gmsh41.py:_write_elements"),
      ("tag columns", S + "gmsh/_gmsh22.py:_write_elements")], RT, NOTE)
prop("C03", "XDMF and HMF files: what is written is what is read, and the file says so",
     "For every mesh within the format's capabilities, writing it as XDMF (XML, Binary or HDF data items, any compression) or HMF and reading it "
     "back gives the same points, cells, connectivity and point and cell data. The XML and its heavy data, decoded by an independent parser, "
     "contain exactly that mesh.",
     ["inputs", "configurations"],
     "all meshes over XDMF cell types, uniform and mixed topologies, data dtypes and attribute shapes; all data formats",
     "Tests use a few fixed meshes; mixed topologies with vertices, lines or higher-order cells, integer widths and tensor attributes are sampled thinly.",
     [S + "xdmf/main.py", S + "xdmf/common.py", S + "hmf/_hmf.py"],
     [("mixed topology encoding", S + "xdmf/main.py:XdmfWriter.cells"), ("translate mixed cells", S + "xdmf/common.py:translate_mixed_cells")], RT, NOTE)
prop("C04", "XDMF time series: every step read back is the step written",
     "For every sequence of writing one mesh and any number of time steps with point and cell data, the time series reader returns the same mesh, "
     "the same number of steps, and for each index exactly the time and data of that step, in whatever order and however often steps are read. That holds wherever the files are moved to, for several series written or read at the same time, and for the steps written before an exception ended the writing. "
     "The file is legal XDMF in which each step shares the one mesh, and steps or grids of legally different form are read the same.",
     ["histories", "inputs", "configurations"],
     "all histories of write/read operations, step counts, times, data sets per step, data formats, working directories",
     "Tests write one or two short histories in one data format.",
     [S + "xdmf/time_series.py", S + "xdmf/common.py"],
     [("grid collection", S + "xdmf/time_series.py:TimeSeriesWriter"), ("step access", S + "xdmf/time_series.py:TimeSeriesReader.read_data")],
     "stateful property-based testing (Hypothesis): generated write/read histories against a list-of-steps model, plus an independent XDMF parser and encoder", NOTE)
prop("C05", "Exodus, MED, H5M and CGNS files: what is written is what is read",
     "For every mesh within the format's capabilities, writing it as Exodus, MED, H5M or CGNS and reading it back gives the same points, cells, "
     "connectivity, and the data, node sets, tags, families and component names that format carries. The netCDF/HDF5 container, decoded by an "
     "independent parser, contains exactly that mesh.",
     ["inputs", "configurations"],
     "all meshes over each format's cell types, dtypes, data shapes, sets and families; all compression options",
     "Tests round-trip a few fixed meshes and never check the container (block ids, component-major layout, counts), nor most combinations.",
     [S + "exodus/_exodus.py", S + "med/_med.py", S + "h5m/_h5m.py", S + "cgns/_cgns.py"],
     [("block and variable tables", S + "exodus/_exodus.py:write"), ("component-major fields", S + "med/_med.py:_write_data"),
      ("tags", S + "h5m/_h5m.py:write")], RT, NOTE)
prop("C11", "VTK/VTU files of other programs are read as what they encode",
     "Every legal legacy VTK file (unstructured grid of version 2-5.1, structured points/grid, rectilinear grid) and VTU file (any mix of inline, "
     "appended, base64/raw, compressed, multi-piece, header type and byte order), whichever program wrote it, is read as exactly the points, cells "
     "and data it encodes.",
     ["inputs", "configurations"],
     "all meshes and all legal spellings: section order, whitespace, number formats, field/scalars/vectors sections, metadata, pieces, encodings",
     "The repository's sample files are few (and Git-LFS stubs here); meshio's own writers only produce one spelling of each construct.",
     [S + "vtk/_vtk_42.py", S + "vtk/_vtk_51.py", S + "vtu/_vtu.py", S + "_vtk_common.py"],
     [("section dispatch", S + "vtk/_vtk_42.py:_read_section"), ("appended and compressed arrays", S + "vtu/_vtu.py:VtuReader")], FOR, NOTE)
prop("C12", "Gmsh files of other programs are read as what they encode",
     "Every legal MSH 2.2, 4.0 or 4.1 file, whichever program wrote it - sparse or unordered node and element tags, any order of blocks and of the sections that do not build on each other, "
     "several or no physical groups per entity, interleaved element types, partial data sections - is read as exactly the points, cells, data, tags "
     "and sets it encodes.",
     ["inputs", "configurations"],
     "all meshes and all legal spellings in ASCII and binary",
     "Tests read meshio's own output (consecutive tags) and a few sample files.",
     [S + "gmsh/main.py", S + "gmsh/_gmsh22.py", S + "gmsh/_gmsh40.py", S + "gmsh/_gmsh41.py", S + "gmsh/common.py"],
     [("tag to index mapping", S + "gmsh/_gmsh41.py:_read_nodes"), ("data sections", S + "gmsh/common.py:_read_data")], FOR, NOTE)

exec(open(os.path.join(HERE, "meta_more.py")).read() if os.path.exists(os.path.join(HERE, "meta_more.py")) else "")

NOT_APPLICABLE = []


# quick runs: 30-80 s on 8 cores
SCALE = {"C01": 2, "C17": 2, "C18": 1.5, "C19": 2, "C22": 1.5, "C23": 2, "C24": 2}


def main():
    P.sort(key=lambda p: p["id"])
    have = [p for p in P if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    doc = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import numpy, h5py, netCDF4, rich'",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python /verif/run.py {p['id']} --tier quick --scale {SCALE.get(p['id'], 3)}",
            "thorough_cmd": f"/opt/venv/bin/python /verif/run.py {p['id']} --tier thorough",
            "technique": p["technique"], "level": "exploration", "level_note": p["note"],
        } for p in have],
        "not_applicable": NOT_APPLICABLE,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
