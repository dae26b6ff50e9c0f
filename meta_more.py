prop("C06", "FEM deck formats: what is written is what is read, and the file says so",
     "For every mesh within the format's capabilities, writing it as Abaqus, Nastran (fixed small, fixed large or free fields), PERMAS, MDPA (Kratos) or "
     "ANSYS msh and reading it back gives the same points (to the precision of the fields), cells, connectivity (node orders converted both ways), "
     "element references, point sets and cell sets the format carries. The deck itself, decoded by an independent parser, contains exactly that mesh.",
     ["inputs", "configurations"],
     "all meshes over each format's cell types, coordinates of any magnitude, block orders, set memberships; all field formats",
     "Tests use a few fixed meshes with coordinates of order one; field widths, continuation lines, set line wrapping and mirror-image node order mistakes go unnoticed.",
     [S + "abaqus/_abaqus.py", S + "nastran/_nastran.py", S + "permas/_permas.py", S + "mdpa/_mdpa.py", S + "ansys/_ansys.py"],
     [("field formatting", S + "nastran/_nastran.py:_float_to_nastran_string"), ("sets", S + "abaqus/_abaqus.py:write"), ("sections", S + "ansys/_ansys.py:write")], RT, NOTE)
prop("C07", "Medit, Netgen, SU2, TetGen and UGRID files: what is written is what is read",
     "For every mesh within the format's capabilities, writing it as Medit (ASCII or binary), Netgen (plain or gzipped), SU2, TetGen or UGRID (any of the "
     "encodings selected by the file name) and reading it back gives the same points, cells, connectivity, and references, tags, markers, attributes and "
     "names the format carries. The file itself, decoded by an independent parser, contains exactly that mesh.",
     ["inputs", "configurations"],
     "all meshes over each format's cell types, point dimensions, dtypes, reference values and block orders; all encodings",
     "Tests use a few fixed meshes; integer widths, Fortran records, several blocks of one type, markers and reference values are sampled thinly.",
     [S + "medit/_medit.py", S + "netgen/_netgen.py", S + "su2/_su2.py", S + "tetgen/_tetgen.py", S + "ugrid/_ugrid.py"],
     [("binary keyword chain", S + "medit/_medit.py:write_binary_file"), ("markers", S + "su2/_su2.py:write"), ("records", S + "ugrid/_ugrid.py:write"),
      ("element rows", S + "netgen/_netgen.py:_write_elements")], RT, NOTE)
prop("C08", "OBJ, OFF, PLY, STL, WKT, Neuroglancer: what is written is what is read",
     "For every surface mesh within the format's capabilities, writing it as OBJ, OFF, PLY (ASCII or binary), STL (ASCII or binary), WKT or Neuroglancer "
     "and reading it back gives the same vertices and faces (for STL and WKT: the same triangles corner by corner, with equal points identified) and the point data, "
     "normals and texture coordinates the format carries. The file itself, decoded by an independent parser, contains exactly that surface.",
     ["inputs", "configurations"],
     "all surface meshes: triangles, quads, polygons in any block order, coordinates of any magnitude and dtype, data names and dtypes; all encodings",
     "Tests use a few fixed meshes with coordinates of order one and never look at the bytes.",
     [S + "obj/_obj.py", S + "off/_off.py", S + "ply/_ply.py", S + "stl/_stl.py", S + "wkt/_wkt.py", S + "neuroglancer/_neuroglancer.py"],
     [("ragged face lists", S + "ply/_ply.py:_read_binary_list"), ("point identification", S + "stl/_stl.py:data_from_facets"), ("number syntax", S + "wkt/_wkt.py:float_pattern")], RT, NOTE)
prop("C09", "Tecplot, AVS-UCD, FLAC3D and DOLFIN: what is written is what is read",
     "For every mesh within the format's capabilities, writing it as Tecplot, AVS-UCD, FLAC3D (ASCII or binary) or DOLFIN XML and reading it back gives the same "
     "points, cells (for Tecplot: as the zone's element type with repeated corners; for FLAC3D: zones made right-handed), connectivity, point and cell data, "
     "materials and groups the format carries. The file itself, decoded by an independent parser, contains exactly that mesh.",
     ["inputs", "configurations"],
     "all meshes over each format's cell types, mixed dimensions, orientations, group memberships, data shapes and names; all encodings",
     "Tests use one or two single-block meshes per format; mixtures of types, faces and zones, groups over several blocks and cell data over several blocks are not sampled.",
     [S + "tecplot/_tecplot.py", S + "avsucd/_avsucd.py", S + "flac3d/_flac3d.py", S + "dolfin/_dolfin.py"],
     [("zone type and variable location", S + "tecplot/_tecplot.py:write"), ("group indices", S + "flac3d/_flac3d.py:split_f_z"), ("data sections", S + "avsucd/_avsucd.py:_read_data")], RT, NOTE)
prop("C10", "Cells a format cannot store never damage the rest of the mesh",
     "For every mesh mixing cell types a format can store with types it cannot, the writer either refuses (raises) or produces the very file it would produce "
     "for the mesh without those cell blocks: same points, every supported cell with its connectivity, data and sets, and nothing else. Formats that announce "
     "skipping (OFF, PLY, STL, WKT, Neuroglancer, Medit, SU2, TetGen, UGRID, H5M, CGNS, Tecplot, FLAC3D, DOLFIN, SVG) do not refuse as long as one supported block "
     "is present. An SVG picture shows every line, triangle and quad of a flat mesh once, correctly placed, and non-flat meshes are refused.",
     ["inputs", "configurations"],
     "all meshes mixing supported and unsupported cell blocks in any order, with data and sets; all formats",
     "Tests give each writer only cell types it supports, one or two blocks at a time.",
     [S + "tecplot/_tecplot.py", S + "flac3d/_flac3d.py", S + "stl/_stl.py", S + "ply/_ply.py", S + "medit/_medit.py", S + "tetgen/_tetgen.py", S + "ugrid/_ugrid.py", S + "h5m/_h5m.py",
      S + "dolfin/_dolfin.py", S + "svg/_svg.py", S + "su2/_su2.py", S + "_mesh.py"],
     [("block selection", S + "_mesh.py:Mesh.get_cells_type"), ("data of selected blocks", S + "_mesh.py:Mesh.get_cell_data"), ("picture", S + "svg/_svg.py:write")],
     "property-based testing (Hypothesis), metamorphic relation: write(mesh with unsupported blocks) == write(mesh without them); for SVG an independent XML parser", NOTE)
prop("C13", "XDMF, Exodus, MED and H5M files of other programs read exactly",
     "Every well-formed XDMF (2 or 3, single grid or time series), Exodus II, MED or H5M file within the supported subset is read as exactly the mesh and data it describes, whatever choices "
     "the program that wrote it made: XDMF attribute spellings (Type/TopologyType, DataType/NumberType, alias names), omitted attributes with defaults, XML/HDF5/binary storage mixed freely, mixed topologies, "
     "references, any order of the sections; Exodus in any netCDF flavour, with coordinates in one or three variables, empty blocks and sets, variables defined on some blocks only, vector components as "
     "separate variables, several time steps (the first is taken); MED with or without mesh time steps, families and groups, fields on nodes, cells, element nodes or Gauss points, with profiles and several "
     "time steps; H5M with all its element types. Values, order, data types, block structure, times, tags and group names are those of the file.",
     ["inputs", "configurations"],
     "all meshes and data combined with all style choices the formats leave to the program writing them",
     "The tests read a handful of sample files (stubs in this sandbox); most spellings, layouts and combinations are never exercised.",
     [S + "xdmf/main.py", S + "xdmf/common.py", S + "xdmf/time_series.py", S + "exodus/_exodus.py", S + "med/_med.py", S + "h5m/_h5m.py"],
     [("XDMF data items", S + "xdmf/main.py:XdmfReader._read_data_item"), ("mixed topologies", S + "xdmf/common.py:translate_mixed_cells"), ("time series", S + "xdmf/time_series.py:TimeSeriesReader"),
      ("Exodus", S + "exodus/_exodus.py:read"), ("MED fields", S + "med/_med.py:_read_data"), ("H5M", S + "h5m/_h5m.py:read")],
     FOR, NOTE)
prop("C14", "FEM decks of other programs (Abaqus, Nastran, PERMAS, mdpa, ANSYS) read exactly",
     "Every well-formed Abaqus, Nastran, PERMAS, Kratos mdpa or ANSYS (Fluent) deck within the supported subset is read as exactly the mesh it describes, however "
     "the program that wrote it chose to lay it out: sparse or unordered node and element numbers, nodes in several sections or zones, comments, blank lines and foreign "
     "cards anywhere, letter case, line endings, small/large/free Nastran fields with tagged, plain or automatic continuations and the many spellings of a number, Abaqus "
     "elements over several lines, sets given by list, by range (GENERATE) or by naming other sets and extended later, PERMAS continuation lines, ANSYS sections in ASCII or single or "
     "double precision binary, mixed face zones, hexadecimal in either case. Points keep their value and order, cells their block order, connectivity (in meshio's node numbering) and references, sets their members.",
     ["inputs", "configurations"],
     "all meshes of the cell types of each format combined with all style choices the format leaves to the program writing it",
     "The tests read a handful of sample decks (mostly large-file stubs here), each in one style; most layouts are never exercised.",
     [S + "abaqus/_abaqus.py", S + "nastran/_nastran.py", S + "permas/_permas.py", S + "mdpa/_mdpa.py", S + "ansys/_ansys.py"],
     [("Abaqus decks", S + "abaqus/_abaqus.py:read_buffer"), ("Abaqus sets", S + "abaqus/_abaqus.py:_read_set"), ("Nastran entries", S + "nastran/_nastran.py:read_buffer"), ("Nastran numbers", S + "nastran/_nastran.py:_nastran_string_to_float"),
      ("PERMAS elements", S + "permas/_permas.py:_read_cells"), ("mdpa sections", S + "mdpa/_mdpa.py:read_buffer"), ("ANSYS sections", S + "ansys/_ansys.py:read")],
     FOR, NOTE)
prop("C15", "Other programs' Medit, Netgen, SU2, TetGen, UGRID, Tecplot, UCD, FLAC3D, DOLFIN",
     "Every well-formed Medit (.mesh, .meshb), Netgen, SU2, TetGen, UGRID, Tecplot (one finite-element zone), AVS-UCD, FLAC3D or DOLFIN-XML file within the supported subset is read as exactly the mesh it describes, however the "
     "program that wrote it chose to lay it out: comments, blank lines and white space, letter case and spelling of keywords, order of sections, sections meshio does not use, sparse or unordered identifiers, numbering from 0 or 1, "
     "spellings of numbers, format versions, precision and byte order, record marks, header entries over several lines, values over several lines, extra columns, variables in any order, quoted names. Points, cells (in meshio's "
     "node numbering), data, references and sets are those of the file.",
     ["inputs", "configurations"],
     "all meshes of the cell types of each format combined with all style choices the format leaves to the program writing it",
     "The tests read one or two sample files per format (mostly large-file stubs here), each in one style; most layouts are never exercised.",
     [S + x for x in ("medit/_medit.py", "netgen/_netgen.py", "su2/_su2.py", "tetgen/_tetgen.py", "ugrid/_ugrid.py", "tecplot/_tecplot.py", "avsucd/_avsucd.py", "flac3d/_flac3d.py", "dolfin/_dolfin.py")],
     [("Medit", S + "medit/_medit.py:read_ascii_buffer"), ("Netgen", S + "netgen/_netgen.py:read_buffer"), ("SU2", S + "su2/_su2.py:read_buffer"), ("TetGen", S + "tetgen/_tetgen.py:read"), ("UGRID", S + "ugrid/_ugrid.py:read_buffer"),
      ("Tecplot", S + "tecplot/_tecplot.py:_read_zone"), ("AVS-UCD", S + "avsucd/_avsucd.py:read_buffer"), ("FLAC3D", S + "flac3d/_flac3d.py:read"), ("DOLFIN", S + "dolfin/_dolfin.py:_read_mesh")],
     FOR, NOTE)
prop("C16", "Other programs' OBJ, OFF, PLY, STL, WKT, Neuroglancer files are read exactly",
     "Every well-formed OBJ, OFF, PLY, STL, WKT (TIN) or Neuroglancer file within the supported subset is read as exactly the surface it describes, however the program that wrote it chose to lay it out: "
     "OBJ faces with v, v/vt, v//vn or v/vt/vn references, absolute or relative, vertices among the faces, with weights or colours, groups and lines meshio does not use; OFF comments and white space; PLY ASCII and binary of "
     "either byte order, properties of any type in any order, alternating face sizes, further lists per face, comments and obj_info anywhere in the header; ASCII STL of any case and indentation with several solids, binary STL with "
     "any header and attribute bytes; WKT with or without Z/M tags, in any case and spacing. Points, cells and their order, data and group numbers are those of the file; STL and WKT identify equal points only.",
     ["inputs", "configurations"],
     "all surface meshes with data combined with all style choices the format leaves to the program writing it",
     "The tests read one or two sample files per format (mostly large-file stubs here), each in one style; most layouts are never exercised.",
     [S + x for x in ("obj/_obj.py", "off/_off.py", "ply/_ply.py", "stl/_stl.py", "wkt/_wkt.py", "neuroglancer/_neuroglancer.py")],
     [("OBJ", S + "obj/_obj.py:read_buffer"), ("OFF", S + "off/_off.py:read_buffer"), ("PLY header", S + "ply/_ply.py:read_buffer"), ("PLY data", S + "ply/_ply.py:_read_binary"), ("STL", S + "stl/_stl.py:read"),
      ("STL points", S + "stl/_stl.py:data_from_facets"), ("WKT", S + "wkt/_wkt.py:read_str"), ("Neuroglancer", S + "neuroglancer/_neuroglancer.py:read_buffer")],
     FOR, NOTE)
prop("C17", "Reads and writes in different threads do not influence each other",
     "For any reads and writes of formats that are not HDF5 or netCDF containers running in different threads of one process, each on its own file, several writing one shared mesh, or "
     "several reading one shared file, and for every interleaving of the threads: each call returns the mesh, or leaves the file, that it would have alone.",
     ["inputs", "schedules"],
     "two or three jobs over all format variants except HDF5/netCDF ones; thread switches at any source line of meshio",
     "Tests run one operation at a time; a race needs two threads and a switch at a particular line.",
     [S + "_helpers.py", S + "_files.py", S + "_common.py"] + [S + x for x in ("gmsh/main.py", "vtk/_main.py", "vtu/_vtu.py", "stl/_stl.py", "obj/_obj.py", "nastran/_nastran.py", "abaqus/_abaqus.py")],
     [("state across calls", S + "stl/_stl.py:iter_loadtxt"), ("registry", S + "_helpers.py:register_format"), ("private copy before writing", S + "_helpers.py:write")],
     "property-based testing (Hypothesis): generated jobs and generated schedules, replayed exactly by a tracing scheduler that hands over between threads at chosen source lines; "
     "oracle = the mesh each job must give on its own (round trip)", NOTE)
prop("C18", "Reading and writing have no side effects on the mesh, the files or each other",
     "For every mesh and format, meshio.write and Mesh.write leave the caller's mesh exactly as it was (points, cells, data, sets, values, dtypes, names), whether "
     "they succeed or raise; reading leaves the files as they were; neither leaves files open. Reading a file again, also after changing the mesh first read, gives the same "
     "mesh. Writing over an existing file, or writing the same mesh twice, gives the same file as writing to a fresh path. No read or write is influenced by earlier ones in the process, "
     "whether those succeeded or failed, or changes what they returned or wrote. Process-wide settings (working directory, environment, numpy's print options and error handling, random numbers, locale) are left as they were and, as far as numpy's print options go, have no influence.",
     ["inputs", "histories", "configurations"],
     "all meshes (also ones the format cannot store in full), all formats, sequences of write, read, change, read, overwrite, failing writes and reads of cut files",
     "Tests write a mesh once to a fresh file and never look at the input mesh or the file again.",
     [S + "_helpers.py", S + "_mesh.py"] + [S + x for x in ("gmsh/main.py", "vtk/_vtk_51.py", "vtu/_vtu.py", "xdmf/main.py", "abaqus/_abaqus.py", "medit/_medit.py", "flac3d/_flac3d.py", "stl/_stl.py")],
     [("private copy before writing", S + "_helpers.py:write")],
     "property-based testing (Hypothesis): generated meshes and write/read/overwrite histories; oracle = deep snapshot of mesh, directory and open files before and after, and equality of repeated reads", NOTE)
prop("C20", "Mesh objects: construction, per-type views, copies and set/data conversion agree",
     "For every mesh: Mesh() accepts lists, arrays, dicts, tuples and CellBlocks alike and rejects point or cell data whose lengths do not match; cells_dict, get_cells_type, "
     "cell_data_dict, get_cell_data and cell_sets_dict are the per-type concatenations, in block order, of the blocks, their data and (renumbered) set members; a copy and its "
     "original are independent; cell_sets_to_data, point_sets_to_data, cell_data_to_sets and point_data_to_sets convert memberships exactly (-1 where in no set), and sets that partition the cells or "
     "points survive sets -> data -> sets with their names.",
     ["inputs", "histories"],
     "all meshes with any sequence of blocks, data and sets (members as arrays, lists or None); all sequences of conversions",
     "Tests convert two or three fixed meshes once.",
     [S + "_mesh.py", S + "_common.py"],
     [("views", S + "_mesh.py:Mesh.cell_sets_dict"), ("conversion", S + "_mesh.py:Mesh.cell_data_to_sets"), ("consistency", S + "_mesh.py:Mesh.__init__"), ("copy", S + "_mesh.py:Mesh.copy")],
     "property-based testing (Hypothesis), model-based: sequences of operations replayed against a dictionary model of the mesh", NOTE)
prop("C22", "The same mesh is written and read however the file is named or handed over",
     "For every mesh and format, the contents written and the mesh read do not depend on how the file is specified: str, Path or any PathLike, relative or absolute, "
     "any directory, dots, blanks, unicode or special characters in its name, upper- or lower-case extension, format given or inferred from the extension, write(), Mesh.write(), "
     "write_points_cells() or the functions of the format's module. Exactly the expected files appear beside it; they are read the same when moved together, from any working directory. Reading from a buffer or open file with the format given returns the mesh in the file or raises; writing "
     "to one leaves in it what a file would contain or raises, and leaves no stray file; formats with buffer support do not raise; a buffer without a format is refused.",
     ["inputs", "configurations"],
     "all meshes, all formats, all combinations of directory, stem, extension case, path type, entry point and buffer kind",
     "Tests use plain lower-case names in a temporary directory and a few buffers.",
     [S + "_helpers.py", S + "_files.py", S + "_mesh.py", S + "permas/_permas.py", S + "netgen/_netgen.py", S + "ugrid/_ugrid.py", S + "medit/_medit.py", S + "tetgen/_tetgen.py",
      S + "xdmf/main.py", S + "dolfin/_dolfin.py", S + "flac3d/_flac3d.py", S + "exodus/_exodus.py"],
     [("path or buffer", S + "_files.py:open_file"), ("inference", S + "_helpers.py:_filetypes_from_path"), ("encoding from the name", S + "ugrid/_ugrid.py:determine_file_type"),
      ("companion files", S + "xdmf/main.py:XdmfWriter.__init__")],
     "property-based testing (Hypothesis), metamorphic relation: file name / buffer kind must not change the file contents or the mesh read", NOTE)
prop("C21", "The right reader or writer is chosen, and refusals touch nothing",
     "Formats are looked up in the registry: every documented extension selects its format, in any letter case; candidates are the formats registered for each trailing part of the "
     "suffixes, shortest first; reading tries them in order until one accepts and passes it the path; writing uses the first and passes on all keyword arguments; after register_format and deregister_format, in any "
     "order, lookups see exactly the formats registered at that time. Unknown extensions, unknown format names, missing files, formats without a reader, and cell blocks whose width does not fit their type raise ReadError or "
     "WriteError (a file no reader accepts may exit with an error status) and leave an existing target file, or its absence, untouched.",
     ["histories", "inputs", "configurations"],
     "all histories of registrations, reads and writes; all extensions; all formats and cell types with wrong widths",
     "Tests check two or three error paths with one format.",
     [S + "_helpers.py", S + "_exceptions.py", S + "_common.py", S + "_mesh.py"],
     [("registry", S + "_helpers.py:register_format"), ("lookup", S + "_helpers.py:_filetypes_from_path"), ("sanity check", S + "_helpers.py:write"), ("fall through", S + "_helpers.py:_read_file")],
     "property-based testing (Hypothesis), model-based: registration/read/write histories against a dictionary model of the registry; refusals checked against a directory snapshot", NOTE)
prop("C19", "The command line does what the library does, and never loses a mesh",
     "For every mesh file: `meshio convert` with any of its options produces the file the library produces for the same choices (input and output format, ASCII, float format, sets to integer data, "
     "scalar integer data to sets) and fails where the library refuses; `ascii`, `binary`, `compress` and `decompress`, in any sequence, keep the format the file is in, leave the mesh read from it "
     "unchanged (to the precision of the encoding), and put the file in the encoding asked for, or fail with a nonzero status and leave the file as it was; `info` reports the points, cells and data in the file, warns about cells that refer to "
     "missing points and about unused points, exactly when there are any, and changes nothing; bad command lines and unreadable files give a nonzero status.",
     ["inputs", "histories", "configurations"],
     "all meshes, all input formats and encodings, all option combinations, all sequences of in-place commands",
     "Tests run each command once on one VTK or STL file and do not look at the result.",
     [S + "_cli/_convert.py", S + "_cli/_ascii.py", S + "_cli/_binary.py", S + "_cli/_compress.py", S + "_cli/_decompress.py", S + "_cli/_info.py", S + "_cli/_main.py", S + "_helpers.py"],
     [("conversion", S + "_cli/_convert.py:convert"), ("in place", S + "_cli/_compress.py:compress"), ("diagnosis", S + "_cli/_info.py:info")],
     "property-based testing (Hypothesis), differential: command line against library calls; in-place histories against the mesh read before; encodings checked by looking at the bytes", NOTE)
prop("C23", "Cut-off files give an error or part of the mesh, never a hang or fabrication",
     "For every file meshio writes (all formats not based on HDF5/netCDF) and every place at which it may be cut off (crash, full disk, aborted transfer), reading the rest ends "
     "with an exception or with a mesh. In such a mesh every cell has the number of nodes of its type, data arrays are as long as points and cells, and every point and cell is one "
     "of the complete file (save one row if the cut splits a number in a text file). In formats that announce counts (VTK, VTU, Gmsh, PLY, OFF, TetGen, UGRID, AVS-UCD, Medit, Netgen, "
     "ANSYS, XDMF, Tecplot; SU2 for points) the points are all there or none, and a cell block is there completely or not at all.",
     ["inputs", "crash_points"],
     "all meshes, all formats that are not HDF5/netCDF based, every byte or line at which the file ends",
     "Tests read complete files only.",
     [S + x for x in ("_helpers.py", "ansys/_ansys.py", "ply/_ply.py", "off/_off.py", "tetgen/_tetgen.py", "mdpa/_mdpa.py", "gmsh/_gmsh22.py", "gmsh/_gmsh41.py", "vtk/_vtk_42.py", "medit/_medit.py",
                     "netgen/_netgen.py", "su2/_su2.py", "ugrid/_ugrid.py", "tecplot/_tecplot.py")],
     [("shape check after reading", S + "_helpers.py:_check_cells"), ("end of header", S + "ply/_ply.py:_next_line"), ("bracket matching", S + "ansys/_ansys.py:_skip_close")],
     "property-based testing (Hypothesis): generated meshes written and cut at generated places (fault injection); oracle = the mesh of the complete file, shape invariants, a time limit", NOTE)
prop("C24", "Any chain of conversions keeps the mesh",
     "A mesh read from any format can be passed as it is to the writer of any other format that can store its cells: along every chain of conversions, whatever labels, sets, field data, data shapes, dtypes or byte order the "
     "readers on the way have produced, each cell keeps its type, its corners with their coordinates and its place among the cells of its type (SU2: up to order), and scalar float point and cell data keep their values as long "
     "as all formats on the way can store them; data added by the user on the way is treated like data that was there. Data of any real dtype and any shape given to any writer is stored with its values, left out or refused; it never makes a file unreadable or changes the rest of the mesh (labels of a format that stores one integer array excepted).",
     ["histories", "inputs", "configurations"],
     "all walks through the formats (coordinates and values that every format can represent), all meshes of the cell types they share, with labels and sets as the readers produce them and data of unusual shape, type or name",
     "Tests write meshes built by hand, one format at a time; what a reader returns is hardly ever given to another writer.",
     [S + "_helpers.py", S + "_mesh.py", S + "_common.py"] + [S + x for x in ("vtk/_vtk_42.py", "vtk/_vtk_51.py", "vtu/_vtu.py", "gmsh/main.py", "gmsh/_gmsh41.py", "xdmf/main.py", "medit/_medit.py", "netgen/_netgen.py", "tetgen/_tetgen.py", "med/_med.py",
                     "exodus/_exodus.py", "tecplot/_tecplot.py", "dolfin/_dolfin.py", "ply/_ply.py", "abaqus/_abaqus.py", "nastran/_nastran.py", "su2/_su2.py", "ugrid/_ugrid.py", "avsucd/_avsucd.py", "h5m/_h5m.py", "hmf/_hmf.py")],
     [("native byte order", S + "_helpers.py:write"), ("labels", S + "_common.py:_pick_first_int_data"), ("entities", S + "gmsh/main.py:write"), ("field names", S + "med/_med.py:write")],
     "property-based testing (Hypothesis), stateful: random walks through the formats against a model of what each of them can store", NOTE)
