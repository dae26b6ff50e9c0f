From 41817ee3af8d509cde5e64f3e4ea91a339c465af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:13 +0000
Subject: [PATCH 001/191] fix: allow cell blocks of type wedge15, pyramid13,
 hexahedron24, hexahedron1331

They are listed in num_nodes_per_cell and read/written by several formats, but
CellBlock() raised a KeyError because the topological dimension was missing.
---
 src/meshio/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 741831d..e05cbad 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -21,11 +21,14 @@ topological_dimension = {
     "quad9": 2,
     "tetra10": 3,
     "hexahedron27": 3,
+    "wedge15": 3,
     "wedge18": 3,
+    "pyramid13": 3,
     "pyramid14": 3,
     "vertex": 0,
     "quad8": 2,
     "hexahedron20": 3,
+    "hexahedron24": 3,
     "triangle10": 2,
     "triangle15": 2,
     "triangle21": 2,
@@ -67,6 +70,7 @@ topological_dimension = {
     "hexahedron512": 3,
     "hexahedron729": 3,
     "hexahedron1000": 3,
+    "hexahedron1331": 3,
     "wedge126": 3,
     "wedge196": 3,
     "wedge288": 3,
-- 
2.43.0


From 0ece4391d6010588a49a3cd7ad39dc61449c96ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:17 +0000
Subject: [PATCH 002/191] fix: VTK 4.2 reader drops cell data if the file
 contains polygons

---
 src/meshio/vtk/_vtk_42.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index f3cb469..cfd3b6e 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -529,7 +529,7 @@ def translate_cells(connectivity, types, cell_data_raw):
         if not np.all(numnodes == connectivity[offsets]):
             raise ReadError()
 
-        # TODO: cell_data
+        block_starts = []
         for idx, vtk_cell_type in enumerate(types):
             start = offsets[idx] + 1
 
@@ -554,6 +554,10 @@ def translate_cells(connectivity, types, cell_data_raw):
             else:
                 # open up a new cell block
                 cells.append((cell_type, [cell]))
+                block_starts.append(idx)
+
+        for name, d in cell_data_raw.items():
+            cell_data[name] = np.split(d, block_starts[1:])
     else:
         # Infer offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
-- 
2.43.0


From 55161a759b021d325026e5b7b7d15ee360a85eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:17 +0000
Subject: [PATCH 003/191] fix: file_format="vtk51" wrote a version 4.2 file

---
 src/meshio/vtk/_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_main.py b/src/meshio/vtk/_main.py
index 1e8e717..0dad2d2 100644
--- a/src/meshio/vtk/_main.py
+++ b/src/meshio/vtk/_main.py
@@ -40,7 +40,7 @@ register_format(
     read,
     {
         "vtk42": _vtk_42.write,
-        "vtk51": _vtk_42.write,
+        "vtk51": _vtk_51.write,
         "vtk": _vtk_51.write,
     },
 )
-- 
2.43.0


From 744f625a8c70b723a9f45acc501c9cc3db5c8623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:47 +0000
Subject: [PATCH 004/191] fix: VTU reader only kept the cells and cell data of
 the last Piece

---
 src/meshio/vtu/_vtu.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index be80904..fb03ddc 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -144,16 +144,18 @@ def _organize_cells(point_offsets, cells, cell_data_raw):
             out_cells.append(CellBlock(tp, c))
 
     else:
+        cell_data = {}
         for offset, cls, cdr in zip(point_offsets, cells, cell_data_raw):
-            cls, cell_data = vtk_cells_from_data(
+            cls, piece_cell_data = vtk_cells_from_data(
                 cls["connectivity"].ravel(),
                 cls["offsets"].ravel(),
                 cls["types"].ravel(),
                 cdr,
             )
-
-        for c in cls:
-            out_cells.append(CellBlock(c.type, c.data + offset))
+            for c in cls:
+                out_cells.append(CellBlock(c.type, c.data + offset))
+            for name, d in piece_cell_data.items():
+                cell_data.setdefault(name, []).extend(d)
 
     return out_cells, cell_data
 
-- 
2.43.0


From 126cd329433fc1f25c0f40c8e10b672c79e086d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:47 +0000
Subject: [PATCH 005/191] fix: VTU reader attached cell data to the wrong
 polyhedron block

---
 src/meshio/vtu/_vtu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index fb03ddc..049f44d 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -89,8 +89,8 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
     size = np.diff(start_cn)
 
     # Loop over all cell sizes, find all cells with this size, and store
-    # cell data.
-    for sz in np.unique(size):
+    # cell data. The sizes appear in the same order as in `cells`.
+    for sz in dict.fromkeys(size.tolist()):
         # Cells with this number of nodes.
         items = np.where(size == sz)[0]
 
-- 
2.43.0


From e7b6158ef87d0f489d81ac7378e9b101d9496f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:47 +0000
Subject: [PATCH 006/191] fix: VTU writer cell offsets overflowed for small
 integer cell dtypes

---
 src/meshio/vtu/_vtu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 049f44d..543f2d3 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -853,8 +853,7 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
 
             # offset (points to the first element of the next cell)
             offsets = [
-                v.data.shape[1]
-                * np.arange(1, v.data.shape[0] + 1, dtype=connectivity.dtype)
+                v.data.shape[1] * np.arange(1, v.data.shape[0] + 1, dtype=np.int64)
                 for v in mesh.cells
             ]
             for k in range(1, len(offsets)):
-- 
2.43.0


From 4a0ff79356784e0fdde0b8d584842077d54faef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:47 +0000
Subject: [PATCH 007/191] fix: escape XML attribute values, e.g. data names
 containing & or <

---
 src/meshio/_cxml/etree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_cxml/etree.py b/src/meshio/_cxml/etree.py
index f06c999..caf00e3 100644
--- a/src/meshio/_cxml/etree.py
+++ b/src/meshio/_cxml/etree.py
@@ -6,6 +6,8 @@
 # This etree here allows the writing method to write to the file directly, without
 # having to create a string representation first.
 
+from xml.sax.saxutils import quoteattr
+
 
 class Element:
     def __init__(self, name, **kwargs):
@@ -22,7 +24,7 @@ class Element:
         self.attrib[key] = value
 
     def write(self, f):
-        kw_list = [f'{key}="{value}"' for key, value in self.attrib.items()]
+        kw_list = [f"{key}={quoteattr(str(value))}" for key, value in self.attrib.items()]
         f.write("<{}>\n".format(" ".join([self.name] + kw_list)))
         if self.text:
             f.write(self.text)
-- 
2.43.0


From a4e80f9702b3502a9d7054e862bef5613a45cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:47 +0000
Subject: [PATCH 008/191] fix: VTK/VTU writers garbled the data name when
 writing several point sets

---
 src/meshio/_mesh.py       | 7 +++++--
 src/meshio/vtk/_vtk_51.py | 2 +-
 src/meshio/vtu/_vtu.py    | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index e05cbad..0e1c83b 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -346,7 +346,9 @@ class Mesh:
             self.cell_data[data_name] = intfun
             self.cell_sets = {}
 
-    def point_sets_to_data(self, join_char: str = "-") -> None:
+    def point_sets_to_data(
+        self, join_char: str = "-", data_name: str | None = None
+    ) -> None:
         # now for the point sets
         # Go for -1 as the default value. (NaN is not int.)
         default_value = -1
@@ -361,7 +363,8 @@ class Mesh:
                     f"Using default value {default_value}."
                 )
 
-            data_name = join_char.join(self.point_sets.keys())
+            if data_name is None:
+                data_name = join_char.join(self.point_sets.keys())
             self.point_data[data_name] = intfun
             self.point_sets = {}
 
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2eb1db6..aae4d95 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -518,7 +518,7 @@ def write(filename, mesh, binary=True):
         )
         key, _ = join_strings(list(mesh.point_sets.keys()))
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_sets_to_data(data_name=key)
 
     if mesh.cell_sets:
         info(
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 543f2d3..5c9cf57 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -635,7 +635,7 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
         )
         key, _ = join_strings(list(mesh.point_sets.keys()))
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_sets_to_data(data_name=key)
 
     if mesh.cell_sets:
         info(
-- 
2.43.0


From c3f3f2e0e60f8400261866f1d8ed19d6ddc3ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:47 +0000
Subject: [PATCH 009/191] fix: write() must not change the caller's mesh

---
 src/meshio/_helpers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 6cc7dac..0e6449c 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import sys
 from pathlib import Path
 
@@ -184,5 +185,16 @@ def write(filename, mesh: Mesh, file_format: str | None = None, **kwargs):
             # cannot check those
             pass
 
+    # Some writers normalize the data, e.g., append a third component to 2D vectors or
+    # convert sets to data. Hand them a shallow copy such that the caller's mesh isn't
+    # changed.
+    mesh = copy.copy(mesh)
+    mesh.cells = list(mesh.cells)
+    mesh.point_data = dict(mesh.point_data)
+    mesh.cell_data = {key: list(value) for key, value in mesh.cell_data.items()}
+    mesh.field_data = dict(mesh.field_data)
+    mesh.point_sets = dict(mesh.point_sets)
+    mesh.cell_sets = {key: list(value) for key, value in mesh.cell_sets.items()}
+
     # Write
     return writer(filename, mesh, **kwargs)
-- 
2.43.0


From 4d77d252dcfc0db009bc8ecdaf59e810aea5efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:43 +0000
Subject: [PATCH 010/191] fix: VTK 5.1 reader took the 32-bit type int for
 64-bit integers

---
 src/meshio/vtk/_vtk_51.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index aae4d95..2ee0d2e 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -18,7 +18,7 @@ from .._vtk_common import (
 vtk_to_numpy_dtype_name = {
     "float": "float32",
     "double": "float64",
-    "int": "int",
+    "int": "int32",
     "vtktypeint8": "int8",
     "vtktypeint16": "int16",
     "vtktypeint32": "int32",
-- 
2.43.0


From 314ed08e68767df2d80691be519d6ff2a80325f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:43 +0000
Subject: [PATCH 011/191] fix: VTK 5.1 reader failed on structured datasets

---
 src/meshio/vtk/_vtk_51.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2ee0d2e..ecef2c1 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -249,7 +249,9 @@ def _check_mesh(info):
             for i in range(3)
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "RECTILINEAR_GRID":
         axis = [
             info.dataset["X_COORDINATES"],
@@ -257,9 +259,13 @@ def _check_mesh(info):
             info.dataset["Z_COORDINATES"],
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "STRUCTURED_GRID":
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
 
 
 def _generate_cells(dim):
@@ -304,7 +310,10 @@ def _generate_cells(dim):
         cells[:, 8] = cells[:, 7] - 1
         cell_types = np.full(ele_no, 12, dtype=int)
 
-    return cells.reshape(-1), cell_types
+    # the first column holds the number of nodes; VTK 5.1 uses offsets instead
+    connectivity = cells[:, 1:]
+    offsets = connectivity.shape[1] * np.arange(1, ele_no + 1)
+    return connectivity.reshape(-1), offsets, cell_types
 
 
 def _generate_points(axis):
-- 
2.43.0


From f0f300b7c3f830815579344fc05b38b56ef6a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:12 +0000
Subject: [PATCH 012/191] fix: VTU reader mixed up data arrays in raw appended
 files

The offsets were rewritten in place while tags were still being looked up by
their old offset.
---
 src/meshio/vtu/_vtu.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 5c9cf57..c58fd27 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -216,16 +216,20 @@ def _parse_raw_binary(filename):
     assert appended_data_tag is not None
     appended_data_tag.set("encoding", "base64")
 
+    # Collect the tags up front: the offsets are replaced below, and the new ones may
+    # coincide with old ones of other tags.
+    da_tags = {
+        int(tag.attrib["offset"]): tag
+        for tag in root.iter("DataArray")
+        if "offset" in tag.attrib
+    }
+
     compressor = root.get("compressor")
     if compressor is None:
         arrays = ""
         i = 0
         while i < len(data):
-            # The following find() runs into issues if offset is padded with spaces, see
-            # <https://github.com/nschloe/meshio/issues/1135>. It works in ParaView.
-            # Unfortunately, Python's built-in XML tree can't handle regexes, see
-            # <https://stackoverflow.com/a/38810731/353337>.
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
+            da_tag = da_tags.get(i)
             if da_tag is None:
                 raise RuntimeError(f"Could not find .//DataArray[@offset='{i}']")
             da_tag.set("offset", str(len(arrays)))
@@ -244,7 +248,7 @@ def _parse_raw_binary(filename):
         arrays = ""
         i = 0
         while i < len(data):
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
+            da_tag = da_tags.get(i)
             assert da_tag is not None
             da_tag.set("offset", str(len(arrays)))
 
-- 
2.43.0


From 25bd0d906e2b3b41717038e4713a43c37badb2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:08 +0000
Subject: [PATCH 013/191] fix: Gmsh 4 reader failed if only some of the
 entities have physical tags

---
 src/meshio/gmsh/_gmsh40.py | 6 ++++--
 src/meshio/gmsh/_gmsh41.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3d4270e..95e2e06 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -191,13 +191,15 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
 
     cells = []
     cell_data = {}
+    has_physical_tags = any(item[0] for item in data)
     for physical_tag, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical_tags:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
+            # a zero tag is equivalent to no tag
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 3e305a1..ba571e4 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -249,13 +249,15 @@ def _read_elements(
     ]
 
     cells = []
+    has_physical_tags = any(item[0] for item in data)
     for physical_tag, bound_entity, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical_tags:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
+            # a zero tag is equivalent to no tag
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
-- 
2.43.0


From c629e3381dda5fe92ce62ae9da06272b049afef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:08 +0000
Subject: [PATCH 014/191] fix: Gmsh 4.1 writer failed on entities without
 physical tags

---
 src/meshio/gmsh/_gmsh41.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index ba571e4..5a5adc4 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -469,10 +469,13 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
         # If there is a corresponding cell block, write physical tags (if any)
         # and bounding entities (if any)
-        if matching_cell_block.size > 0:
-            # entity has a physical tag, write this
+        physical_tag = 0
+        if matching_cell_block.size > 0 and "gmsh:physical" in tag_data:
             # ASSUMPTION: There is a single physical tag for this
             physical_tag = tag_data["gmsh:physical"][matching_cell_block[0]][0]
+
+        if physical_tag != 0:
+            # entity has a physical tag, write this
             if binary:
                 np.array([1], dtype=c_size_t).tofile(fh)
                 np.array([physical_tag], dtype=c_int).tofile(fh)
-- 
2.43.0


From 397bccbff52358e4c6f0175ea3ab56cc43e37687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 015/191] fix: Gmsh readers ignored the tags of node and
 element data

NodeData and ElementData entries name the node/element they belong to.
The readers attached them in file order, such that data ended up on other
points if the nodes aren't stored in tag order (e.g., grouped by entity).
---
 src/meshio/gmsh/_gmsh22.py | 25 ++++++++++++++++++-------
 src/meshio/gmsh/_gmsh40.py | 19 ++++++++++++++-----
 src/meshio/gmsh/_gmsh41.py | 22 +++++++++++++++++-----
 src/meshio/gmsh/common.py  | 36 ++++++++++++++++++++++++++++++++++--
 4 files changed, 83 insertions(+), 19 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 56fbdb6..e74c0fd 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -40,6 +40,7 @@ def read_buffer(f, is_ascii, data_size):
     point_data = {}
     periodic = None
     point_tags = None
+    cell_item_tags = None
     has_additional_tag_data = False
     while True:
         # fast-forward over blank lines
@@ -57,15 +58,19 @@ def read_buffer(f, is_ascii, data_size):
         elif environ == "Nodes":
             points, point_tags = _read_nodes(f, is_ascii)
         elif environ == "Elements":
-            has_additional_tag_data, cell_tags = _read_cells(
+            has_additional_tag_data, cell_tags, cell_item_tags = _read_cells(
                 f, cells, point_tags, is_ascii
             )
         elif environ == "Periodic":
             periodic = _read_periodic(f)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            _read_data(
+                f, "NodeData", point_data, data_size, is_ascii, point_tags
+            )
         elif environ == "ElementData":
-            _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
+            _read_data(
+                f, "ElementData", cell_data_raw, data_size, is_ascii, cell_item_tags
+            )
         else:
             _fast_forward_to_end_block(f, environ)
 
@@ -126,9 +131,9 @@ def _read_cells(f, cells, point_tags, is_ascii):
     has_additional_tag_data = False
     cell_tags = {}
     if is_ascii:
-        _read_cells_ascii(f, cells, cell_tags, total_num_cells)
+        item_tags = _read_cells_ascii(f, cells, cell_tags, total_num_cells)
     else:
-        _read_cells_binary(f, cells, cell_tags, total_num_cells)
+        item_tags = _read_cells_binary(f, cells, cell_tags, total_num_cells)
 
     # override cells in-place
     cells[:] = [(key, _gmsh_to_meshio_order(key, values)) for key, values in cells]
@@ -165,13 +170,15 @@ def _read_cells(f, cells, point_tags, is_ascii):
                 output_cell_tags["gmsh:geometrical"] = {}
             output_cell_tags["gmsh:geometrical"][cell_type] = geometrical
 
-    return has_additional_tag_data, output_cell_tags
+    return has_additional_tag_data, output_cell_tags, item_tags
 
 
-def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
+def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> list[int]:
+    item_tags = []
     for _ in range(total_num_cells):
         line = f.readline().decode()
         data = [int(k) for k in filter(None, line.split())]
+        item_tags.append(data[0])
         t = _gmsh_to_meshio_type[data[1]]
         num_nodes_per_elem = num_nodes_per_cell[t]
 
@@ -202,10 +209,12 @@ def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
         cells[k] = (c[0], np.array(c[1], dtype=c_int) - 1)
     # Cannot convert cell_tags[key] to numpy array: There may be a different number of
     # tags for each cell.
+    return item_tags
 
 
 def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     num_elems = 0
+    item_tags = []
     while num_elems < total_num_cells:
         # read element header
         elem_type, num_elems0, num_tags = np.fromfile(f, count=3, dtype=c_int)
@@ -224,6 +233,7 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
         if t not in cell_tags:
             cell_tags[t] = []
         cell_tags[t].append(data[:, 1 : num_tags + 1])
+        item_tags.append(data[:, 0])
 
         num_elems += num_elems0
 
@@ -234,6 +244,7 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     # collect cell tags
     for key in cell_tags:
         cell_tags[key] = np.vstack(cell_tags[key])
+    return np.concatenate(item_tags) if item_tags else None
 
 
 def _read_periodic(f):
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 95e2e06..19e77b6 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -39,6 +39,8 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
     point_data = {}
     physical_tags = None
     periodic = None
+    point_tags = None
+    cell_item_tags = None
     while True:
         line = f.readline().decode()
         if not line:
@@ -55,13 +57,19 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
         elif environ == "Nodes":
             points, point_tags = _read_nodes(f, is_ascii)
         elif environ == "Elements":
-            cells, cell_tags = _read_elements(f, point_tags, physical_tags, is_ascii)
+            cells, cell_tags, cell_item_tags = _read_elements(
+                f, point_tags, physical_tags, is_ascii
+            )
         elif environ == "Periodic":
             periodic = _read_periodic(f, is_ascii)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            _read_data(
+                f, "NodeData", point_data, data_size, is_ascii, point_tags
+            )
         elif environ == "ElementData":
-            _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
+            _read_data(
+                f, "ElementData", cell_data_raw, data_size, is_ascii, cell_item_tags
+            )
         else:
             # From
             # <http://gmsh.info//doc/texinfo/gmsh.html#MSH-file-format-_0028version-4_0029>:
@@ -183,7 +191,8 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
     itags = -np.ones(m, dtype=int)
     itags[point_tags] = np.arange(len(point_tags))
 
-    # Note that the first column in the data array is the element tag; discard it.
+    # Note that the first column in the data array is the element tag.
+    item_tags = np.concatenate([d[:, 0] for *_, d in data]) if data else None
     data = [
         (physical_tag, geom_tag, tpe, itags[d[:, 1:]])
         for physical_tag, geom_tag, tpe, d in data
@@ -205,7 +214,7 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
             cell_data["gmsh:geometrical"] = []
         cell_data["gmsh:geometrical"].append(np.full(len(values), geom_tag, int))
 
-    return cells, cell_data
+    return cells, cell_data, item_tags
 
 
 def _read_periodic(f, is_ascii):
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 5a5adc4..2d5dcb8 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -47,6 +47,8 @@ def read_buffer(f, is_ascii: bool, data_size):
     bounding_entities = None
     cell_sets = {}
     periodic = None
+    point_tags = None
+    cell_item_tags = None
     while True:
         # fast-forward over blank lines
         line, is_eof = _fast_forward_over_blank_lines(f)
@@ -67,7 +69,7 @@ def read_buffer(f, is_ascii: bool, data_size):
         elif environ == "Nodes":
             points, point_tags, point_entities = _read_nodes(f, is_ascii, data_size)
         elif environ == "Elements":
-            cells, cell_tags, cell_sets = _read_elements(
+            cells, cell_tags, cell_sets, cell_item_tags = _read_elements(
                 f,
                 point_tags,
                 physical_tags,
@@ -79,9 +81,18 @@ def read_buffer(f, is_ascii: bool, data_size):
         elif environ == "Periodic":
             periodic = _read_periodic(f, is_ascii, data_size)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            _read_data(
+                f,
+                "NodeData",
+                point_data,
+                data_size,
+                is_ascii,
+                None if point_tags is None else point_tags + 1,
+            )
         elif environ == "ElementData":
-            _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
+            _read_data(
+                f, "ElementData", cell_data_raw, data_size, is_ascii, cell_item_tags
+            )
         else:
             # From
             # <http://gmsh.info/doc/texinfo/gmsh.html#MSH-file-format>:
@@ -242,7 +253,8 @@ def _read_elements(
     inv_tags = np.full(np.max(point_tags) + 1, -1, dtype=int)
     inv_tags[point_tags] = np.arange(len(point_tags))
 
-    # Note that the first column in the data array is the element tag; discard it.
+    # Note that the first column in the data array is the element tag.
+    item_tags = np.concatenate([d[:, 0] for *_, d in data]) if data else None
     data = [
         (physical_tag, bound_entity, geom_tag, tpe, inv_tags[d[:, 1:] - 1])
         for physical_tag, bound_entity, geom_tag, tpe, d in data
@@ -269,7 +281,7 @@ def _read_elements(
                 cell_sets["gmsh:bounding_entities"] = []
             cell_sets["gmsh:bounding_entities"].append(bound_entity)
 
-    return cells, cell_data, cell_sets
+    return cells, cell_data, cell_sets, item_tags
 
 
 def _read_periodic(f, is_ascii, data_size):
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 717e82e..9c6f69f 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -50,7 +50,34 @@ def _read_physical_names(f, field_data):
     _fast_forward_to_end_block(f, "PhysicalNames")
 
 
-def _read_data(f, tag, data_dict, data_size, is_ascii):
+def _sort_by_tags(data, index, tags):
+    """Data entries are identified by node/element tags and can come in any order. Sort
+    them such that they match the order of the nodes/elements in the mesh.
+    """
+    index = np.asarray(index, dtype=int)
+    tags = np.asarray(tags, dtype=int)
+    i = np.argsort(tags, kind="stable")
+    j = np.argsort(index, kind="stable")
+    if not np.array_equal(tags[i], index[j]):
+        # cannot be matched
+        return data
+    out = np.empty_like(data)
+    out[i] = data[j]
+    return out
+
+
+def _tags_to_index(periodic, point_tags):
+    """Replace the node tags (minus one) in periodic by the respective point indices."""
+    if periodic is None or len(point_tags) == 0:
+        return
+    point_tags = np.asarray(point_tags, dtype=int) - 1
+    inv_tags = np.full(np.max(point_tags) + 1, -1, dtype=int)
+    inv_tags[point_tags] = np.arange(len(point_tags))
+    for p in periodic:
+        p[3] = inv_tags[p[3]]
+
+
+def _read_data(f, tag, data_dict, data_size, is_ascii, item_tags=None):
     # Read string tags
     num_string_tags = int(f.readline().decode())
     string_tags = [
@@ -70,15 +97,20 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
             (num_items, 1 + num_components)
         )
         # The first entry is the node number
+        index = data[:, 0]
         data = data[:, 1:]
     else:
         # binary
         dtype = [("index", c_int), ("values", c_double, (num_components,))]
         data = np.fromfile(f, count=num_items, dtype=dtype)
-        if not (data["index"] == range(1, num_items + 1)).all():
+        index = data["index"]
+        if item_tags is None and not (index == range(1, num_items + 1)).all():
             raise ReadError()
         data = np.ascontiguousarray(data["values"])
 
+    if item_tags is not None:
+        data = _sort_by_tags(data, index, item_tags)
+
     _fast_forward_to_end_block(f, tag)
 
     # The gmsh format cannot distinguish between data of shape (n,) and (n, 1).
-- 
2.43.0


From 24fa927284039fbfbf28bc8d689849d1be7e91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 016/191] fix: Gmsh readers gave node tags instead of point
 indices in gmsh_periodic

---
 src/meshio/gmsh/_gmsh22.py | 4 ++++
 src/meshio/gmsh/_gmsh40.py | 4 ++++
 src/meshio/gmsh/_gmsh41.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index e74c0fd..4b1ce0f 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -19,6 +19,7 @@ from .common import (
     _meshio_to_gmsh_type,
     _read_data,
     _read_physical_names,
+    _tags_to_index,
     _write_data,
     _write_physical_names,
 )
@@ -77,6 +78,9 @@ def read_buffer(f, is_ascii, data_size):
     if has_additional_tag_data:
         warn("The file contains tag data that couldn't be processed.")
 
+    if point_tags is not None:
+        _tags_to_index(periodic, point_tags)
+
     cell_data = cell_data_from_raw(cells, cell_data_raw)
 
     # merge cell_tags into cell_data
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 19e77b6..913a9e2 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -20,6 +20,7 @@ from .common import (
     _meshio_to_gmsh_type,
     _read_data,
     _read_physical_names,
+    _tags_to_index,
     _write_data,
     _write_physical_names,
 )
@@ -81,6 +82,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
             # skip environment
             _fast_forward_to_end_block(f, environ)
 
+    if point_tags is not None:
+        _tags_to_index(periodic, point_tags)
+
     cell_data = cell_data_from_raw(cells, cell_data_raw)
     cell_data.update(cell_tags)
 
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 2d5dcb8..671b9a4 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -19,6 +19,7 @@ from .common import (
     _meshio_to_gmsh_type,
     _read_data,
     _read_physical_names,
+    _tags_to_index,
     _write_data,
     _write_physical_names,
 )
@@ -106,6 +107,9 @@ def read_buffer(f, is_ascii: bool, data_size):
 
     if cells is None:
         raise ReadError("$Element section not found.")
+    if point_tags is not None:
+        _tags_to_index(periodic, point_tags + 1)
+
     cell_data = cell_data_from_raw(cells, cell_data_raw)
     cell_data.update(cell_tags)
 
-- 
2.43.0


From 3dec82b50cf06ba12fa6428e775674d1dbe6b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 017/191] fix: Gmsh 4.0 writer numbered the elements from 0

Element tags must be positive, and ElementData refers to elements 1..n.
---
 src/meshio/gmsh/_gmsh40.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 913a9e2..2717b81 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -327,7 +327,8 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         np.array([len(cell_blocks), total_num_cells], dtype=c_ulong).tofile(fh)
 
-        consecutive_index = 0
+        # tags start at 1
+        consecutive_index = 1
         for cell_block in cell_blocks:
             node_idcs = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
 
@@ -362,7 +363,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         fh.write(f"{len(cell_blocks)} {total_num_cells}\n".encode())
 
-        consecutive_index = 0
+        consecutive_index = 1
         for cell_block in cell_blocks:
             cell_type = cell_block.type
             cell_data = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
-- 
2.43.0


From eb8f11c5db8a577a8d1b629d6def9168ea26e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 018/191] fix: Gmsh 4.0 writer wrote $Periodic sections that
 could not be read back

---
 src/meshio/gmsh/_gmsh40.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 2717b81..d0d05ba 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -404,12 +404,15 @@ def _write_periodic(fh, periodic, float_fmt, binary):
     for dim, (stag, mtag), affine, slave_master in periodic:
         tofile(fh, [dim, stag, mtag], c_int)
         if affine is not None and len(affine) > 0:
-            tofile(fh, -1, c_long)
+            if binary:
+                tofile(fh, -1, c_long)
+            else:
+                fh.write(b"Affine ")
             tofile(fh, affine, c_double, fmt=float_fmt)
         slave_master = np.array(slave_master, dtype=c_int)
         slave_master = slave_master.reshape(-1, 2)
         slave_master = slave_master + 1  # Add one, Gmsh is 1-based
-        tofile(fh, len(slave_master), c_int)
+        tofile(fh, len(slave_master), c_ulong)
         tofile(fh, slave_master, c_int)
     if binary:
         fh.write(b"\n")
-- 
2.43.0


From 1f7da710439ec07a7e8f0ba2af2cd37983c21f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:49 +0000
Subject: [PATCH 019/191] fix: Gmsh 4.1 writer left out entities that have
 cells, but no nodes of their own

Such files could not be read back (KeyError).
---
 src/meshio/gmsh/_gmsh41.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 671b9a4..ee57540 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -414,10 +414,23 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
     fh.write(b"$Entities\n")
 
+    # Array of dimension and entity tag per cell. Will be compared with the
+    # similar not array.
+    cell_dim_tags = np.empty((len(cells), 2), dtype=int)
+    for ci, cell_block in enumerate(cells):
+        cell_dim_tags[ci] = [
+            cell_block.dim,
+            tag_data["gmsh:geometrical"][ci][0],
+        ]
+
     # Array of entity tag (first row) and dimension (second row) per node.
     # We need to combine the two, since entity tags are reset for each dimension.
-    # Uniquify, so that each row in node_dim_tags represent a unique entity
-    node_dim_tags = np.unique(point_data["gmsh:dim_tags"], axis=0)
+    # Uniquify, so that each row in node_dim_tags represent a unique entity. Add the
+    # entities of the cells; there can be cells on entities without nodes of their own,
+    # e.g., if all nodes are on the boundary.
+    node_dim_tags = np.unique(
+        np.concatenate([point_data["gmsh:dim_tags"], cell_dim_tags]), axis=0
+    )
 
     # Write number of entities per dimension
     num_occ = np.bincount(node_dim_tags[:, 0], minlength=4)
@@ -429,15 +442,6 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     else:
         fh.write(f"{num_occ[0]} {num_occ[1]} {num_occ[2]} {num_occ[3]}\n".encode())
 
-    # Array of dimension and entity tag per cell. Will be compared with the
-    # similar not array.
-    cell_dim_tags = np.empty((len(cells), 2), dtype=int)
-    for ci, cell_block in enumerate(cells):
-        cell_dim_tags[ci] = [
-            cell_block.dim,
-            tag_data["gmsh:geometrical"][ci][0],
-        ]
-
     # We will only deal with bounding entities if this information is available
     has_bounding_elements = "gmsh:bounding_entities" in cell_sets
 
-- 
2.43.0


From 226a5b7cfd7a78fc417e26144e070c6fc821cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:02 +0000
Subject: [PATCH 020/191] fix: Gmsh 2.2 reader split the element data at the
 wrong places

The length of the (type, data) tuple was used instead of the number of cells.
---
 src/meshio/gmsh/_gmsh22.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 4b1ce0f..20f7928 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -81,7 +81,7 @@ def read_buffer(f, is_ascii, data_size):
     if point_tags is not None:
         _tags_to_index(periodic, point_tags)
 
-    cell_data = cell_data_from_raw(cells, cell_data_raw)
+    cell_data = cell_data_from_raw([c[1] for c in cells], cell_data_raw)
 
     # merge cell_tags into cell_data
     for tag_name, tag_dict in cell_tags.items():
-- 
2.43.0


From c731bf8e85ac1998485327d02388f7f59c939da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 021/191] fix: XDMF writers failed on 8- and 16-bit integer
 data in XML format

---
 src/meshio/xdmf/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index fb7fcf3..506d1a6 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -18,8 +18,12 @@ numpy_to_xdmf_dtype = {
 xdmf_to_numpy_type = {v: k for k, v in numpy_to_xdmf_dtype.items()}
 
 dtype_to_format_string = {
+    "int8": "%d",
+    "int16": "%d",
     "int32": "%d",
     "int64": "%d",
+    "uint8": "%d",
+    "uint16": "%d",
     "uint32": "%d",
     "uint64": "%d",
     "float32": "%.7e",
-- 
2.43.0


From 3c39795f2407a1b7475a8cf793dcea735e5d8fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 022/191] fix: XDMF writers lost precision of float32 data in
 XML format

9 significant digits are necessary to represent all float32 values.
---
 src/meshio/xdmf/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index 506d1a6..d8ffad0 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -26,7 +26,7 @@ dtype_to_format_string = {
     "uint16": "%d",
     "uint32": "%d",
     "uint64": "%d",
-    "float32": "%.7e",
+    "float32": "%.8e",
     "float64": "%.16e",
 }
 
-- 
2.43.0


From ca2c8137dedfd0bb290007db5d852cef62bde7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 023/191] fix: XDMF writer failed on tensor data in XML format

---
 src/meshio/xdmf/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 4d8c39d..750e429 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -376,7 +376,8 @@ class XdmfWriter:
         if self.data_format == "XML":
             s = BytesIO()
             fmt = dtype_to_format_string[data.dtype.name]
-            np.savetxt(s, data, fmt)
+            # savetxt only takes 1D and 2D data
+            np.savetxt(s, data if data.ndim < 3 else data.reshape(len(data), -1), fmt)
             return "\n" + s.getvalue().decode()
         elif self.data_format == "Binary":
             base = os.path.splitext(self.filename)[0]
-- 
2.43.0


From 2e7df760ebc389efbde12b6d097c8659605b84e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 024/191] fix: XDMF reader failed on mixed topologies with
 higher-order cells

---
 src/meshio/xdmf/common.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index d8ffad0..082e07d 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from .._common import num_nodes_per_cell
 from .._exceptions import ReadError
 from .._mesh import CellBlock
 
@@ -120,15 +121,7 @@ def translate_mixed_cells(data):
     # https://xdmf.org/index.php/XDMF_Model_and_Format#Arbitrary
     # https://gitlab.kitware.com/xdmf/xdmf/blob/master/XdmfTopologyType.hpp#L394
     xdmf_idx_to_num_nodes = {
-        1: 1,  # vertex
-        2: 2,  # line
-        4: 3,  # triangle
-        5: 4,  # quad
-        6: 4,  # tet
-        7: 5,  # pyramid
-        8: 6,  # wedge
-        9: 8,  # hex
-        11: 6,  # triangle6
+        idx: num_nodes_per_cell[t] for idx, t in xdmf_idx_to_meshio_type.items()
     }
 
     # collect types and offsets
-- 
2.43.0


From 38caa3ef8daad78c834367a97c21e329adee6ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 025/191] fix: XDMF mixed topologies with vertices or lines

The reader ignored the number of nodes which is specified with vertices, and
the time series writer failed on lines.
---
 src/meshio/xdmf/common.py      |  6 +++++-
 src/meshio/xdmf/time_series.py | 25 +++++++++++--------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index 082e07d..216f0cb 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -136,6 +136,10 @@ def translate_mixed_cells(data):
             if data[r + 1] != 2:  # polyline
                 raise ReadError("XDMF reader: Only supports 2-point lines for now")
             r += 1
+        elif xdmf_type == 1:  # vertex
+            if data[r + 1] != 1:  # polyvertex
+                raise ReadError("XDMF reader: Only supports 1-point vertices for now")
+            r += 1
         r += 1
         r += xdmf_idx_to_num_nodes[xdmf_type]
 
@@ -147,7 +151,7 @@ def translate_mixed_cells(data):
     for start, end in zip(b[:-1], b[1:]):
         meshio_type = xdmf_idx_to_meshio_type[types[start]]
         n = xdmf_idx_to_num_nodes[types[start]]
-        point_offsets = offsets[start:end] + (2 if types[start] == 2 else 1)
+        point_offsets = offsets[start:end] + (2 if types[start] in [1, 2] else 1)
         indices = np.array([np.arange(n) + o for o in point_offsets])
         cells.append(CellBlock(meshio_type, data[indices]))
 
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a3f8503..9fccb09 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -406,22 +406,19 @@ class TimeSeriesWriter:
             )
             total_num_cell_items = sum(np.prod(c.data.shape) for c in cell_blocks)
             dim = total_num_cell_items + total_num_cells
-            # Lines translate to Polylines, and one needs to specify the exact
-            # number of nodes. Hence, prepend 2.
+            # Vertices and lines translate to Polyvertices and Polylines, and one needs to
+            # specify the exact number of nodes. Hence, prepend 1 or 2, respectively.
+            blocks = []
             for c in cell_blocks:
-                if c.type == "line":
-                    c.data[:] = np.insert(c.data, 0, 2, axis=1)
-                    dim += len(c.data)
+                data = c.data
+                if c.type in {"vertex", "line"}:
+                    data = np.insert(data, 0, data.shape[1], axis=1)
+                    dim += len(data)
+                # prepend column with xdmf type index
+                data = np.insert(data, 0, meshio_type_to_xdmf_index[c.type], axis=1)
+                blocks.append(data.flatten())
             dim = str(dim)
-            cd = np.concatenate(
-                [
-                    # prepend column with xdmf type index
-                    np.insert(
-                        c.data, 0, meshio_type_to_xdmf_index[c.type], axis=1
-                    ).flatten()
-                    for c in cell_blocks
-                ]
-            )
+            cd = np.concatenate(blocks)
             dt, prec = numpy_to_xdmf_dtype[cd.dtype.name]
             data_item = ET.SubElement(
                 topo,
-- 
2.43.0


From 6a63f614c1473e7a319386d5a596f7cdff956f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 026/191] fix: XDMF writer wrote uint64 cells of mixed
 topologies as floats

---
 src/meshio/xdmf/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 750e429..01bb251 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -469,6 +469,7 @@ class XdmfWriter:
                                     2 if cell_block.type in {"vertex", "line"} else 1,
                                 ),
                                 meshio_type_to_xdmf_index[cell_block.type],
+                                dtype=cell_block.data.dtype,
                             ),
                             cell_block.data,
                         ]
-- 
2.43.0


From 133c99d9e7972e249b232f44e4ba3c1be409ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 027/191] fix: XDMF time series writer put the data files into
 the working directory

The reader expects the HDF5 file next to the XDMF file.
---
 src/meshio/xdmf/time_series.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 9fccb09..b415e2a 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -262,7 +262,8 @@ class TimeSeriesWriter:
         if self.data_format == "HDF":
             import h5py
 
-            self.h5_filename = self.filename.stem + ".h5"
+            # The path is read with respect to the XDMF file
+            self.h5_filename = self.filename.with_suffix(".h5")
             self.h5_file = h5py.File(self.h5_filename, "w")
         return self
 
@@ -324,7 +325,8 @@ class TimeSeriesWriter:
             np.savetxt(s, data.flatten(), fmt)
             return s.getvalue().decode()
         elif self.data_format == "Binary":
-            bin_filename = f"{self.filename.stem}{self.data_counter}.bin"
+            base = os.path.splitext(self.filename)[0]
+            bin_filename = f"{base}{self.data_counter}.bin"
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-- 
2.43.0


From c31204da9b124e0624c68256a2bd67b2eff82bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 028/191] fix: HMF reader lost cell blocks and split the cell
 data at the wrong places

Only one block per cell type was kept, and the cell data was split at the
length of the cell type names.
---
 src/meshio/hmf/_hmf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index b4af72f..d842414 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -19,14 +19,17 @@ def read(filename):
         grid = domain["grid"]
 
         points = None
-        cells = {}
+        topologies = {}
         point_data = {}
         cell_data_raw = {}
 
         for key, value in grid.items():
             if key[:8] == "Topology":
                 cell_type = value.attrs["TopologyType"]
-                cells[xdmf_to_meshio_type[cell_type]] = value[()]
+                # The entries are sorted by name, i.e., Topology10 < Topology2
+                topologies[int(key[8:])] = meshio.CellBlock(
+                    xdmf_to_meshio_type[cell_type], value[()]
+                )
 
             elif key == "Geometry":
                 # TODO is GeometryType really needed?
@@ -42,6 +45,7 @@ def read(filename):
                 for name, na in value.items():
                     point_data[name] = na[()]
 
+        cells = [topologies[k] for k in sorted(topologies)]
         cell_data = cell_data_from_raw(cells, cell_data_raw)
 
         return meshio.Mesh(
-- 
2.43.0


From 18fc2720240e641427320af56a3c69ebbce3b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:25 +0000
Subject: [PATCH 029/191] fix: Exodus reader failed on TETRA4 and TET4 elements

---
 src/meshio/exodus/_exodus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 60fce58..004a222 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -53,9 +53,9 @@ exodus_to_meshio_type = {
     "HEX20": "hexahedron20",
     "HEX27": "hexahedron27",
     #
+    "TETRA4": "tetra",
+    "TET4": "tetra",
     "TETRA": "tetra",
-    "TETRA4": "tetra4",
-    "TET4": "tetra4",
     "TETRA8": "tetra8",
     "TETRA10": "tetra10",
     "TETRA14": "tetra14",
-- 
2.43.0


From 57ba2cb0aa052273491a717cb1983287c417afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:25 +0000
Subject: [PATCH 030/191] fix: Exodus reader mixed up element variables not
 defined on all blocks

The values ended up on other blocks or under another name.
---
 src/meshio/exodus/_exodus.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 004a222..5152221 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -150,10 +150,6 @@ def read(filename):  # noqa: C901
             elif key.startswith("node_ns"):  # Expected keys: node_ns1, node_ns2
                 ns.append(value[:] - 1)  # Exodus is 1-based
 
-        # merge element block data; can't handle blocks yet
-        for k, value in cd.items():
-            cd[k] = np.concatenate(list(value.values()))
-
         # Check if there are any <name>R, <name>Z tuples or <name>X, <name>Y, <name>Z
         # triplets in the point data. If yes, they belong together.
         single, double, triple = categorize(point_data_names)
@@ -166,15 +162,15 @@ def read(filename):  # noqa: C901
         for name, idx0, idx1, idx2 in triple:
             point_data[name] = np.column_stack([pd[idx0], pd[idx1], pd[idx2]])
 
+        # The variables don't have to be defined on all blocks
         cell_data = {}
-        k = 0
-        for _, cell in cells:
-            n = len(cell)
-            for name, data in zip(cell_data_names, cd.values()):
-                if name not in cell_data:
-                    cell_data[name] = []
-                cell_data[name].append(data[k : k + n])
-            k += n
+        for k, name in enumerate(cell_data_names):
+            if k not in cd:
+                continue
+            cell_data[name] = [
+                cd[k][b] if b in cd[k] else np.full(len(cell), np.nan)
+                for b, (_, cell) in enumerate(cells)
+            ]
 
         point_sets = {name: dat for name, dat in zip(ns_names, ns)}
 
-- 
2.43.0


From a39de5f342c4a9b8087124dd70689c532765ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:25 +0000
Subject: [PATCH 031/191] fix: H5M writer failed on meshes with cell data

---
 src/meshio/h5m/_h5m.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 62a790a..77476b9 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -229,11 +229,11 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         "triangle": {"name": "Tri3", "type": 2},
         "tetra": {"name": "Tet4", "type": 5},
     }
-    for cell_block in mesh.cells:
+    for k, cell_block in enumerate(mesh.cells):
         key = cell_block.type
         data = cell_block.data
         if key not in meshio_to_h5m_type:
-            warn("Unsupported H5M element type '%s'. Skipping.", key)
+            warn(f"Unsupported H5M element type '{key}'. Skipping.")
             continue
         this_type = meshio_to_h5m_type[key]
         elem_group = elements.create_group(this_type["name"])
@@ -248,14 +248,13 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         conn.attrs.create("start_id", global_id)
         global_id += len(data)
 
-    # add cell data
-    for cell_type, cd in mesh.cell_data.items():
-        if cd:
+        # add cell data
+        if mesh.cell_data:
             tags = elem_group.create_group("tags")
-            for key, value in cd.items():
+            for name, value in mesh.cell_data.items():
                 tags.create_dataset(
-                    key,
-                    data=value,
+                    name,
+                    data=value[k],
                     compression=compression,
                     compression_opts=compression_opts,
                 )
-- 
2.43.0


From 91ea043294da9bfd5210888d5b47bebefd2e2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:25 +0000
Subject: [PATCH 032/191] fix: MED reader gave component names in the wrong
 order

Writing the mesh back failed or mixed up the component names.
---
 src/meshio/med/_med.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 0cdd35c..7136a28 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -121,11 +121,9 @@ def read(filename):
 
 
 def _read_data(fields, profiles, cell_types, point_data, cell_data, field_data):
+    component_names = {}
     for name, data in fields.items():
-        if "NOM" in data.attrs:
-            if "med:nom" not in field_data:
-                field_data["med:nom"] = []
-            field_data["med:nom"].append(data.attrs["NOM"].decode().split())
+        nom = data.attrs["NOM"].decode().split() if "NOM" in data.attrs else []
 
         time_step = sorted(data.keys())  # associated time-steps
         if len(time_step) == 1:  # single time-step
@@ -140,6 +138,7 @@ def _read_data(fields, profiles, cell_types, point_data, cell_data, field_data):
         for i, key in enumerate(time_step):
             med_data = data[key]  # at a particular time step
             name = names[i]
+            component_names[name] = nom
             for supp in med_data:
                 if supp == "NOE":  # continuous nodal (NOEU) data
                     point_data[name] = _read_nodal_data(med_data, profiles)
@@ -153,6 +152,14 @@ def _read_data(fields, profiles, cell_types, point_data, cell_data, field_data):
                         med_data[supp], profiles
                     )
 
+    # One entry per field, in the order in which the writer expects them
+    if component_names:
+        field_data["med:nom"] = [
+            component_names[name]
+            for name in [*point_data, *cell_data]
+            if name in component_names
+        ]
+
 
 def _read_nodal_data(med_data, profiles):
     profile = med_data["NOE"].attrs["PFL"]
-- 
2.43.0


From aacd876f8ac591bfe6d88078850dbbfc627216db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:48 +0000
Subject: [PATCH 033/191] fix: MED reader failed if fields or tags are not
 defined on all cell types

---
 src/meshio/med/_med.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 7136a28..e103946 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -82,6 +82,7 @@ def read(filename):
     # CellBlock
     cells = []
     cell_types = []
+    tags = []
     med_cells = mesh["MAI"]
     for med_cell_type, med_cell_type_group in med_cells.items():
         cell_type = med_to_meshio_type[med_cell_type]
@@ -91,11 +92,16 @@ def read(filename):
         cells += [(cell_type, nod[()].reshape(n_cells, -1, order="F") - 1)]
 
         # Cell tags
-        if "FAM" in med_cell_type_group:
-            tags = med_cell_type_group["FAM"][()]
-            if "cell_tags" not in cell_data:
-                cell_data["cell_tags"] = []
-            cell_data["cell_tags"].append(tags)
+        tags.append(
+            med_cell_type_group["FAM"][()] if "FAM" in med_cell_type_group else None
+        )
+
+    if any(t is not None for t in tags):
+        # cells without tags belong to family zero
+        cell_data["cell_tags"] = [
+            np.zeros(len(c), dtype=int) if t is None else t
+            for t, (_, c) in zip(tags, cells)
+        ]
 
     # Information for cell tags
     cell_tags = {}
@@ -110,6 +116,12 @@ def read(filename):
     else:
         profiles = f["PROFILS"] if "PROFILS" in f else None
         _read_data(fields, profiles, cell_types, point_data, cell_data, field_data)
+        # Fields don't have to be defined on all cell types
+        for values in cell_data.values():
+            shape = next(v.shape[1:] for v in values if v is not None)
+            for k, (_, c) in enumerate(cells):
+                if values[k] is None:
+                    values[k] = np.full((len(c), *shape), np.nan)
 
     # Construct the mesh object
     mesh = Mesh(
-- 
2.43.0


From 62176925b22239ef191aa9e4bdce699a672f7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:15 +0000
Subject: [PATCH 034/191] fix: allow cell blocks of type triangle7

---
 src/meshio/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 0e1c83b..28a5eb1 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -18,6 +18,7 @@ topological_dimension = {
     "pyramid": 3,
     "line3": 1,
     "triangle6": 2,
+    "triangle7": 2,
     "quad9": 2,
     "tetra10": 3,
     "hexahedron27": 3,
-- 
2.43.0


From d8d1e04e32cfe7981d359bcc9409a55d56ff5142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:55 +0000
Subject: [PATCH 035/191] fix: Nastran writer failed on floats that need more
 than 16 characters

---
 src/meshio/nastran/_nastran.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0e1313c..0445cbd 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -410,10 +410,13 @@ def _float_to_nastran_string(value, length=16):
         -0.1234 --> "-1.234E-1"
         3.1415926535897932 --> "3.14159265359E+0"
     """
-    out = np.format_float_scientific(value, exp_digits=1, precision=11).replace(
-        "e", "E"
-    )
-    assert len(out) <= 16
+    for precision in range(11, -1, -1):
+        out = np.format_float_scientific(
+            value, exp_digits=1, precision=precision
+        ).replace("e", "E")
+        if len(out) <= length:
+            break
+    assert len(out) <= length
     return out
     # The following is the manual float conversion. Keep it around for a while in case
     # we still need it.
-- 
2.43.0


From 10a61348b2c4bceb12cab3898e69f13e059c28ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:55 +0000
Subject: [PATCH 036/191] fix: Nastran writer cut off floats in small fields,
 changing their magnitude

---
 src/meshio/nastran/_nastran.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0445cbd..9f476b4 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -385,7 +385,21 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
 
 
 def _float_rstrip(x, n=8):
-    return f"{x:f}".rstrip("0")[:n]
+    # of all the representations that fit into the field, take the most precise one
+    candidates = []
+    for p in range(n):
+        mantissa, exponent = f"{x:.{p}e}".split("e")
+        if "." not in mantissa:
+            mantissa += "."
+        candidates.append(f"{mantissa}{int(exponent):+d}")
+        fixed = f"{x:.{p}f}"
+        if "." not in fixed:
+            fixed += "."
+        candidates.append(fixed.rstrip("0"))
+    candidates = [c for c in candidates if len(c) <= n]
+    return min(
+        candidates, key=lambda c: (abs(_nastran_string_to_float(c) - x), len(c))
+    )
 
 
 def _float_to_nastran_string(value, length=16):
-- 
2.43.0


From 174f3cda66569cdd498828386f74d2483a5884bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:55 +0000
Subject: [PATCH 037/191] fix: Nastran cells in free and large field format

The writer failed on cell_format="free", wrote names that aren't Nastran
(CTETRA_, CHEXA_, ...), and too many fields per line in large field format;
the reader ignored cells in large field format.
---
 src/meshio/nastran/_nastran.py | 44 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 9f476b4..38d9489 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -125,7 +125,7 @@ def read_buffer(f):
         # read line and merge with all continuation lines (starting with `+` or
         # `*` or automatic continuation lines in fixed format)
         chunks = []
-        c, _ = _chunk_line(next_line)
+        c, is_free = _chunk_line(next_line)
         chunks.append(c)
         while True:
             next_line = f.readline()
@@ -171,7 +171,7 @@ def read_buffer(f):
 
         # merge chunks according to large field format
         # large field format: 8 + 16 + 16 + 16 + 16 + 8
-        if chunks[0][0].startswith("GRID*"):
+        if not is_free and chunks[0][0].rstrip().endswith("*"):
             new_chunks = []
             for c in chunks:
                 d = [c[0]]
@@ -212,10 +212,10 @@ def read_buffer(f):
         # strip chunks
         chunks = [chunk.strip() for chunk in chunks]
 
-        keyword = chunks[0]
+        keyword = chunks[0].rstrip("*")
 
         # Points
-        if keyword in ["GRID", "GRID*"]:
+        if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
             if len(pref) > 0:
@@ -309,14 +309,15 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
     if cell_format == "free":
         int_fmt, cell_info_fmt = "{:d}", "{:s},{:d},{:s},"
         sjoin = ","
+        nipl1, nipl2 = 6, 8
     elif cell_format == "fixed-small":
         int_fmt, cell_info_fmt = "{:<8d}", "{:<8s}{:<8d}{:<8s}"
         sjoin, cchar = "", "+"
-        nipl1, nipl2 = 6, 14
+        nipl1, nipl2 = 6, 8
     elif cell_format == "fixed-large":
         int_fmt, cell_info_fmt = "{:<16d}", "{:<8s}{:<16d}{:<16s}"
         sjoin, cchar = "", "*"
-        nipl1, nipl2 = 2, 6
+        nipl1, nipl2 = 2, 4
     else:
         raise RuntimeError(f'unknown "{format}" format')
 
@@ -348,8 +349,10 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
             cell_type = cell_block.type
             cells = cell_block.data
             nastran_type = meshio_to_nastran_type[cell_type]
+            # The names with a trailing underscore are fictive
+            nastran_name = nastran_type.rstrip("_")
             if cell_format.endswith("-large"):
-                nastran_type += "*"
+                nastran_name += "*"
             if cell_refs is not None:
                 cell_refs_t = cell_refs[ict]
             else:
@@ -358,28 +361,21 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
                 if cell_refs is not None:
                     cell_ref = str(int(cell_refs_t[ic]))
                 cell_id += 1
-                cell_info = cell_info_fmt.format(nastran_type, cell_id, cell_ref)
+                cell_info = cell_info_fmt.format(nastran_name, cell_id, cell_ref)
                 cell1 = cell + 1
                 cell1 = _convert_to_nastran_ordering(cell1, nastran_type)
                 conn = sjoin.join(int_fmt.format(nid) for nid in cell1[:nipl1])
-
-                if len(cell1) > nipl1:
+                line = cell_info + conn
+                # continuation lines
+                for k, i in enumerate(range(nipl1, len(cell1), nipl2)):
                     if cell_format == "free":
-                        cflag1 = cflag3 = ""
-                        cflag2 = cflag4 = "+,"
-                    else:
-                        cflag1 = cflag2 = f"{cchar}1{cell_id:<6x}"
-                        cflag3 = cflag4 = f"{cchar}2{cell_id:<6x}"
-                    f.write(cell_info + conn + cflag1 + "\n")
-                    conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl1:nipl2])
-                    if len(cell1) > nipl2:
-                        f.write(cflag2 + conn + cflag3 + "\n")
-                        conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl2:])
-                        f.write(cflag4 + conn + "\n")
+                        cflag1, cflag2 = "", "+,"
                     else:
-                        f.write(cflag2 + conn + "\n")
-                else:
-                    f.write(cell_info + conn + "\n")
+                        cflag1 = cflag2 = f"{cchar}{k + 1}{cell_id:<6x}"
+                    f.write(line + cflag1 + "\n")
+                    conn = sjoin.join(int_fmt.format(nid) for nid in cell1[i : i + nipl2])
+                    line = cflag2 + conn
+                f.write(line + "\n")
 
         f.write("ENDDATA\n")
 
-- 
2.43.0


From 0a0950d80f4668e098d69222123266b950c96d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:55 +0000
Subject: [PATCH 038/191] fix: Nastran reader missed automatic continuations if
 trailing blanks are cut off

---
 src/meshio/nastran/_nastran.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 38d9489..269d8ce 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -155,12 +155,13 @@ def read_buffer(f):
                 c[0] = None
                 chunks.append(c)
 
-            elif len(chunks[-1]) == 10 and chunks[-1][-1] == "        ":
-                # automatic continuation: last chunk of previous line and first
-                # chunk of current line are spaces
+            elif len(chunks[-1]) < 10 or chunks[-1][9].strip() == "":
+                # automatic continuation: last chunk of previous line (possibly cut
+                # off) and first chunk of current line are spaces
                 c, _ = _chunk_line(next_line)
-                if c[0] == "        ":
-                    chunks[-1][9] = None
+                if c[0].strip() == "":
+                    if len(chunks[-1]) == 10:
+                        chunks[-1][9] = None
                     c[0] = None
                     chunks.append(c)
                 else:
-- 
2.43.0


From aafecd1440aeb78ab555c9d5a923ffc92ef6523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:55 +0000
Subject: [PATCH 039/191] fix: Nastran reader mixed up the references if some
 of them are blank

---
 src/meshio/nastran/_nastran.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 269d8ce..98b4ed4 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -101,13 +101,11 @@ def read_buffer(f):
         if len(cells) > 0 and cells[-1][0] == cell_type:
             cells[-1][1].append(cell)
             cells_id[-1].append(cell_id)
-            if cell_ref is not None:
-                cell_refs[-1].append(cell_ref)
+            cell_refs[-1].append(cell_ref)
         else:
             cells.append((cell_type, [cell]))
             cells_id.append([cell_id])
-            if cell_ref is not None:
-                cell_refs.append([cell_ref])
+            cell_refs.append([cell_ref])
 
     while True:
         next_line = f.readline()
@@ -219,8 +217,7 @@ def read_buffer(f):
         if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
-            if len(pref) > 0:
-                point_refs.append(int(pref))
+            point_refs.append(int(pref) if len(pref) > 0 else None)
             points_id.append(point_id)
             points.append([_nastran_string_to_float(i) for i in chunks[3:6]])
 
@@ -267,10 +264,17 @@ def read_buffer(f):
     mesh = Mesh(points, cells)
     mesh.points_id = points_id
     mesh.cells_id = cells_id
-    if len(point_refs) > 0:
-        mesh.point_data["nastran:ref"] = np.array(point_refs)
-    if len(cell_refs) > 0:
-        mesh.cell_data["nastran:ref"] = [np.array(i) for i in cell_refs]
+    # Blank fields: the coordinate system of a grid point defaults to 0, the property of
+    # an element to its own id.
+    if any(ref is not None for ref in point_refs):
+        mesh.point_data["nastran:ref"] = np.array(
+            [0 if ref is None else ref for ref in point_refs]
+        )
+    if any(ref is not None for refs in cell_refs for ref in refs):
+        mesh.cell_data["nastran:ref"] = [
+            np.array([i if ref is None else ref for i, ref in zip(ids, refs)])
+            for ids, refs in zip(cells_id, cell_refs)
+        ]
     return mesh
 
 
-- 
2.43.0


From 08142a6badfe60c39a83fd7c948e1f88a7ed5501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:55 +0000
Subject: [PATCH 040/191] fix: Nastran reader didn't terminate on files that
 end after BEGIN BULK

---
 src/meshio/nastran/_nastran.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 98b4ed4..65c9b5f 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -109,6 +109,8 @@ def read_buffer(f):
 
     while True:
         next_line = f.readline()
+        if not next_line:
+            raise ReadError("Premature EOF")
         # Blank lines or comments
         if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
             continue
-- 
2.43.0


From 3dbe267e7ed65e7c6ef651d6e7e2a1e13e04e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 041/191] fix: PERMAS reader didn't undo the node reordering of
 the writer

---
 src/meshio/permas/_permas.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index dda02a3..d0b111e 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -55,6 +55,13 @@ permas_to_meshio_type = {
     "PENTA15": "wedge15",
 }
 meshio_to_permas_type = {v: k for k, v in permas_to_meshio_type.items()}
+# The node ordering differs from meshio's for some cell types
+meshio_to_permas_order = {
+    "triangle6": [0, 3, 1, 4, 2, 5],
+    "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
+    "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
+    "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
+}
 
 
 def read(filename):
@@ -155,7 +162,10 @@ def _read_cells(f, line0, point_gids):
             cells.append(idx)
             idx = []
     f.seek(last_pos)
-    return cell_type, np.array(cells)
+    cells = np.array(cells)
+    if cell_type in meshio_to_permas_order:
+        cells = cells[:, np.argsort(meshio_to_permas_order[cell_type])]
+    return cell_type, cells
 
 
 def get_param_map(word, required_keys=None):
@@ -239,10 +249,6 @@ def write(filename, mesh):
         for k, x in enumerate(points):
             f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
         eid = 0
-        tria6_order = [0, 3, 1, 4, 2, 5]
-        tet10_order = [0, 4, 1, 5, 2, 6, 7, 8, 9, 3]
-        quad9_order = [0, 4, 1, 7, 8, 5, 3, 6, 2]
-        wedge15_order = [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]
         for cell_block in mesh.cells:
             node_idcs = cell_block.data
             f.write("!\n")
@@ -251,28 +257,28 @@ def write(filename, mesh):
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in tet10_order]
+                    mylist = [mylist[i] for i in meshio_to_permas_order["tetra10"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             elif cell_block.type == "triangle6":
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in tria6_order]
+                    mylist = [mylist[i] for i in meshio_to_permas_order["triangle6"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             elif cell_block.type == "quad9":
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in quad9_order]
+                    mylist = [mylist[i] for i in meshio_to_permas_order["quad9"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             elif cell_block.type == "wedge15":
                 for row in node_idcs:
                     eid += 1
                     mylist = row.tolist()
-                    mylist = [mylist[i] for i in wedge15_order]
+                    mylist = [mylist[i] for i in meshio_to_permas_order["wedge15"]]
                     nids_strs = (str(nid + 1) for nid in mylist)
                     f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
             else:
-- 
2.43.0


From bca95a3329b83ac9c5463d2b43ed48c926f94170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 042/191] fix: PERMAS reader dropped the nodes after a comment

---
 src/meshio/permas/_permas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index d0b111e..0535e04 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -127,10 +127,10 @@ def _read_nodes(f):
         last_pos = f.tell()
         line = f.readline()
         if line.startswith("!"):
-            break
+            continue
         if line.startswith("$"):
             break
-        entries = line.strip().split(" ")
+        entries = line.split()
         gid, x = entries[0], entries[1:]
         point_gids[int(gid)] = index
         points.append([float(xx) for xx in x])
@@ -156,8 +156,10 @@ def _read_cells(f, line0, point_gids):
         if line.startswith("$") or line == "":
             break
         line = line.strip()
+        if line.startswith("!"):
+            continue
         # the first item is just a running index
-        idx += [point_gids[int(k)] for k in filter(None, line.split(" ")[1:])]
+        idx += [point_gids[int(k)] for k in line.rstrip("!").split()[1:]]
         if not line.endswith("!"):
             cells.append(idx)
             idx = []
-- 
2.43.0


From 1d953b8f468bccc2473b35664111e6ef2ee61c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 043/191] fix: mdpa reader didn't terminate on files without
 End Nodes

---
 src/meshio/mdpa/_mdpa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index afa39ec..f7a72e6 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -109,6 +109,8 @@ def _read_nodes(f, is_ascii, data_size):
     num_nodes = 0
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file in Nodes")
         if "End Nodes" in line:
             break
         num_nodes += 1
-- 
2.43.0


From af7adf42b630de3c7fe04f00804a37c5fa8179fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 044/191] fix: mdpa reader ignored the node ids

---
 src/meshio/mdpa/_mdpa.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index f7a72e6..d79316d 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -118,12 +118,13 @@ def _read_nodes(f, is_ascii, data_size):
 
     points = np.fromfile(f, count=num_nodes * 4, sep=" ").reshape((num_nodes, 4))
     # The first number is the index
+    point_ids = points[:, 0].astype(int)
     points = points[:, 1:]
 
     line = f.readline().decode()
     if line.strip() != "End Nodes":
         raise ReadError()
-    return points
+    return points, point_ids
 
 
 def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
@@ -161,8 +162,7 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
-        # Subtract one to account for the fact that python indices are 0-based.
-        cells[-1][1].append(np.array(data[-num_nodes_per_elem:]) - 1)
+        cells[-1][1].append(data[-num_nodes_per_elem:])
 
         # Using the property id as tag
         if t not in cell_tags:
@@ -284,6 +284,7 @@ def read_buffer(f):
 
     # Initialize the optional data fields
     points = []
+    point_ids = []
     cells = []
     field_data = {}
     cell_data = {}
@@ -308,12 +309,19 @@ def read_buffer(f):
         environ = line.strip()
 
         if environ.startswith("Begin Nodes"):
-            points = _read_nodes(f, is_ascii, data_size)
+            points, point_ids = _read_nodes(f, is_ascii, data_size)
         elif environ.startswith("Begin Elements") or environ.startswith(
             "Begin Conditions"
         ):
             _read_cells(f, cells, is_ascii, cell_tags, environ)
 
+    # Translate the node ids to indices
+    if len(cells) > 0:
+        index = {point_id: k for k, point_id in enumerate(point_ids)}
+        cells = [
+            (t, np.array([[index[i] for i in cell] for cell in c])) for t, c in cells
+        ]
+
     # We finally prepare the cells
     has_additional_tag_data = _prepare_cells(cells, cell_tags)
 
-- 
2.43.0


From 9a6ff1e3c7a8606864a0b42b9f6ff6e80a7cd277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 045/191] fix: Ansys reader forgot the point indices after a
 declaration

---
 src/meshio/ansys/_ansys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 364616a..4ddd596 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -35,7 +35,7 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
     # If the line is self-contained, it is merely a declaration
     # of the total number of points.
     if line.count("(") == line.count(")"):
-        return None, None, None
+        return None, first_point_index_overall, last_point_index
 
     # (3010 (zone-id first-index last-index type ND)
     out = re.match("\\s*\\(\\s*(|20|30)10\\s*\\(([^\\)]*)\\).*", line)
-- 
2.43.0


From 3227cf7fda17a1c4292bd3d204d6c396a4cccf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 046/191] fix: Ansys writer declared all binary points as
 double precision

---
 src/meshio/ansys/_ansys.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 4ddd596..89bd165 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -408,16 +408,23 @@ def write(filename, mesh, binary=True):
         fh.write((f"(12 (0 1 {total_num_cells:x} 0))\n").encode())
 
         # Write nodes
-        key = "3010" if binary else "10"
+        points = mesh.points
+        if binary and points.dtype == np.float32:
+            key = "2010"
+        elif binary:
+            key = "3010"
+            points = points.astype(np.float64)
+        else:
+            key = "10"
         fh.write(
             f"({key} (1 {first_node_index:x} {num_points:x} 1 {dim:x})(\n".encode()
         )
         if binary:
-            mesh.points.tofile(fh)
+            points.tofile(fh)
             fh.write(b"\n)")
-            fh.write(b"End of Binary Section 3010)\n")
+            fh.write(f"End of Binary Section {key})\n".encode())
         else:
-            np.savetxt(fh, mesh.points, fmt="%.16e")
+            np.savetxt(fh, points, fmt="%.16e")
             fh.write(b"))\n")
 
         # Write cells
-- 
2.43.0


From 0ac64a36c241fc68dd2dae574cc9ec1aafa16592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 047/191] fix: Ansys reader failed on zone specifications over
 several lines

---
 src/meshio/ansys/_ansys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 89bd165..281cbc6 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -371,6 +371,7 @@ def read(filename):  # noqa: C901
                     )
                 else:
                     warn("Zone specification not supported yet.")
+                _skip_close(f, line.count("(") - line.count(")"))
 
             else:
                 warn(f"Unknown index {index}. Skipping.")
-- 
2.43.0


From 55c346b612b6ef70ef0eaa8b05711501347d2d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:46 +0000
Subject: [PATCH 048/191] fix: Abaqus reader failed on C3D4H and lower-case
 element types

---
 src/meshio/abaqus/_abaqus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 0dd8877..7d74eaa 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -79,8 +79,8 @@ abaqus_to_meshio_type = {
     "C3D20RH": "hexahedron20",
     # "HEX27": "hexahedron27",
     #
+    "C3D4H": "tetra",
     "C3D4": "tetra",
-    "C3D4H": "tetra4",
     # "TETRA8": "tetra8",
     "C3D10": "tetra10",
     "C3D10H": "tetra10",
@@ -250,7 +250,7 @@ def _read_nodes(f):
 
 
 def _read_cells(f, params_map, point_ids):
-    etype = params_map["TYPE"]
+    etype = params_map["TYPE"].upper()
     if etype not in abaqus_to_meshio_type.keys():
         raise ReadError(f"Element type not available: {etype}")
 
-- 
2.43.0


From 20f89482d77babff77eb6a185a940fabfa32ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:46 +0000
Subject: [PATCH 049/191] fix: Abaqus reader dropped the nodes, cells, and set
 entries after a comment

---
 src/meshio/abaqus/_abaqus.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 7d74eaa..4f60500 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -235,6 +235,8 @@ def _read_nodes(f):
     counter = 0
     while True:
         line = f.readline()
+        if line.startswith("**"):  # comment
+            continue
         if not line or line.startswith("*"):
             break
         if line.strip() == "":
@@ -261,6 +263,8 @@ def _read_cells(f, params_map, point_ids):
     idx = []
     while True:
         line = f.readline()
+        if line.startswith("**"):  # comment
+            continue
         if not line or line.startswith("*"):
             break
         line = line.strip()
@@ -380,6 +384,8 @@ def _read_set(f, params_map):
     set_names = []
     while True:
         line = f.readline()
+        if line.startswith("**"):  # comment
+            continue
         if not line or line.startswith("*"):
             break
         if line.strip() == "":
-- 
2.43.0


From 39cc870618de6d052037bb2f3e4c7d50736a1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:46 +0000
Subject: [PATCH 050/191] fix: Abaqus reader only kept the last NODE section

---
 src/meshio/abaqus/_abaqus.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 4f60500..1262dba 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -134,7 +134,12 @@ def read_buffer(f):
 
         keyword = line.partition(",")[0].strip().replace("*", "").upper()
         if keyword == "NODE":
-            points, point_ids, line = _read_nodes(f)
+            new_points, new_ids, line = _read_nodes(f)
+            if point_ids is None:
+                point_ids = {}
+            offset = len(points)
+            points = new_points if offset == 0 else np.vstack([points, new_points])
+            point_ids.update({key: i + offset for key, i in new_ids.items()})
         elif keyword == "ELEMENT":
             if point_ids is None:
                 raise ReadError("Expected NODE before ELEMENT")
-- 
2.43.0


From 19906abe17553c8e853f948a89382f63de8e4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:28 +0000
Subject: [PATCH 051/191] fix: Abaqus reader mixed up cell sets

Sets given in several ELSET sections or as ELSET parameter of ELEMENT were attached
to the wrong cell blocks or overwrote each other, and sets given by the names of other
sets were incomplete.
---
 src/meshio/abaqus/_abaqus.py | 67 ++++++++++++++----------------------
 1 file changed, 25 insertions(+), 42 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 1262dba..9bc486d 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -114,9 +114,7 @@ def read_buffer(f):
     cells = []
     cell_ids = []
     point_sets = {}
-    cell_sets = {}
-    cell_sets_element = {}  # Handle cell sets defined in ELEMENT
-    cell_sets_element_order = []  # Order of keys is not preserved in Python 3.5
+    cell_sets = {}  # name -> {cell block index: [cell indices]}
     field_data = {}
     cell_data = {}
     point_data = {}
@@ -147,11 +145,10 @@ def read_buffer(f):
             cell_type, cells_data, ids, sets, line = _read_cells(
                 f, params_map, point_ids
             )
+            for name, idx in sets.items():
+                cell_sets.setdefault(name, {}).setdefault(len(cells), []).extend(idx)
             cells.append(CellBlock(cell_type, cells_data))
             cell_ids.append(ids)
-            if sets:
-                cell_sets_element.update(sets)
-                cell_sets_element_order += list(sets.keys())
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
             set_ids, _, line = _read_set(f, params_map)
@@ -162,27 +159,17 @@ def read_buffer(f):
         elif keyword == "ELSET":
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
-            name = params_map["ELSET"]
-            cell_sets[name] = []
-            if set_ids.size:
-                for cell_ids_ in cell_ids:
-                    cell_sets_ = np.array(
-                        [
-                            cell_ids_[set_id]
-                            for set_id in set_ids
-                            if set_id in cell_ids_
-                        ],
-                        dtype="int32",
-                    )
-                    cell_sets[name].append(cell_sets_)
-            elif set_names:
-                for set_name in set_names:
-                    if set_name in cell_sets.keys():
-                        cell_sets[name].append(cell_sets[set_name])
-                    elif set_name in cell_sets_element.keys():
-                        cell_sets[name].append(cell_sets_element[set_name])
-                    else:
-                        raise ReadError(f"Unknown cell set '{set_name}'")
+            # If the set already exists, the cells are added to it
+            cell_set = cell_sets.setdefault(params_map["ELSET"], {})
+            for ic, cell_ids_ in enumerate(cell_ids):
+                cell_set.setdefault(ic, []).extend(
+                    cell_ids_[set_id] for set_id in set_ids if set_id in cell_ids_
+                )
+            for set_name in set_names:
+                if set_name not in cell_sets:
+                    raise ReadError(f"Unknown cell set '{set_name}'")
+                for ic, idx in list(cell_sets[set_name].items()):
+                    cell_set.setdefault(ic, []).extend(list(idx))
         elif keyword == "INCLUDE":
             # Splitting line to get external input file path (example: *INCLUDE,INPUT=wInclude_bulk.inp)
             ext_input_file = pathlib.Path(line.split("=")[-1].strip())
@@ -195,6 +182,7 @@ def read_buffer(f):
 
             # Merge contents of external file only if it is containing mesh data
             if len(out.points) > 0:
+                cell_ids += [{}] * len(out.cells)
                 points, cells = merge(
                     out,
                     points,
@@ -211,17 +199,12 @@ def read_buffer(f):
             # There are just too many Abaqus keywords to explicitly skip them.
             line = f.readline()
 
-    # Parse cell sets defined in ELEMENT
-    for i, name in enumerate(cell_sets_element_order):
-        # Not sure whether this case would ever happen
-        if name in cell_sets.keys():
-            cell_sets[name][i] = cell_sets_element[name]
-        else:
-            cell_sets[name] = []
-            for ic in range(len(cells)):
-                cell_sets[name].append(
-                    cell_sets_element[name] if i == ic else np.array([], dtype="int32")
-                )
+    cell_sets = {
+        name: [
+            np.array(cell_set.get(ic, []), dtype="int32") for ic in range(len(cells))
+        ]
+        for name, cell_set in cell_sets.items()
+    }
 
     return Mesh(
         points,
@@ -396,11 +379,11 @@ def _read_set(f, params_map):
         if line.strip() == "":
             continue
 
-        line = line.strip().strip(",").split(",")
-        if line[0].isnumeric():
-            set_ids += [int(k) for k in line]
+        items = [item.strip() for item in line.strip().strip(",").split(",")]
+        if items[0].isnumeric():
+            set_ids += [int(k) for k in items]
         else:
-            set_names.append(line[0])
+            set_names += items
 
     set_ids = np.array(set_ids, dtype="int32")
     if "GENERATE" in params_map:
-- 
2.43.0


From c5778c5eb990b01642d73a1ca124148e5e9b000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:28 +0000
Subject: [PATCH 052/191] fix: Abaqus reader lost parts of point sets

Sets given in several NSET sections or by the names of other sets were incomplete.
---
 src/meshio/abaqus/_abaqus.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 9bc486d..bbb5bcd 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -151,11 +151,16 @@ def read_buffer(f):
             cell_ids.append(ids)
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
-            set_ids, _, line = _read_set(f, params_map)
+            set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["NSET"]
-            point_sets[name] = np.array(
-                [point_ids[point_id] for point_id in set_ids], dtype="int32"
-            )
+            # If the set already exists, the points are added to it
+            idx = list(point_sets.get(name, []))
+            idx += [point_ids[point_id] for point_id in set_ids]
+            for set_name in set_names:
+                if set_name not in point_sets:
+                    raise ReadError(f"Unknown point set '{set_name}'")
+                idx += list(point_sets[set_name])
+            point_sets[name] = np.array(idx, dtype="int32")
         elif keyword == "ELSET":
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
-- 
2.43.0


From c40c8383d25a5cc460f2e5f7a7f2cb34e638271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:01 +0000
Subject: [PATCH 053/191] fix: Abaqus B33 beams have two nodes

---
 src/meshio/abaqus/_abaqus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index bbb5bcd..9cc9ff8 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -29,12 +29,12 @@ abaqus_to_meshio_type = {
     "B21H": "line",
     "B22": "line3",
     "B22H": "line3",
+    "B33": "line",
+    "B33H": "line",
     "B31": "line",
     "B31H": "line",
     "B32": "line3",
     "B32H": "line3",
-    "B33": "line3",
-    "B33H": "line3",
     # surfaces
     "CPS4": "quad",
     "CPS4R": "quad",
-- 
2.43.0


From e38bdc72ea7fc454c7dc80bdec54b7d729bcdf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 054/191] fix: Medit reader failed on ASCII files of version 3
 and 4

---
 src/meshio/medit/_medit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 272bd16..e9f0f94 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -203,8 +203,14 @@ def read_ascii_buffer(f):
             raise ReadError()
 
         if items[0] == "MeshVersionFormatted":
-            version = items[1]
-            dtype = {"0": c_float, "1": c_float, "2": c_double}[version]
+            version = items[1] if len(items) >= 2 else f.readline().strip()
+            dtype = {
+                "0": c_float,
+                "1": c_float,
+                "2": c_double,
+                "3": c_double,
+                "4": c_double,
+            }[version]
         elif items[0] == "Dimension":
             if len(items) >= 2:
                 dim = int(items[1])
-- 
2.43.0


From 9ecc8bc1018c782f5cbb7c2c4059d08109a58863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 055/191] fix: Medit reader rounded large references to single
 precision

---
 src/meshio/medit/_medit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index e9f0f94..3215d97 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -224,10 +224,11 @@ def read_ascii_buffer(f):
             if dtype is None:
                 raise ReadError("Expected `MeshVersionFormatted` before `Vertices`")
             num_verts = int(f.readline())
+            # read in double precision, also because of the references
             out = np.fromfile(
-                f, count=num_verts * (dim + 1), dtype=dtype, sep=" "
+                f, count=num_verts * (dim + 1), dtype=c_double, sep=" "
             ).reshape(num_verts, dim + 1)
-            points = out[:, :dim]
+            points = out[:, :dim].astype(dtype)
             point_data["medit:ref"] = out[:, dim].astype(int)
         elif items[0] in meshio_from_medit:
             meshio_type, points_per_cell = meshio_from_medit[items[0]]
-- 
2.43.0


From 286e430f12dd546a05da9573780489fe3d7df4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 056/191] fix: Netgen reader failed on meshes with only one
 point

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index cae1bd7..a9b933a 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -264,7 +264,7 @@ def read_buffer(f):
         elif line == "points":
             num_points = int(f.readline())
             if num_points > 0:
-                points = np.loadtxt(f, max_rows=num_points)
+                points = np.loadtxt(f, max_rows=num_points, ndmin=2)
                 if dimension != 3:
                     points = points[:, :dimension]
 
-- 
2.43.0


From 7357234f974b508a346f371204e6c240ef367e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 057/191] fix: Netgen reader skipped every other line outside
 of edgesegmentsgi2

---
 src/meshio/netgen/_netgen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index a9b933a..1fd2f72 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -278,7 +278,10 @@ def read_buffer(f):
             "surfaceelementsuv",
             "volumeelements",
         ]:
-            _read_cells(f, line, cells, cells_index, have_edgesegmentsgi2_in_two_lines)
+            skip_every_other_line = (
+                have_edgesegmentsgi2_in_two_lines and line == "edgesegmentsgi2"
+            )
+            _read_cells(f, line, cells, cells_index, skip_every_other_line)
         elif line == "endmesh":
             break
 
-- 
2.43.0


From 9f8739ff43ccce17bc384a279aeade24d11d67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 058/191] fix: SU2 writer failed on meshes with boundary cells

---
 src/meshio/su2/_su2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b925171..b59c504 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -338,7 +338,9 @@ def write(filename, mesh):
             f.write(f"MARKER_TAG= {tag}\n".encode())
             f.write(f"MARKER_ELEMS= {count}\n".encode())
 
-            for index, (cell_type, data) in enumerate(mesh.cells):
+            for index, cell_block in enumerate(mesh.cells):
+                cell_type = cell_block.type
+                data = cell_block.data
 
                 if cell_type not in types:
                     continue
-- 
2.43.0


From 2f3138e059fc471d1b7b85709973255c15c091b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 059/191] fix: SU2 reader failed on sections without elements

---
 src/meshio/su2/_su2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b59c504..9221534 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -116,6 +116,8 @@ def read_buffer(f):
             # translate_cells function from vtk reader
 
             num_elems = int(rest_of_line)
+            if num_elems == 0:
+                continue
             gen = islice(f, num_elems)
 
             # some files has an extra int column while other not
-- 
2.43.0


From 2c031d81d9684334098c0c1f3d47c44b659db8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 060/191] fix: SU2 reader ignored keywords followed by blanks

---
 src/meshio/su2/_su2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index 9221534..2e40524 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -74,7 +74,7 @@ def read_buffer(f):
             continue
 
         try:
-            name, rest_of_line = line.split("=")
+            name, rest_of_line = (item.strip() for item in line.split("="))
         except ValueError:
             warn(f"meshio could not parse line\n {line}\n skipping.....")
             continue
-- 
2.43.0


From 05447b0d731a8a4a45dae275c70315d94628449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 061/191] fix: TetGen writer with several cell blocks

Only the first block of tetrahedra could be read back, and the attributes were taken
from the wrong block if there were other cells.
---
 src/meshio/tetgen/_tetgen.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index c869496..f60f199 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -156,13 +156,17 @@ def write(filename, mesh, float_fmt=".16e"):
         fh.write(f"# This file was created by meshio v{__version__}\n")
         if nattr > 0:
             fh.write("# attribute names: {}\n".format(", ".join(attr_keys)))
-        for id, c in enumerate(filter(lambda c: c.type == "tetra", mesh.cells)):
-            data = c.data
-            fh.write(f"{data.shape[0]} {4} {nattr}\n")
-            fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
-            for k, tet in enumerate(data):
+        num_tets = sum(len(c) for c in mesh.cells if c.type == "tetra")
+        fh.write(f"{num_tets} {4} {nattr}\n")
+        fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        tet_id = 0
+        for id, c in enumerate(mesh.cells):
+            if c.type != "tetra":
+                continue
+            for k, tet in enumerate(c.data):
                 data = list(tet[:4]) + [mesh.cell_data[key][id][k] for key in attr_keys]
-                fh.write(fmt.format(k, *data))
+                fh.write(fmt.format(tet_id, *data))
+                tet_id += 1
 
 
 register_format("tetgen", [".ele", ".node"], read, {"tetgen": write})
-- 
2.43.0


From 6212b5ef4a3f4a1c568ee3594d94be2b3097ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 062/191] fix: TetGen reader failed on attributes that aren't
 integers

---
 src/meshio/tetgen/_tetgen.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index f60f199..cf02102 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -73,15 +73,19 @@ def read(filename):
         if num_points_per_tet != 4:
             raise ReadError()
         cells = np.fromfile(
-            f, dtype=int, count=(5 + num_attrs) * num_tets, sep=" "
+            f, dtype=float, count=(5 + num_attrs) * num_tets, sep=" "
         ).reshape(num_tets, 5 + num_attrs)
         # read cell (region) attributes, the first is "ref", the others are "ref2",
         # "ref3", ...
         for k in range(num_attrs):
             flag = "" if k == 0 else str(k + 1)
-            cell_data["tetgen:ref" + flag] = [cells[:, 5 + k]]
+            attr = cells[:, 5 + k]
+            # attributes can be floats, but often are references
+            if np.all(attr == np.round(attr)) and np.all(np.abs(attr) < 2**53):
+                attr = attr.astype(int)
+            cell_data["tetgen:ref" + flag] = [attr]
         # remove the leading index column and the attributes
-        cells = cells[:, 1:5]
+        cells = cells[:, 1:5].astype(int)
         cells -= node_index_base
 
     return Mesh(
-- 
2.43.0


From ee2b39920db923e3ad18869ea0477ea2c7432ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 063/191] fix: UGRID writer failed on integer cell data

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 6fa57c0..8a6c560 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -253,7 +253,7 @@ def _write_buffer(f, file_type, mesh):
                 f'Picking {labels_key}, skipping {", ".join(other)}.'
             )
         labels = (
-            mesh.cell_data[labels_key]
+            mesh.cell_data[labels_key][ugrid_meshio_id[key]]
             if labels_key
             else np.ones(ugrid_counts[key], dtype=int)
         )
-- 
2.43.0


From 33fd83326e173a2b15f73a8249c0c9e41b5eda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 064/191] fix: UGRID reader rounded ASCII data to single
 precision

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 8a6c560..b04e349 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -23,7 +23,7 @@ from .._mesh import CellBlock, Mesh
 # 64-bit versions described here
 # https://www.simcenter.msstate.edu/software/documentation/ug_io/ugc_l_file_formats.html
 file_types = {
-    "ascii": {"type": "ascii", "float_type": "f", "int_type": "i"},
+    "ascii": {"type": "ascii", "float_type": "f8", "int_type": "i8"},
     "b8l": {"type": "C", "float_type": ">f8", "int_type": ">i8"},
     "b8": {"type": "C", "float_type": ">f8", "int_type": ">i4"},
     "b4": {"type": "C", "float_type": ">f4", "int_type": ">i4"},
-- 
2.43.0


From 8ed8f6054ca228295623d1a474ece1669acbca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 065/191] fix: UGRID writer wrote unreadable files for 2D
 points

---
 src/meshio/ugrid/_ugrid.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index b04e349..280547d 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -182,7 +182,16 @@ def _write_buffer(f, file_type, mesh):
         "hexahedron": -1,
     }
 
-    ugrid_counts["points"] = mesh.points.shape[0]
+    if mesh.points.shape[1] == 2:
+        warn(
+            "UGRID requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+    else:
+        points = mesh.points
+
+    ugrid_counts["points"] = points.shape[0]
 
     for i, cell_block in enumerate(mesh.cells):
         key = cell_block.type
@@ -225,7 +234,7 @@ def _write_buffer(f, file_type, mesh):
         fortran_header = np.array([fortran_header])
         _write_section(f, file_type, fortran_header, itype)
 
-    _write_section(f, file_type, mesh.points, ftype)
+    _write_section(f, file_type, points, ftype)
 
     for key in ["triangle", "quad"]:
         if ugrid_counts[key] == 0:
-- 
2.43.0


From 5e7fdcbde9437ae36fbc330931ece837e6b04a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:48 +0000
Subject: [PATCH 066/191] fix: UGRID writer wrote wrong Fortran record lengths

---
 src/meshio/ugrid/_ugrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 280547d..c86c0f4 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -213,7 +213,7 @@ def _write_buffer(f, file_type, mesh):
     # it has to be before and after each record
     fortran_header = None
     if file_type["type"] == "F":
-        fortran_header = np.array([nitems.nbytes])
+        fortran_header = np.array([nitems.size * np.dtype(itype).itemsize])
         _write_section(f, file_type, fortran_header, itype)
 
     _write_section(f, file_type, nitems, itype)
@@ -223,9 +223,10 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.nbytes
+        fortran_header = points.size * np.dtype(ftype).itemsize
         for cell_block in mesh.cells:
-            fortran_header += cell_block.data.nbytes
+            if cell_block.type in ugrid_counts:
+                fortran_header += cell_block.data.size * np.dtype(itype).itemsize
         # boundary tags
         if ugrid_counts["triangle"] > 0:
             fortran_header += ugrid_counts["triangle"] * np.dtype(itype).itemsize
-- 
2.43.0


From 12627fe723e748dbad314d4c9bef6185a1ec9a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 067/191] fix: neuroglancer reader accepted triangles referring
 to the vertex after the last one

---
 src/meshio/neuroglancer/_neuroglancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index ad48cc2..fd0e3e5 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -71,7 +71,7 @@ def read_buffer(file):
         raise ReadError("The size of the precomputed mesh data is not adequate")
     flat_triangles = np.frombuffer(buf, "<I")
     triangles = np.reshape(flat_triangles, (-1, 3)).copy(order="C")  # TODO remove copy
-    if np.any(triangles > num_vertices):
+    if np.any(triangles >= num_vertices):
         raise ReadError("The mesh references nonexistent vertices")
 
     return Mesh(vertices, [CellBlock("triangle", triangles)])
-- 
2.43.0


From b478626d533c55f678777779dbe5de1b8929cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 068/191] fix: neuroglancer files of 2D meshes were garbage
 (two coordinates per vertex)

---
 src/meshio/neuroglancer/_neuroglancer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index fd0e3e5..dd6ef81 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -27,6 +27,12 @@ def write_buffer(f, mesh):
     :param meshio.Mesh mesh: Mesh object to write
     """
     vertices = np.asarray(mesh.points, "<f")
+    if vertices.shape[1] == 2:
+        warn(
+            "Neuroglancer requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        vertices = np.column_stack([vertices, np.zeros_like(vertices[:, 0])])
     skip = [c for c in mesh.cells if c.type != "triangle"]
     if skip:
         warn('Neuroglancer only supports triangle cells. Skipping {", ".join(skip)}.')
-- 
2.43.0


From 4b1fde31255de75478e10220f845665aa0e43d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 069/191] fix: WKT numbers with exponents couldn't be read,
 malformed input took exponential time

---
 src/meshio/wkt/_wkt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 588f504..c8a9286 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,7 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)"
+float_pattern = r"[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
-- 
2.43.0


From 651ec6998f3aef2d6c26cb1c397be6cea3339d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 070/191] fix: ASCII STL files ending with a blank line
 couldn't be read

---
 src/meshio/stl/_stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 8be0eed..9c16732 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -65,7 +65,7 @@ def iter_loadtxt(
 
         for line in infile:
             line = line.decode().strip()
-            if line.startswith(comments):
+            if not line or line.startswith(comments):
                 continue
             # remove all text
             items = line.split()[-3:]
-- 
2.43.0


From 431a0b02f3e0977d53254a87148e279f18b05972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 071/191] fix: OFF counts separated by several blanks or tabs
 couldn't be read

---
 src/meshio/off/_off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index c3b670b..f9d5410 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -37,7 +37,7 @@ def read_buffer(f):
 
     # This next line contains:
     # <number of vertices> <number of faces> <number of edges>
-    num_verts, num_faces, _ = line.split(" ")
+    num_verts, num_faces, _ = line.split()
     num_verts = int(num_verts)
     num_faces = int(num_faces)
 
-- 
2.43.0


From a3bece2f8c8b85f42b9069f82303a2b47011b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 072/191] fix: OBJ faces with negative (relative) indices were
 read wrongly

---
 src/meshio/obj/_obj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index d520818..5a8c211 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -52,6 +52,8 @@ def read_buffer(f):
             pass
         elif split[0] == "f":
             dat = [int(item.split("/")[0]) for item in split[1:]]
+            # negative indices count back from the latest vertex
+            dat = [len(points) + 1 + k if k < 0 else k for k in dat]
             if len(face_groups) == 0 or (
                 len(face_groups[-1]) > 0 and len(face_groups[-1][-1]) != len(dat)
             ):
-- 
2.43.0


From b04d5bf0c6d3cdfb96f05d9af3818d8e6b20df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 073/191] fix: PLY int16/short/char/float64 properties couldn't
 be read, binary uchar was read as signed

---
 src/meshio/ply/_ply.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4393cbc..3453d8f 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -29,6 +29,7 @@ ply_to_numpy_dtype = {
     "ushort": np.uint16,
     "int": np.int32,
     "int8": np.int8,
+    "int16": np.int16,
     "int32": np.int32,
     "int64": np.int64,
     "uint": np.uint32,
@@ -264,19 +265,7 @@ def _read_binary(
     cell_data_dtypes,
 ):
     ply_to_numpy_dtype_string = {
-        "uchar": "i1",
-        "uint": "u4",
-        "uint8": "u1",
-        "uint16": "u2",
-        "uint32": "u4",
-        "uint64": "u8",
-        "int": "i4",
-        "int8": "i1",
-        "int32": "i4",
-        "int64": "i8",
-        "float": "f4",
-        "float32": "f4",
-        "double": "f8",
+        key: np.dtype(value).str[1:] for key, value in ply_to_numpy_dtype.items()
     }
 
     # read point data
-- 
2.43.0


From 6dd03171b5d83e0dce5d2b21a2294816779dc66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 074/191] fix: PLY files of 2D meshes, of one vertex, or with
 coordinates after other properties couldn't be read

---
 src/meshio/ply/_ply.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 3453d8f..3df88a3 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -186,25 +186,15 @@ def _read_ascii(
             for name, fmt in zip(point_data_names, point_data_formats)
         ]
     )
-    pd = np.genfromtxt(f, max_rows=num_verts, dtype=dtype)
+    # genfromtxt returns a 0-dimensional array if there's only one row
+    pd = np.atleast_1d(np.genfromtxt(f, max_rows=num_verts, dtype=dtype))
 
     # split off coordinate data and additional point data
-    verts = []
-    k = 0
-    if point_data_names[0] == "x":
-        verts.append(pd["x"])
-        k += 1
-    if point_data_names[1] == "y":
-        verts.append(pd["y"])
-        k += 1
-    if point_data_names[2] == "z":
-        verts.append(pd["z"])
-        k += 1
-    verts = np.column_stack(verts)
+    coord_names = [name for name in ["x", "y", "z"] if name in point_data_names]
+    verts = np.column_stack([pd[name] for name in coord_names])
 
     point_data = {
-        point_data_names[i]: pd[point_data_names[i]]
-        for i in range(k, len(point_data_names))
+        name: pd[name] for name in point_data_names if name not in coord_names
     }
     cell_data = {}
 
@@ -276,11 +266,10 @@ def _read_binary(
     point_data = np.frombuffer(
         f.read(num_verts * np.dtype(dtype).itemsize), dtype=dtype
     )
-    verts = np.column_stack([point_data["x"], point_data["y"], point_data["z"]])
+    coord_names = [name for name in ["x", "y", "z"] if name in point_data_names]
+    verts = np.column_stack([point_data[name] for name in coord_names])
     point_data = {
-        name: point_data[name]
-        for name in point_data_names
-        if name not in ["x", "y", "z"]
+        name: point_data[name] for name in point_data_names if name not in coord_names
     }
 
     # Convert strings to proper numpy dtypes
-- 
2.43.0


From aa6eec74c1c3924567c9d2e3776deb3f6454392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 075/191] fix: ASCII PLY face data was mixed up if faces of
 different size alternate

---
 src/meshio/ply/_ply.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 3df88a3..e248904 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -4,7 +4,6 @@ I/O for the PLY format, cf.
 <https://web.archive.org/web/20161221115231/http://www.cs.virginia.edu/~gfx/Courses/2001/Advanced.spring.01/plylib/Ply.txt>.
 """
 
-import collections
 import datetime
 import re
 import sys
@@ -196,49 +195,39 @@ def _read_ascii(
     point_data = {
         name: pd[name] for name in point_data_names if name not in coord_names
     }
-    cell_data = {}
-
     cell_blocks = []
+    # one list of values per cell block
+    cell_data = {name: [] for name in cell_data_names if name != "vertex_indices"}
 
-    for k in range(num_cells):
+    for _ in range(num_cells):
         line = f.readline().decode().strip()
         data = line.split()
 
-        if k == 0:
-            # initialize the cell data arrays
-            i = 0
-            cell_data = {}
-            for name, dtype in zip(cell_data_names, cell_dtypes):
-                if name == "vertex_indices":
-                    n = int(data[i])
-                    i += n + 1
-                else:
-                    cell_data[name] = collections.defaultdict(list)
-                    i += 1
-
         # go over the line
         i = 0
-        n = None
+        values = {}
         for name, dtype in zip(cell_data_names, cell_dtypes):
             if name == "vertex_indices":
-                idx_dtype, value_dtype = dtype
-                n = ply_to_numpy_dtype[idx_dtype](data[i])
+                _, value_dtype = dtype
+                n = int(data[i])
                 dtype = ply_to_numpy_dtype[value_dtype]
                 idx = dtype(data[i + 1 : i + n + 1])
                 if len(cell_blocks) == 0 or len(cell_blocks[-1][1][-1]) != n:
                     cell_blocks.append((cell_type_from_count(n), [idx]))
+                    for value in cell_data.values():
+                        value.append([])
                 else:
                     cell_blocks[-1][1].append(idx)
                 i += n + 1
             else:
-                dtype = ply_to_numpy_dtype[dtype]
-                # use n from vertex_indices
-                assert n is not None
-                cell_data[name][n] += [dtype(data[j]) for j in range(i, i + 1)]
+                values[name] = ply_to_numpy_dtype[dtype](data[i])
                 i += 1
 
+        for name, value in values.items():
+            cell_data[name][-1].append(value)
+
     cell_data = {
-        key: [np.array(v) for v in value.values()] for key, value in cell_data.items()
+        key: [np.array(v) for v in value] for key, value in cell_data.items()
     }
 
     return Mesh(verts, cell_blocks, point_data=point_data, cell_data=cell_data)
-- 
2.43.0


From 2427584cad33cd1556227f38631fcbc1ac816c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 076/191] fix: binary PLY files with face data were read as
 garbage

---
 src/meshio/ply/_ply.py | 43 +++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index e248904..e098e3f 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -280,21 +280,38 @@ def _read_binary(
     buffer = memoryview(bytearray(f.read()))
     buffer_position = 0
 
-    cell_data = {}
-    for name, dt in zip(cell_data_names, dts):
-        if isinstance(dt, tuple):
-            buffer_increment, cell_data[name] = _read_binary_list(
-                buffer[buffer_position:], dt[0], dt[1], num_cells, endianness
-            )
-        else:
-            buffer_increment = np.dtype(dt).itemsize
-            cell_data[name] = np.frombuffer(
-                buffer[buffer_position : buffer_position + buffer_increment], dtype=dt
-            )[0]
-        buffer_position += buffer_increment
+    if cell_data_names == ["vertex_indices"]:
+        _, cells = _read_binary_list(
+            buffer, dts[0][0], dts[0][1], num_cells, endianness
+        )
+        return Mesh(verts, cells, point_data=point_data)
 
-    cells = cell_data.pop("vertex_indices", [])
+    # The properties of a face are stored next to each other
+    cells = []
+    cell_data = {name: [] for name in cell_data_names if name != "vertex_indices"}
+    for _ in range(num_cells):
+        values = {}
+        for name, dt in zip(cell_data_names, dts):
+            count = 1
+            if isinstance(dt, tuple):
+                count = int(np.frombuffer(buffer, dt[0], 1, buffer_position)[0])
+                buffer_position += np.dtype(dt[0]).itemsize
+                dt = dt[1]
+            values[name] = np.frombuffer(buffer, dt, count, buffer_position)
+            buffer_position += values[name].nbytes
+
+        idx = values.pop("vertex_indices")
+        if len(cells) == 0 or len(cells[-1][1][-1]) != len(idx):
+            cells.append((cell_type_from_count(len(idx)), []))
+            for value in cell_data.values():
+                value.append([])
+        cells[-1][1].append(idx)
+        for name, value in values.items():
+            cell_data[name][-1].append(value[0])
 
+    cell_data = {
+        key: [np.array(v) for v in value] for key, value in cell_data.items()
+    }
     return Mesh(verts, cells, point_data=point_data, cell_data=cell_data)
 
 
-- 
2.43.0


From 3cc3617004edb8f6bfebcaae4fabb6763cb7acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 077/191] fix: PLY files with the face property named
 vertex_index couldn't be read

---
 src/meshio/ply/_ply.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index e098e3f..f6e92c1 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -133,7 +133,11 @@ def read_buffer(f):
                     m = re.match("property (.+) (.+)", line)
                     assert m is not None
                     cell_data_dtypes.append(m.groups()[0])
-                cell_data_names.append(m.groups()[-1])
+                name = m.groups()[-1]
+                # both names are in use
+                cell_data_names.append(
+                    "vertex_indices" if name == "vertex_index" else name
+                )
                 line = _next_line(f)
         else:
             raise ReadError(
-- 
2.43.0


From 31618f2f69367c8dfd31c2b47cd2e642cf84a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:31 +0000
Subject: [PATCH 078/191] fix: Tecplot files of meshes with cells of different
 dimension had the wrong zone type or weren't written

---
 src/meshio/tecplot/_tecplot.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 4acf2c3..aba8fcf 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -406,16 +406,22 @@ def write(filename, mesh):
             ]
         )
     else:
-        # Check if the mesh contains 2D and 3D cells
+        # Check if the mesh contains cells of different dimension
         num_dims = [meshio_type_to_ndim[mesh.cells[ic].type] for ic in cell_blocks]
+        max_dim = max(num_dims)
 
-        # Skip 2D cells if it does
-        if len(np.unique(num_dims)) == 2:
-            warn("Mesh contains 2D and 3D cells. Skipping 2D cells.")
-            cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
+        # Skip the lower-dimensional cells if it does
+        if len(np.unique(num_dims)) > 1:
+            warn(
+                "Mesh contains cells of different dimension. "
+                f"Skipping all but {max_dim}D cells."
+            )
+            cell_blocks = [
+                ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == max_dim
+            ]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
-        zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
+        zone_type = "FEQUADRILATERAL" if max_dim == 2 else "FEBRICK"
         cells = np.concatenate(
             [
                 mesh.cells[ic].data[:, meshio_to_tecplot_order_2[mesh.cells[ic].type]]
-- 
2.43.0


From 8fc85cf287ca5fb902482122477295467e5f04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:31 +0000
Subject: [PATCH 079/191] fix: Tecplot reader stumbled over blank lines and
 hung on truncated files

---
 src/meshio/tecplot/_tecplot.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index aba8fcf..0317c98 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -113,6 +113,17 @@ def readline(f):
     return line
 
 
+def next_line(f):
+    """Next line that's neither blank nor a comment."""
+    while True:
+        line = f.readline()
+        if not line:
+            raise ReadError("Unexpected end of file")
+        line = line.strip()
+        if line and not line.startswith("#"):
+            return line
+
+
 def read_buffer(f):
     variables = None
     num_data = None
@@ -123,7 +134,7 @@ def read_buffer(f):
     cells = None
 
     while True:
-        line = readline(f)
+        line = next_line(f)
 
         if line.upper().startswith("VARIABLES"):
             # Multilines for VARIABLES appears to work only if
@@ -152,7 +163,7 @@ def read_buffer(f):
             # is valid (and understood by ParaView and VisIt).
             info_lines = [line]
             i = f.tell()
-            line = readline(f).upper()
+            line = next_line(f).upper()
             while True:
                 # check if the first entry can be converted to a float
                 try:
@@ -160,7 +171,7 @@ def read_buffer(f):
                 except ValueError:
                     info_lines += [line]
                     i = f.tell()
-                    line = readline(f).upper()
+                    line = next_line(f).upper()
                 else:
                     f.seek(i)
                     break
@@ -187,9 +198,6 @@ def read_buffer(f):
 
             break  # Only support one zone, no need to read the rest
 
-        elif not line:
-            break
-
     assert num_data is not None
     assert zone_format is not None
     assert zone_type is not None
@@ -361,17 +369,15 @@ def _parse_fezone(zone, variables):
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = readline(f).split()
-        if line:
-            data += [[float(x) for x in line]]
-            count += len(line) if zone_format == "FEBLOCK" else 1
+        line = next_line(f).split()
+        data += [[float(x) for x in line]]
+        count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = readline(f).split()
-        if line:
-            cells += [[[int(x) for x in line]]]
-            count += 1
+        line = next_line(f).split()
+        cells += [[[int(x) for x in line]]]
+        count += 1
 
     return data, np.concatenate(cells)
 
-- 
2.43.0


From 84e7000736a8768c5bb73eaf3b212a84af562d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:31 +0000
Subject: [PATCH 080/191] fix: Tecplot variables on continuation lines were
 renamed to upper case

---
 src/meshio/tecplot/_tecplot.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 0317c98..2afded2 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -105,14 +105,6 @@ def read(filename):
     return out
 
 
-def readline(f):
-    line = f.readline().strip()
-    while line.startswith("#"):
-        line = f.readline().strip()
-
-    return line
-
-
 def next_line(f):
     """Next line that's neither blank nor a comment."""
     while True:
@@ -141,12 +133,12 @@ def read_buffer(f):
             # variable name is double quoted
             lines = [line]
             i = f.tell()
-            line = readline(f).upper()
+            line = next_line(f)
             while True:
                 if line.startswith('"'):
                     lines += [line]
                     i = f.tell()
-                    line = readline(f).upper()
+                    line = next_line(f)
                 else:
                     f.seek(i)
                     break
-- 
2.43.0


From e0cf915939fcbe07b646246d3ac97b7116c39e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:31 +0000
Subject: [PATCH 081/191] fix: AVS-UCD files with one node couldn't be read

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 5fdbfe6..1f7a4a1 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -78,7 +78,7 @@ def read_buffer(f):
 
 def _read_nodes(f, num_nodes):
     if num_nodes > 0:
-        data = np.genfromtxt(f, max_rows=num_nodes)
+        data = np.atleast_2d(np.genfromtxt(f, max_rows=num_nodes))
     else:
         data = np.empty((0, 3))
     points_ids = {int(pid): i for i, pid in enumerate(data[:, 0])}
-- 
2.43.0


From cc5676e6af9be43b9d10e7b4fe4782bf8b65d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:31 +0000
Subject: [PATCH 082/191] fix: DOLFIN reader took the data files of meshes with
 similar names

---
 src/meshio/dolfin/_dolfin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index e43dbd5..69b19e1 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -94,7 +94,7 @@ def _read_cell_data(filename):
     for f in os.listdir(dir_name):
         # Check if there are files by the name "<filename>_*.xml"; if yes,
         # extract the * pattern and make it the name of the data set.
-        out = re.match(f"{basename}_([^\\.]+)\\.xml", f)
+        out = re.fullmatch(f"{re.escape(basename)}_([^\\.]+)\\.xml", f)
         if not out:
             continue
         name = out.group(1)
-- 
2.43.0


From 6fc1abce9e845af37479ac82be4797506b38a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:31 +0000
Subject: [PATCH 083/191] fix: DOLFIN writer only stored the cell data of the
 last cell block

---
 src/meshio/dolfin/_dolfin.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 69b19e1..06195f4 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -228,12 +228,13 @@ def write(filename, mesh):
 
     _write_mesh(filename, mesh.points, cell_type, mesh.cells)
 
-    for name, lst in mesh.cell_data.items():
-        for data in lst:
-            fname = os.path.splitext(filename)[0]
-            cell_data_filename = f"{fname}_{name}.xml"
-            dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-            _write_cell_data(cell_data_filename, dim, np.array(data))
+    for name in mesh.cell_data:
+        # only the data of the cells that are actually written
+        data = mesh.get_cell_data(name, cell_type)
+        fname = os.path.splitext(filename)[0]
+        cell_data_filename = f"{fname}_{name}.xml"
+        dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
+        _write_cell_data(cell_data_filename, dim, data)
 
 
 register_format("dolfin-xml", [".xml"], read, {"dolfin-xml": write})
-- 
2.43.0


From fd2f84721a67614e5dbfcf667c353329c08942f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:26 +0000
Subject: [PATCH 084/191] fix: AVS-UCD files with cell data and several cell
 blocks couldn't be read

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 1f7a4a1..a149a55 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -69,7 +69,7 @@ def read_buffer(f):
     # Read cell data
     if num_cell_data:
         cdata = _read_data(f, num_cells, cell_ids)
-        sections = np.cumsum([len(c[1]) for c in cells[:-1]])
+        sections = np.cumsum([len(c) for c in cells[:-1]])
         for k, v in cdata.items():
             cell_data[k] = np.split(v, sections)
 
-- 
2.43.0


From 2fd242c196d1c17c5e47e4af1dbc7b37fdf1da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:26 +0000
Subject: [PATCH 085/191] fix: FLAC3D meshes with faces couldn't be written,
 sets of the caller's mesh were modified

---
 src/meshio/flac3d/_flac3d.py | 97 ++++++++++++------------------------
 1 file changed, 32 insertions(+), 65 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 45ea0d9..c596d4c 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -364,67 +364,37 @@ def split_f_z(mesh):
         elif cell_block.type in meshio_only["face"]:
             fcells.append(cell_block)
 
-    zsets = {}
-    fsets = {}
-    for key, cset in mesh.cell_sets.items():
-        zsets[key] = []
-        fsets[key] = []
-        for cell_block, sblock in zip(mesh.cells, cset):
-            zsets[key].append(
-                sblock if cell_block.type in meshio_only["zone"] else None
-            )
-            fsets[key].append(
-                sblock if cell_block.type in meshio_only["face"] else None
-            )
+    return zcells, fcells, _global_sets(mesh, "zone"), _global_sets(mesh, "face")
 
-    # remove the data that is only None
-    zsets = {
-        key: value
-        for key, value in zsets.items()
-        if not all(item is None for item in value)
-    }
-    fsets = {
-        key: value
-        for key, value in fsets.items()
-        if not all(item is None for item in value)
-    }
 
-    # Right now, the zsets contain indices into the corresponding cell block.
-    # FLAC3D expects _global_ indices. Update.
-    cell_block_sizes = [len(cb) for cb in zcells]
-    for key, data in zsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    # TODO not sure if fcells and zcells share a common global index
-    cell_block_sizes = [len(cb) for cb in fcells]
-    for key, data in fsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    for label, values in zsets.items():
-        zsets[label] = np.concatenate(values)
-    for label, values in fsets.items():
-        fsets[label] = np.concatenate(values)
-
-    # flac3d indices start at 1
-    for label, values in zsets.items():
-        zsets[label] += 1
-    for label, values in fsets.items():
-        fsets[label] += 1
-
-    return zcells, fcells, zsets, fsets
+def _global_sets(mesh, flag):
+    # The cell sets contain indices into the corresponding cell block. FLAC3D expects
+    # _global_ indices into the zones or faces, starting at 1.
+    sets = {}
+    for key, cset in mesh.cell_sets.items():
+        values = []
+        gid = 1
+        for cell_block, sblock in zip(mesh.cells, cset):
+            if cell_block.type not in meshio_only[flag]:
+                continue
+            if sblock is not None:
+                values.append(np.asarray(sblock, dtype=int) + gid)
+            gid += len(cell_block)
+        # skip sets that have nothing to do with this kind of cell
+        if values:
+            sets[key] = np.concatenate(values)
+    return sets
 
 
 def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
     """Write FLAC3D f3grid grid file."""
-    skip = [c.type for c in mesh.cells if c.type not in meshio_only["zone"]]
+    skip = [
+        c.type
+        for c in mesh.cells
+        if c.type not in meshio_only["zone"] and c.type not in meshio_only["face"]
+    ]
     if skip:
-        warn(f'FLAC3D format only supports 3D cells. Skipping {", ".join(skip)}.')
+        warn(f'FLAC3D format only supports 2D and 3D cells. Skipping {", ".join(skip)}.')
 
     # split into face/zone data
     zcells, fcells, zsets, fsets = split_f_z(mesh)
@@ -439,16 +409,13 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
             f.write(f"* {time.ctime()}\n")
 
         _write_points(f, mesh.points, binary, float_fmt)
-        # Make gid an array such that its value can be persitently altered
-        # inside the functions.
-        gid = np.array(0)
-        #
-        cells = _translate_zcells(mesh.points, mesh.cells)
-        _write_cells(f, cells, "zone", binary, gid)
+        # zones and faces are numbered independently
+        cells = _translate_zcells(mesh.points, zcells)
+        _write_cells(f, cells, "zone", binary)
         _write_groups(f, mesh.cells, zsets, "zone", binary)
         #
         cells = _translate_fcells(fcells)
-        _write_cells(f, cells, "face", binary, gid)
+        _write_cells(f, cells, "face", binary)
         _write_groups(f, mesh.cells, fsets, "face", binary)
 
 
@@ -465,8 +432,9 @@ def _write_points(f, points, binary, float_fmt=None):
             f.write(fmt.format(i + 1, *point))
 
 
-def _write_cells(f, cells, flag: str, binary: bool, gid):
+def _write_cells(f, cells, flag: str, binary: bool):
     """Write cells."""
+    gid = 0
     if binary:
         f.write(
             struct.pack(
@@ -567,10 +535,9 @@ def _translate_fcells(cells):
     """Reorder meshio cells to FLAC3D faces."""
     faces = []
     for cell_block in cells:
-        ctype, data = cell_block
-        assert ctype in meshio_only["face"]
+        assert cell_block.type in meshio_only["face"]
 
-        key = meshio_only["face"][ctype]
+        key = meshio_only["face"][cell_block.type]
         data = cell_block.data[:, meshio_to_flac3d_order[key]]
         faces.append((key, data))
 
-- 
2.43.0


From 9179ad6be90b9c5d48a54197f5a87122ffcc0bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:26 +0000
Subject: [PATCH 086/191] fix: FLAC3D cell sets contained mesh-wide instead of
 block-wise indices

---
 src/meshio/flac3d/_flac3d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index c596d4c..43e04e9 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -238,7 +238,10 @@ def read_buffer(f, binary):
     bins = np.cumsum([len(cb[1]) for cb in cell_blocks])
     for key, data in cell_sets.items():
         d = np.digitize(data, bins)
-        cell_sets[key] = [data[d == k] for k in range(len(cell_blocks))]
+        cell_sets[key] = [
+            data[d == k] - (bins[k] - len(cell_blocks[k][1]))
+            for k in range(len(cell_blocks))
+        ]
 
     # assert len(cell_ids) == sum(len(block) for _, block in cell_blocks)
 
-- 
2.43.0


From 1c16ca5ada92b7db2c992b11decd0b576537e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:26 +0000
Subject: [PATCH 087/191] fix: FLAC3D files with empty groups couldn't be read

---
 src/meshio/flac3d/_flac3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 43e04e9..8cda58b 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -156,7 +156,7 @@ def read_buffer(f, binary):
             (num_groups,) = struct.unpack("<I", f.read(4))
             for _ in range(num_groups):
                 name, slot, data = _read_cell_group_binary(f)
-                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data)
+                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data, dtype=int)
     else:
         while True:
             line = f.readline()
@@ -190,13 +190,13 @@ def read_buffer(f, binary):
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data)
+                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data, dtype=int)
 
             elif split[0] == "FGROUP":
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data)
+                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data, dtype=int)
 
     cells = f_cells + z_cells
 
-- 
2.43.0


From adf0cdbd6a445d0ad89b3146057ac5d87b365841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:26 +0000
Subject: [PATCH 088/191] fix: binary FLAC3D files with non-ASCII group names
 were corrupt

---
 src/meshio/flac3d/_flac3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 8cda58b..00c03e5 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -479,11 +479,12 @@ def _write_groups(f, cells, materials, flag, binary) -> None:
     if binary:
         f.write(struct.pack("<I", len(materials)))
         for label, group in materials.items():
+            label = label.encode()
             num_chars, num_zones = len(label), len(group)
             fmt = f"<H{num_chars}sH7sI{num_zones}I"
             tmp = [
                 num_chars,
-                label.encode(),
+                label,
                 7,
                 b"Default",  # slot
                 num_zones,
-- 
2.43.0


From cfebd4e5ee31288c6826d1f589ec6d25e2ab4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:31 +0000
Subject: [PATCH 089/191] fix: binary PLY files with vertex cells couldn't be
 read

---
 src/meshio/ply/_ply.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index f6e92c1..eb7ae98 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -368,7 +368,7 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
         block_buffer = buffer[byte_starts_ends[start] : byte_starts_ends[end]]
         cells_per_row = (row_lengths[start] - count_itemsize) // data_itemsize
         block_dtype = np.dtype(
-            [("count", count_dtype), ("data", data_dtype * cells_per_row)]
+            [("count", count_dtype), ("data", data_dtype, (cells_per_row,))]
         )
         cells = np.frombuffer(block_buffer, dtype=block_dtype)["data"]
 
-- 
2.43.0


From 0b9fa3124fb1fc743a015ee3278d5716e1fc34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:31 +0000
Subject: [PATCH 090/191] fix: ASCII PLY files with property names that aren't
 identifiers couldn't be read

---
 src/meshio/ply/_ply.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index eb7ae98..60080c5 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -183,14 +183,13 @@ def _read_ascii(
 
     # assert that all formats are the same
     # Now read the data
+    # genfromtxt alters names which aren't valid Python identifiers, so use neutral ones
     dtype = np.dtype(
-        [
-            (name, ply_to_numpy_dtype[fmt])
-            for name, fmt in zip(point_data_names, point_data_formats)
-        ]
+        [(f"c{k}", ply_to_numpy_dtype[fmt]) for k, fmt in enumerate(point_data_formats)]
     )
     # genfromtxt returns a 0-dimensional array if there's only one row
     pd = np.atleast_1d(np.genfromtxt(f, max_rows=num_verts, dtype=dtype))
+    pd = {name: pd[f"c{k}"] for k, name in enumerate(point_data_names)}
 
     # split off coordinate data and additional point data
     coord_names = [name for name in ["x", "y", "z"] if name in point_data_names]
-- 
2.43.0


From ec94faa439dd0bef679f115921cb5ed064cdbba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:31 +0000
Subject: [PATCH 091/191] fix: Tecplot files with point and cell data of the
 same name couldn't be read

---
 src/meshio/tecplot/_tecplot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 2afded2..9f23592 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -203,14 +203,12 @@ def read_buffer(f):
         if zone_format == "FEBLOCK"
         else np.transpose(data)
     )
-    data = {k: v for k, v in zip(variables, data)}
-
     point_data, cell_data = {}, {}
-    for i, variable in zip(is_cell_centered, variables):
+    for i, variable, values in zip(is_cell_centered, variables, data):
         if i:
-            cell_data[variable] = [data[variable]]
+            cell_data[variable] = [values]
         else:
-            point_data[variable] = data[variable]
+            point_data[variable] = values
 
     x = "X" if "X" in point_data.keys() else "x"
     y = "Y" if "Y" in point_data.keys() else "y"
-- 
2.43.0


From a2b1cf8521dc911f92ca78e7467b7506cdbe7c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:24 +0000
Subject: [PATCH 092/191] fix: SVG pictures of meshes with integer coordinates
 couldn't be written

---
 src/meshio/svg/_svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/svg/_svg.py b/src/meshio/svg/_svg.py
index c361692..362ca98 100644
--- a/src/meshio/svg/_svg.py
+++ b/src/meshio/svg/_svg.py
@@ -28,7 +28,7 @@ def write(
             f"SVG can only handle flat 2D meshes (shape: {mesh.points.shape})"
         )
 
-    pts = mesh.points[:, :2].copy()
+    pts = mesh.points[:, :2].astype(float)
     min_x = np.min(pts[:, 0]) if len(pts) > 0 else 0.0
     max_x = np.max(pts[:, 0]) if len(pts) > 0 else 0.0
     min_y = np.min(pts[:, 1]) if len(pts) > 0 else 0.0
-- 
2.43.0


From ad3ac8aa38a969313911fc5d8afab16c4c51390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:11 +0000
Subject: [PATCH 093/191] fix: Tecplot triangles/tetrahedra were turned into
 quads/bricks by lower-dimensional cells

---
 src/meshio/tecplot/_tecplot.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 9f23592..6a07136 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -388,11 +388,22 @@ def write(filename, mesh):
                 ).format(c.type, ic)
             )
 
-    # Define cells and zone type
-    cell_types = np.unique(cell_types)
     if len(cell_types) == 0:
         raise WriteError("No cell type supported by Tecplot in mesh")
-    elif len(cell_types) == 1:
+
+    # Skip the lower-dimensional cells if the mesh contains cells of different dimension
+    num_dims = [meshio_type_to_ndim[cell_type] for cell_type in cell_types]
+    max_dim = max(num_dims)
+    if min(num_dims) < max_dim:
+        warn(
+            "Mesh contains cells of different dimension. "
+            f"Skipping all but {max_dim}D cells."
+        )
+        cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == max_dim]
+
+    # Define cells and zone type
+    cell_types = np.unique([mesh.cells[ic].type for ic in cell_blocks])
+    if len(cell_types) == 1:
         # Nothing much to do except converting pyramids and wedges to hexahedra
         zone_type = meshio_to_tecplot_type[cell_types[0]]
         cells = np.concatenate(
@@ -402,20 +413,6 @@ def write(filename, mesh):
             ]
         )
     else:
-        # Check if the mesh contains cells of different dimension
-        num_dims = [meshio_type_to_ndim[mesh.cells[ic].type] for ic in cell_blocks]
-        max_dim = max(num_dims)
-
-        # Skip the lower-dimensional cells if it does
-        if len(np.unique(num_dims)) > 1:
-            warn(
-                "Mesh contains cells of different dimension. "
-                f"Skipping all but {max_dim}D cells."
-            )
-            cell_blocks = [
-                ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == max_dim
-            ]
-
         # Convert 2D cells to quads / 3D cells to hexahedra
         zone_type = "FEQUADRILATERAL" if max_dim == 2 else "FEBRICK"
         cells = np.concatenate(
-- 
2.43.0


From cc56fb7b326e202c46bee12907b0f98ddaf157a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 094/191] fix: cell_sets_dict was off if a cell set has no
 members (None) in a block, and failed for lists

---
 src/meshio/_mesh.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 28a5eb1..76e2468 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -288,14 +288,11 @@ class Mesh:
             sets_dict[key] = {}
             offsets = {}
             for members, cells in zip(member_list, self.cells):
+                offset = offsets.get(cells.type, 0)
+                offsets[cells.type] = offset + len(cells)
                 if members is None:
                     continue
-                if cells.type in offsets:
-                    offset = offsets[cells.type]
-                    offsets[cells.type] += cells.data.shape[0]
-                else:
-                    offset = 0
-                    offsets[cells.type] = cells.data.shape[0]
+                members = np.asarray(members, dtype=int)
                 if cells.type in sets_dict[key]:
                     sets_dict[key][cells.type].append(members + offset)
                 else:
-- 
2.43.0


From 1743704fea604e857011c20457f36d60c3713884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 095/191] fix: {cell,point}_data_to_sets gave entities without
 set the name of a set; point set names

---
 src/meshio/_mesh.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 76e2468..f317bf1 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -385,7 +385,8 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
+        # (-1 marks the entities which are in none of the sets)
+        if len(names) != len(tags) or tags[0] < 0:
             # alternative names
             names = [f"set-{key}-{tag}" for tag in tags]
 
@@ -413,9 +414,10 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
+        # (-1 marks the entities which are in none of the sets)
+        if len(names) != len(tags) or tags[0] < 0:
             # alternative names
-            names = [f"set-key-{tag}" for tag in tags]
+            names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
         # np.unique or np.sort
-- 
2.43.0


From 690328e48923f130afc100699f1f1ba7cd037c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 096/191] fix: meshio convert --int-data-to-sets failed for all
 meshes with point or cell data

---
 src/meshio/_cli/_convert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_cli/_convert.py b/src/meshio/_cli/_convert.py
index 1a2edd3..1710936 100644
--- a/src/meshio/_cli/_convert.py
+++ b/src/meshio/_cli/_convert.py
@@ -60,10 +60,12 @@ def convert(args):
         mesh.cell_sets_to_data()
 
     if args.int_data_to_sets:
-        for key in mesh.point_data:
-            mesh.point_data_to_sets(key)
-        for key in mesh.cell_data:
-            mesh.cell_data_to_sets(key)
+        for key, data in list(mesh.point_data.items()):
+            if data.dtype.kind in ["i", "u"]:
+                mesh.point_data_to_sets(key)
+        for key, data in list(mesh.cell_data.items()):
+            if all(d.dtype.kind in ["i", "u"] for d in data):
+                mesh.cell_data_to_sets(key)
 
     # write it out
     kwargs = {"file_format": args.output_format}
-- 
2.43.0


From c8f8fc5e611976d7e81c061d8557cbfd503ad45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 097/191] fix: meshio info failed if a cell refers to the point
 just after the last

---
 src/meshio/_cli/_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_cli/_info.py b/src/meshio/_cli/_info.py
index dc269e7..546cbac 100644
--- a/src/meshio/_cli/_info.py
+++ b/src/meshio/_cli/_info.py
@@ -24,7 +24,7 @@ def info(args):
     # check if the cell arrays are consistent with the points
     is_consistent = True
     for cells in mesh.cells:
-        if np.any(cells.data > mesh.points.shape[0]):
+        if np.any(cells.data >= mesh.points.shape[0]):
             warn("Inconsistent mesh. Cells refer to nonexistent points.")
             is_consistent = False
             break
-- 
2.43.0


From d0a503344f049e6eb33e8d2a98794f52807c7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 098/191] fix: PERMAS .post.gz and .dato.gz files are
 gzip-compressed

---
 src/meshio/permas/_permas.py | 116 ++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 51 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index 0535e04..8ffb701 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -2,6 +2,8 @@
 I/O for PERMAS dat files.
 """
 
+import gzip
+
 import numpy as np
 
 from ..__about__ import __version__
@@ -66,8 +68,12 @@ meshio_to_permas_order = {
 
 def read(filename):
     """Reads a PERMAS dat file."""
-    with open_file(filename, "r") as f:
-        out = read_buffer(f)
+    if str(filename).lower().endswith(".gz"):
+        with gzip.open(filename, "rt") as f:
+            out = read_buffer(f)
+    else:
+        with open_file(filename, "r") as f:
+            out = read_buffer(f)
     return out
 
 
@@ -242,55 +248,63 @@ def write(filename, mesh):
     else:
         points = mesh.points
 
-    with open_file(filename, "wt") as f:
-        f.write("!PERMAS DataFile Version 18.0\n")
-        f.write(f"!written by meshio v{__version__}\n")
-        f.write("$ENTER COMPONENT NAME=DFLT_COMP\n")
-        f.write("$STRUCTURE\n")
-        f.write("$COOR\n")
-        for k, x in enumerate(points):
-            f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
-        eid = 0
-        for cell_block in mesh.cells:
-            node_idcs = cell_block.data
-            f.write("!\n")
-            f.write("$ELEMENT TYPE=" + meshio_to_permas_type[cell_block.type] + "\n")
-            if cell_block.type == "tetra10":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in meshio_to_permas_order["tetra10"]]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "triangle6":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in meshio_to_permas_order["triangle6"]]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "quad9":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in meshio_to_permas_order["quad9"]]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "wedge15":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in meshio_to_permas_order["wedge15"]]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            else:
-                for row in node_idcs:
-                    eid += 1
-                    nids_strs = (str(nid + 1) for nid in row.tolist())
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-        f.write("$END STRUCTURE\n")
-        f.write("$EXIT COMPONENT\n")
-        f.write("$FIN\n")
+    if str(filename).lower().endswith(".gz"):
+        with gzip.open(filename, "wt") as f:
+            _write_buffer(f, points, mesh.cells)
+    else:
+        with open_file(filename, "wt") as f:
+            _write_buffer(f, points, mesh.cells)
+
+
+def _write_buffer(f, points, cells):
+    f.write("!PERMAS DataFile Version 18.0\n")
+    f.write(f"!written by meshio v{__version__}\n")
+    f.write("$ENTER COMPONENT NAME=DFLT_COMP\n")
+    f.write("$STRUCTURE\n")
+    f.write("$COOR\n")
+    for k, x in enumerate(points):
+        f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
+    eid = 0
+    for cell_block in cells:
+        node_idcs = cell_block.data
+        f.write("!\n")
+        f.write("$ELEMENT TYPE=" + meshio_to_permas_type[cell_block.type] + "\n")
+        if cell_block.type == "tetra10":
+            for row in node_idcs:
+                eid += 1
+                mylist = row.tolist()
+                mylist = [mylist[i] for i in meshio_to_permas_order["tetra10"]]
+                nids_strs = (str(nid + 1) for nid in mylist)
+                f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
+        elif cell_block.type == "triangle6":
+            for row in node_idcs:
+                eid += 1
+                mylist = row.tolist()
+                mylist = [mylist[i] for i in meshio_to_permas_order["triangle6"]]
+                nids_strs = (str(nid + 1) for nid in mylist)
+                f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
+        elif cell_block.type == "quad9":
+            for row in node_idcs:
+                eid += 1
+                mylist = row.tolist()
+                mylist = [mylist[i] for i in meshio_to_permas_order["quad9"]]
+                nids_strs = (str(nid + 1) for nid in mylist)
+                f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
+        elif cell_block.type == "wedge15":
+            for row in node_idcs:
+                eid += 1
+                mylist = row.tolist()
+                mylist = [mylist[i] for i in meshio_to_permas_order["wedge15"]]
+                nids_strs = (str(nid + 1) for nid in mylist)
+                f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
+        else:
+            for row in node_idcs:
+                eid += 1
+                nids_strs = (str(nid + 1) for nid in row.tolist())
+                f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
+    f.write("$END STRUCTURE\n")
+    f.write("$EXIT COMPONENT\n")
+    f.write("$FIN\n")
 
 
 register_format(
-- 
2.43.0


From 4a1223fe8a791ab9bd8854c6ad0dbbc3ccc158ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 099/191] fix: Netgen .VOL.GZ (any case) is gzip-compressed

---
 src/meshio/netgen/_netgen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 1fd2f72..882e254 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -108,7 +108,7 @@ for t, pmap in netgen_to_meshio_pmap.items():
 
 
 def read(filename):
-    if str(filename).endswith(".vol.gz"):
+    if str(filename).lower().endswith(".vol.gz"):
         import gzip
 
         with gzip.open(filename, "rt") as f:
@@ -353,7 +353,7 @@ def read_buffer(f):
 
 
 def write(filename, mesh, float_fmt=".16e"):
-    if str(filename).endswith(".vol.gz"):
+    if str(filename).lower().endswith(".vol.gz"):
         import gzip
 
         with gzip.open(filename, "wt") as f:
-- 
2.43.0


From a996353db05da6f43f045f0dddb1c6c242d88124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 100/191] fix: FLAC3D files can be read from buffers

---
 src/meshio/flac3d/_flac3d.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 00c03e5..a7a74ab 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -4,6 +4,7 @@ I/O for FLAC3D format.
 
 from __future__ import annotations
 
+import io
 import re
 import struct
 import time
@@ -13,7 +14,7 @@ import numpy as np
 from ..__about__ import __version__ as version
 from .._common import warn
 from .._exceptions import ReadError
-from .._files import open_file
+from .._files import is_buffer, open_file
 from .._helpers import register_format
 from .._mesh import Mesh
 
@@ -101,9 +102,20 @@ def read(filename):
     """Read FLAC3D f3grid grid file."""
     # Read a small block of the file to assess its type
     # See <https://code.activestate.com/recipes/173220/>
-    with open_file(filename, "rb") as f:
-        block = f.read(8)
-        binary = b"\x00" in block
+    if is_buffer(filename, "r"):
+        pos = filename.tell()
+        block = filename.read(8)
+        filename.seek(pos)
+        if isinstance(block, str):
+            binary = False
+        else:
+            binary = b"\x00" in block
+            if not binary:
+                filename = io.StringIO(filename.read().decode())
+    else:
+        with open_file(filename, "rb") as f:
+            block = f.read(8)
+            binary = b"\x00" in block
 
     mode = "rb" if binary else "r"
     with open_file(filename, mode) as f:
-- 
2.43.0


From 79bc5f01557bea47e26f9ba0bdca9a8c1eca2599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:11 +0000
Subject: [PATCH 101/191] fix: OBJ byte buffers are refused instead of giving
 an empty mesh

---
 src/meshio/obj/_obj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index 5a8c211..2bb3dcb 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -8,7 +8,7 @@ import datetime
 import numpy as np
 
 from ..__about__ import __version__
-from .._exceptions import WriteError
+from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -34,6 +34,9 @@ def read_buffer(f):
             # EOF
             break
 
+        if isinstance(line, (bytes, bytearray)):
+            raise ReadError("Expected text buffer, not bytes.")
+
         strip = line.strip()
 
         if len(strip) == 0 or strip[0] == "#":
-- 
2.43.0


From 39bef8185739144a69d141c2e53380c2a8930d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:26 +0000
Subject: [PATCH 102/191] fix: Exodus refuses buffers instead of leaving a
 stray file behind

---
 src/meshio/exodus/_exodus.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 5152221..0795d2a 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -13,7 +13,8 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import warn
-from .._exceptions import ReadError
+from .._exceptions import ReadError, WriteError
+from .._files import is_buffer
 from .._helpers import register_format
 from .._mesh import Mesh
 
@@ -69,6 +70,9 @@ meshio_to_exodus_type = {v: k for k, v in exodus_to_meshio_type.items()}
 def read(filename):  # noqa: C901
     import netCDF4
 
+    if is_buffer(filename, "r"):
+        raise ReadError("Exodus files cannot be read from a buffer")
+
     with netCDF4.Dataset(filename) as nc:
         # assert nc.version == np.float32(5.1)
         # assert nc.api_version == np.float32(5.1)
@@ -258,6 +262,9 @@ numpy_to_exodus_dtype = {
 def write(filename, mesh):
     import netCDF4
 
+    if is_buffer(filename, "w"):
+        raise WriteError("Exodus files cannot be written to a buffer")
+
     with netCDF4.Dataset(filename, "w") as rootgrp:
         # set global data
         now = datetime.datetime.now().isoformat()
-- 
2.43.0


From a29485e8b9ce8571a3387b45556ef0da693f12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:26 +0000
Subject: [PATCH 103/191] fix: TetGen and Medit binary file names in any case

---
 src/meshio/medit/_medit.py   | 4 ++--
 src/meshio/tetgen/_tetgen.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 3215d97..edbbc36 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -19,7 +19,7 @@ from ._medit_internal import medit_codes
 
 def read(filename):
     with open_file(filename) as f:
-        if str(filename)[-1] == "b":
+        if str(filename)[-1].lower() == "b":
             mesh = read_binary_buffer(f)
         else:
             mesh = read_ascii_buffer(f)
@@ -305,7 +305,7 @@ def read_ascii_buffer(f):
 
 
 def write(filename, mesh, float_fmt=".16e"):
-    if str(filename)[-1] == "b":
+    if str(filename)[-1].lower() == "b":
         write_binary_file(filename, mesh)
     else:
         write_ascii_file(filename, mesh, float_fmt)
diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index cf02102..991e5af 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -16,10 +16,10 @@ from .._mesh import CellBlock, Mesh
 
 def read(filename):
     filename = pathlib.Path(filename)
-    if filename.suffix == ".node":
+    if filename.suffix.lower() == ".node":
         node_filename = filename
         ele_filename = filename.parent / (filename.stem + ".ele")
-    elif filename.suffix == ".ele":
+    elif filename.suffix.lower() == ".ele":
         node_filename = filename.parent / (filename.stem + ".node")
         ele_filename = filename
     else:
@@ -95,10 +95,10 @@ def read(filename):
 
 def write(filename, mesh, float_fmt=".16e"):
     filename = pathlib.Path(filename)
-    if filename.suffix == ".node":
+    if filename.suffix.lower() == ".node":
         node_filename = filename
         ele_filename = filename.parent / (filename.stem + ".ele")
-    elif filename.suffix == ".ele":
+    elif filename.suffix.lower() == ".ele":
         node_filename = filename.parent / (filename.stem + ".node")
         ele_filename = filename
     else:
-- 
2.43.0


From fe6d4018978a6dcc393f9986f4b246b59bb9c3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:37 +0000
Subject: [PATCH 104/191] fix: UGRID encoding depends on the suffixes of the
 file name only

---
 src/meshio/ugrid/_ugrid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index c86c0f4..f562711 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -8,6 +8,8 @@ Node ordering described in
 [3] <https://www.simcenter.msstate.edu/software/documentation/ug_io/3d_input_output_grids.html>
 """
 
+import pathlib
+
 import numpy as np
 
 from .._common import _pick_first_int_data, warn
@@ -39,9 +41,10 @@ file_types = {
 
 def determine_file_type(filename):
     file_type = file_types["ascii"]
-    filename_parts = str(filename).split(".")
-    if len(filename_parts) > 1:
-        type_suffix = filename_parts[-2]
+    # only consider suffixes of the file name itself, not the stem or the directories
+    suffixes = pathlib.Path(str(filename)).suffixes
+    if len(suffixes) > 1:
+        type_suffix = suffixes[-2][1:].lower()
         if type_suffix in file_types.keys():
             file_type = file_types[type_suffix]
     return file_type
-- 
2.43.0


From 82eeb3e01c0adc90ef912127231b2679da8a9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:59 +0000
Subject: [PATCH 105/191] fix: write() accepts any PathLike

---
 src/meshio/_helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 0e6449c..74c62dd 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import copy
+import os
 import sys
 from pathlib import Path
 
@@ -157,6 +158,8 @@ def write(filename, mesh: Mesh, file_format: str | None = None, **kwargs):
                 "tetgen format is spread across multiple files, and so cannot be written to a buffer"
             )
     else:
+        # the writers expect strings, not arbitrary PathLikes
+        filename = os.fspath(filename)
         path = Path(filename)
         if not file_format:
             # deduce possible file formats from extension
-- 
2.43.0


From df6841c21329fc0f77764e72b01b64c6a6400e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 106/191] fix: check the width of triangle7 cells on writing

---
 src/meshio/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index a92ef0e..b957b3a 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -22,6 +22,7 @@ num_nodes_per_cell = {
     #
     "line3": 3,
     "triangle6": 6,
+    "triangle7": 7,
     "quad9": 9,
     "tetra10": 10,
     "hexahedron27": 27,
-- 
2.43.0


From 2290469f903e185a3afdd8a3d1b6bba722aa424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 107/191] fix: ascii, binary, compress, decompress keep the
 format of the file (.msh)

---
 src/meshio/_cli/_ascii.py      | 12 +++---------
 src/meshio/_cli/_binary.py     | 12 +++---------
 src/meshio/_cli/_compress.py   | 12 +++---------
 src/meshio/_cli/_decompress.py | 12 +++---------
 src/meshio/_helpers.py         |  8 +++++++-
 5 files changed, 19 insertions(+), 37 deletions(-)

diff --git a/src/meshio/_cli/_ascii.py b/src/meshio/_cli/_ascii.py
index 45aff5a..e3a452e 100644
--- a/src/meshio/_cli/_ascii.py
+++ b/src/meshio/_cli/_ascii.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -20,16 +20,10 @@ def add_args(parser):
 
 
 def ascii(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # an extension may belong to more than one format; get the one the file is in
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_binary.py b/src/meshio/_cli/_binary.py
index ccf0635..ef0d8ac 100644
--- a/src/meshio/_cli/_binary.py
+++ b/src/meshio/_cli/_binary.py
@@ -2,7 +2,7 @@ import os
 import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def binary(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # an extension may belong to more than one format; get the one the file is in
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_compress.py b/src/meshio/_cli/_compress.py
index 9103a0b..f40bad8 100644
--- a/src/meshio/_cli/_compress.py
+++ b/src/meshio/_cli/_compress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, cgns, gmsh, h5m, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -26,16 +26,10 @@ def add_args(parser):
 
 
 def compress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # an extension may belong to more than one format; get the one the file is in
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_decompress.py b/src/meshio/_cli/_decompress.py
index 3c67dda..384521c 100644
--- a/src/meshio/_cli/_decompress.py
+++ b/src/meshio/_cli/_decompress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import cgns, h5m, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def decompress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # an extension may belong to more than one format; get the one the file is in
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 74c62dd..e8a30ec 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -88,6 +88,12 @@ def _read_buffer(filename, file_format: str | None):
 
 
 def _read_file(path: Path, file_format: str | None):
+    mesh, _ = _read_file_and_format(path, file_format)
+    return mesh
+
+
+def _read_file_and_format(path: Path, file_format: str | None):
+    """Returns the mesh and which of the possible formats the file was read as."""
     if not path.exists():
         raise ReadError(f"File {path} not found.")
 
@@ -102,7 +108,7 @@ def _read_file(path: Path, file_format: str | None):
             raise ReadError(f"Unknown file format '{file_format}' of '{path}'.")
 
         try:
-            return reader_map[file_format](str(path))
+            return reader_map[file_format](str(path)), file_format
         except ReadError as e:
             print(e)
 
-- 
2.43.0


From 2ec4e4199ed2b7d576752686f31bd1c40b9d5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:04 +0000
Subject: [PATCH 108/191] fix: ascii, binary, compress, decompress do not
 destroy a file they cannot rewrite

---
 src/meshio/_cli/_ascii.py      |  2 ++
 src/meshio/_cli/_binary.py     |  2 ++
 src/meshio/_cli/_compress.py   |  2 ++
 src/meshio/_cli/_decompress.py |  2 ++
 src/meshio/_cli/_helpers.py    | 20 ++++++++++++++++++++
 5 files changed, 28 insertions(+)
 create mode 100644 src/meshio/_cli/_helpers.py

diff --git a/src/meshio/_cli/_ascii.py b/src/meshio/_cli/_ascii.py
index e3a452e..02bda0c 100644
--- a/src/meshio/_cli/_ascii.py
+++ b/src/meshio/_cli/_ascii.py
@@ -4,6 +4,7 @@ import pathlib
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
 from .._helpers import _read_file_and_format, reader_map
+from ._helpers import restore_on_failure
 
 
 def add_args(parser):
@@ -19,6 +20,7 @@ def add_args(parser):
     )
 
 
+@restore_on_failure
 def ascii(args):
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
diff --git a/src/meshio/_cli/_binary.py b/src/meshio/_cli/_binary.py
index ef0d8ac..d702160 100644
--- a/src/meshio/_cli/_binary.py
+++ b/src/meshio/_cli/_binary.py
@@ -3,6 +3,7 @@ import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
 from .._helpers import _read_file_and_format, reader_map
+from ._helpers import restore_on_failure
 
 
 def add_args(parser):
@@ -18,6 +19,7 @@ def add_args(parser):
     )
 
 
+@restore_on_failure
 def binary(args):
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
diff --git a/src/meshio/_cli/_compress.py b/src/meshio/_cli/_compress.py
index f40bad8..6cc137c 100644
--- a/src/meshio/_cli/_compress.py
+++ b/src/meshio/_cli/_compress.py
@@ -4,6 +4,7 @@ import pathlib
 from .. import ansys, cgns, gmsh, h5m, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
 from .._helpers import _read_file_and_format, reader_map
+from ._helpers import restore_on_failure
 
 
 def add_args(parser):
@@ -25,6 +26,7 @@ def add_args(parser):
     )
 
 
+@restore_on_failure
 def compress(args):
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
diff --git a/src/meshio/_cli/_decompress.py b/src/meshio/_cli/_decompress.py
index 384521c..6aa79f3 100644
--- a/src/meshio/_cli/_decompress.py
+++ b/src/meshio/_cli/_decompress.py
@@ -4,6 +4,7 @@ import pathlib
 from .. import cgns, h5m, vtu, xdmf
 from .._common import error
 from .._helpers import _read_file_and_format, reader_map
+from ._helpers import restore_on_failure
 
 
 def add_args(parser):
@@ -18,6 +19,7 @@ def add_args(parser):
     )
 
 
+@restore_on_failure
 def decompress(args):
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
diff --git a/src/meshio/_cli/_helpers.py b/src/meshio/_cli/_helpers.py
new file mode 100644
index 0000000..f775ee2
--- /dev/null
+++ b/src/meshio/_cli/_helpers.py
@@ -0,0 +1,20 @@
+import functools
+from pathlib import Path
+
+
+def restore_on_failure(command):
+    """Commands which rewrite a file in place must not destroy it if the mesh cannot be
+    written."""
+
+    @functools.wraps(command)
+    def wrapper(args):
+        path = Path(args.infile)
+        content = path.read_bytes()
+        try:
+            return command(args)
+        except BaseException:
+            if not path.exists() or path.read_bytes() != content:
+                path.write_bytes(content)
+            raise
+
+    return wrapper
-- 
2.43.0


From 0bf51e356181f1cd5adc6b7cf10ceda167a58a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:59 +0000
Subject: [PATCH 109/191] fix: uncompressed H5M, CGNS, HMF files can be written

---
 src/meshio/cgns/_cgns.py | 3 +++
 src/meshio/h5m/_h5m.py   | 3 +++
 src/meshio/hmf/_hmf.py   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index fde2ae7..7f23894 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -41,6 +41,9 @@ def read(filename):
 
 
 def write(filename, mesh, compression="gzip", compression_opts=4):
+    if compression is None:
+        compression_opts = None
+
     import h5py
 
     f = h5py.File(filename, "w")
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 77476b9..b8a267c 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -116,6 +116,9 @@ def read(filename):
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        compression_opts = None
+
     f = h5py.File(filename, "w")
 
     tstt = f.create_group("tstt")
diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index d842414..8a8714a 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -63,6 +63,9 @@ def write_points_cells(filename, points, cells, **kwargs):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        compression_opts = None
+
     warn("Experimental file format. Format can change at any time.")
     with h5py.File(filename, "w") as h5_file:
         h5_file.attrs["type"] = "hmf"
-- 
2.43.0


From b4731d65cbb4726e8142969f543d449880da9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:15 +0000
Subject: [PATCH 110/191] fix: convert --int-data-to-sets leaves
 multi-component data alone

---
 src/meshio/_cli/_convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_cli/_convert.py b/src/meshio/_cli/_convert.py
index 1710936..24c14b9 100644
--- a/src/meshio/_cli/_convert.py
+++ b/src/meshio/_cli/_convert.py
@@ -61,10 +61,10 @@ def convert(args):
 
     if args.int_data_to_sets:
         for key, data in list(mesh.point_data.items()):
-            if data.dtype.kind in ["i", "u"]:
+            if data.dtype.kind in ["i", "u"] and data.ndim == 1:
                 mesh.point_data_to_sets(key)
         for key, data in list(mesh.cell_data.items()):
-            if all(d.dtype.kind in ["i", "u"] for d in data):
+            if all(d.dtype.kind in ["i", "u"] and d.ndim == 1 for d in data):
                 mesh.cell_data_to_sets(key)
 
     # write it out
-- 
2.43.0


From 5c5c4bdd556c17f861ecc49c25e0b65f22c0f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:14 +0000
Subject: [PATCH 111/191] fix: info on meshes with polyhedra

---
 src/meshio/_cli/_info.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_cli/_info.py b/src/meshio/_cli/_info.py
index 546cbac..8d07d68 100644
--- a/src/meshio/_cli/_info.py
+++ b/src/meshio/_cli/_info.py
@@ -24,7 +24,7 @@ def info(args):
     # check if the cell arrays are consistent with the points
     is_consistent = True
     for cells in mesh.cells:
-        if np.any(cells.data >= mesh.points.shape[0]):
+        if np.any(_point_indices(cells) >= mesh.points.shape[0]):
             warn("Inconsistent mesh. Cells refer to nonexistent points.")
             is_consistent = False
             break
@@ -33,8 +33,16 @@ def info(args):
     if is_consistent:
         point_is_used = np.zeros(mesh.points.shape[0], dtype=bool)
         for cells in mesh.cells:
-            point_is_used[cells.data] = True
+            point_is_used[_point_indices(cells)] = True
         if np.any(~point_is_used):
             warn("Some points are not part of any cell.")
 
     return 0
+
+
+def _point_indices(cells):
+    if cells.type.startswith("polyhedron"):
+        # the cells are lists of faces
+        faces = [face for cell in cells.data for face in cell]
+        return np.concatenate([np.asarray(face, dtype=int) for face in faces])
+    return cells.data
-- 
2.43.0


From 66f26485e90dd86d01f0635725dd17de1d7e97b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:02 +0000
Subject: [PATCH 112/191] fix: data and file names with square brackets in
 warnings

---
 src/meshio/_common.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index b957b3a..5825d68 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -4,6 +4,7 @@ from xml.etree import ElementTree as ET
 
 import numpy as np
 from rich.console import Console
+from rich.markup import escape
 
 # See <https://github.com/nschloe/meshio/wiki/Node-ordering-in-cells> for the node
 # ordering.
@@ -124,18 +125,20 @@ def _pick_first_int_data(data):
 
 
 def info(string, highlight: bool = True) -> None:
-    Console(stderr=True).print(f"[bold]Info:[/bold] {string}", highlight=highlight)
+    Console(stderr=True).print(
+        f"[bold]Info:[/bold] {escape(string)}", highlight=highlight
+    )
 
 
 def warn(string, highlight: bool = True) -> None:
     Console(stderr=True).print(
-        f"[yellow][bold]Warning:[/bold] {string}[/yellow]", highlight=highlight
+        f"[yellow][bold]Warning:[/bold] {escape(string)}[/yellow]", highlight=highlight
     )
 
 
 def error(string, highlight: bool = True) -> None:
     Console(stderr=True).print(
-        f"[red][bold]Error:[/bold] {string}[/red]", highlight=highlight
+        f"[red][bold]Error:[/bold] {escape(string)}[/red]", highlight=highlight
     )
 
 
-- 
2.43.0


From f1f537630e3a0f68eeb71d05adf28cfcc84b5508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:46 +0000
Subject: [PATCH 113/191] fix: Exodus point sets may be given as lists

---
 src/meshio/exodus/_exodus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 0795d2a..f847ab1 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -365,6 +365,7 @@ def write(filename, mesh):
                 for i, letter in enumerate(name):
                     data_names[k, i] = letter.encode()
             for k, (key, values) in enumerate(mesh.point_sets.items()):
+                values = np.asarray(values)
                 dim1 = f"num_nod_ns{k + 1}"
                 rootgrp.createDimension(dim1, values.shape[0])
                 dtype = numpy_to_exodus_dtype[values.dtype.name]
-- 
2.43.0


From a50b35bce0cd77a53133bc7fc6907c09af63af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 114/191] fix: the Ansys reader loops forever on truncated
 files

---
 src/meshio/ansys/_ansys.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 281cbc6..86aebab 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -16,15 +16,31 @@ from .._helpers import register_format
 from .._mesh import Mesh
 
 
+def _read_char(f):
+    char = f.read(1).decode()
+    if not char:
+        raise ReadError("Unexpected end of file")
+    return char
+
+
+def _read_nonblank_line(f):
+    while True:
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file")
+        if line.strip() != "":
+            return line
+
+
 def _skip_to(f, char):
     c = None
     while c != char:
-        c = f.read(1).decode()
+        c = _read_char(f)
 
 
 def _skip_close(f, num_open_brackets):
     while num_open_brackets > 0:
-        char = f.read(1).decode()
+        char = _read_char(f)
         if char == "(":
             num_open_brackets += 1
         elif char == ")":
@@ -61,16 +77,14 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
     # be the current line already).
     last_char = line.strip()[-1]
     while last_char != "(":
-        last_char = f.read(1).decode()
+        last_char = _read_char(f)
 
     if out.group(1) == "":
         # ASCII data
         pts = np.empty((num_points, dim))
         for k in range(num_points):
             # skip ahead to the first line with data
-            line = ""
-            while line.strip() == "":
-                line = f.readline().decode()
+            line = _read_nonblank_line(f)
             dat = line.split()
             if len(dat) != dim:
                 raise ReadError()
@@ -130,7 +144,7 @@ def _read_cells(f, line):
     if line.strip()[-1] != "(":
         c = None
         while True:
-            c = f.read(1).decode()
+            c = _read_char(f)
             if c == "(":
                 break
             if not re.match("\\s", c):
@@ -227,9 +241,7 @@ def _read_faces(f, line):
             # > type v0 v1 v2 c0 c1
             # >
             for k in range(num_cells):
-                line = ""
-                while line.strip() == "":
-                    line = f.readline().decode()
+                line = _read_nonblank_line(f)
                 dat = line.split()
                 type_index = int(dat[0], 16)
                 if type_index == 0:
-- 
2.43.0


From a3946ee79c3944ad6deb99423a53c6d2806333cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 115/191] fix: the PLY reader loops forever on a truncated
 header

---
 src/meshio/ply/_ply.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 60080c5..ed1d148 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -66,7 +66,10 @@ def read(filename):
 def _next_line(f):
     # fast forward to the next significant line
     while True:
-        line = f.readline().decode().strip()
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file in header")
+        line = line.strip()
         if line and line[:7] != "comment":
             break
     return line
-- 
2.43.0


From d67ff9d224abba2b290b497d99e96a695938f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 116/191] fix: the OFF reader loops forever on files without
 counts

---
 src/meshio/off/_off.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index f9d5410..ce3518a 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -31,7 +31,10 @@ def read_buffer(f):
 
     # fast forward to the next significant line
     while True:
-        line = f.readline().strip()
+        line = f.readline()
+        if not line:
+            raise ReadError("Unexpected end of file")
+        line = line.strip()
         if line and line[0] != "#":
             break
 
-- 
2.43.0


From 9ee2e9cc748ddfeaa7c99bffdf1880b29878c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:14 +0000
Subject: [PATCH 117/191] fix: the TetGen reader loops forever on files without
 counts

---
 src/meshio/tetgen/_tetgen.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 991e5af..f370efe 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -14,6 +14,17 @@ from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
 
+def _next_line(f):
+    """Next line that's neither blank nor a comment."""
+    while True:
+        line = f.readline()
+        if not line:
+            raise ReadError("Unexpected end of file")
+        line = line.strip()
+        if line and line[0] != "#":
+            return line
+
+
 def read(filename):
     filename = pathlib.Path(filename)
     if filename.suffix.lower() == ".node":
@@ -30,9 +41,7 @@ def read(filename):
 
     # read nodes
     with open(node_filename) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _next_line(f)
 
         num_points, dim, num_attrs, num_bmarkers = (
             int(item) for item in line.split(" ") if item != ""
@@ -63,9 +72,7 @@ def read(filename):
 
     # read elements
     with open(ele_filename.as_posix()) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _next_line(f)
 
         num_tets, num_points_per_tet, num_attrs = (
             int(item) for item in line.strip().split(" ") if item != ""
-- 
2.43.0


From efa41741af2404d661b947e2bc21236a8b9b0da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:14 +0000
Subject: [PATCH 118/191] fix: the mdpa reader loops forever on truncated cells

---
 src/meshio/mdpa/_mdpa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index d79316d..fa2109e 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -149,6 +149,8 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
 
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file in Elements or Conditions")
         if line.startswith("End Elements") or line.startswith("End Conditions"):
             break
         # data[0] gives the entity id
-- 
2.43.0


From ef013a00e89b694c508d9be221623f12a13eb7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:17 +0000
Subject: [PATCH 119/191] fix: VTK files cut off within the cells are read as
 smaller meshes

---
 src/meshio/vtk/_vtk_42.py | 4 ++++
 src/meshio/vtk/_vtk_51.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index cfd3b6e..5fa04a9 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -388,6 +388,8 @@ def _read_int_data(f, is_ascii, num_items, dtype=np.dtype("int32")):
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
+    if len(c) != num_items:
+        raise ReadError("Unexpected end of file")
     return c
 
 
@@ -401,6 +403,8 @@ def _read_cell_types(f, is_ascii, num_items):
         # Sometimes, there's no newline at the end
         if line.strip() != "":
             raise ReadError()
+    if len(ct) != int(num_items):
+        raise ReadError("Unexpected end of file")
     return ct
 
 
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index ecef2c1..790282f 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -369,6 +369,8 @@ def _read_int_data(f, is_ascii, num_items, dtype):
         line = f.readline().decode()
         if line != "\n":
             raise ReadError("Expected newline")
+    if len(c) != num_items:
+        raise ReadError("Unexpected end of file")
     return c
 
 
@@ -382,6 +384,8 @@ def _read_cell_types(f, is_ascii, num_items):
         # Sometimes, there's no newline at the end
         if line.strip() != "":
             raise ReadError()
+    if len(ct) != int(num_items):
+        raise ReadError("Unexpected end of file")
     return ct
 
 
-- 
2.43.0


From 83eaf7ec068fb3e9684ee16a23b6687822af4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:17 +0000
Subject: [PATCH 120/191] fix: SU2 files with fewer entries than declared

---
 src/meshio/su2/_su2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index 2e40524..353d8a7 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -96,6 +96,8 @@ def read_buffer(f):
             first_line = np.array(first_line, dtype=ftype)
 
             extra_columns = first_line.shape[0] - dim
+            if extra_columns < 0:
+                raise ReadError(f"Expected {dim} coordinates per point")
 
             num_verts = int(rest_of_line.split()[0]) - 1
             points = np.fromfile(
@@ -136,7 +138,10 @@ def read_buffer(f):
             # reset generator
             gen = chain([first_line_str], gen)
 
-            cell_array = " ".join([line.rstrip("\n") for line in gen])
+            lines = [line.rstrip("\n") for line in gen]
+            if len(lines) != num_elems:
+                raise ReadError(f"Expected {num_elems} elements, found {len(lines)}")
+            cell_array = " ".join(lines)
             cell_array = np.fromiter(cell_array.split(), dtype=itype)
 
             cells_, _ = _translate_cells(cell_array, has_extra_column)
-- 
2.43.0


From ff5109405f672d6847e747f1a1fa2fccfcb59f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:17 +0000
Subject: [PATCH 121/191] fix: meshb files cut off within the vertices are read
 as smaller meshes

---
 src/meshio/medit/_medit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index edbbc36..7564c12 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -150,6 +150,8 @@ def read_binary_buffer(f):
         field_template = field_code[2]
         dtype = np.dtype(_produce_dtype(field_template, dim, itype, ftype))
         out = np.asarray(np.fromfile(f, count=nitems, dtype=dtype))
+        if len(out) != nitems:
+            raise ReadError("Unexpected end of file")
         if field_code[0] not in meshio_from_medit.keys():
             warn(f"meshio doesn't know {field_code[0]} type. Skipping.")
             continue
-- 
2.43.0


From a57eedce35a170c6b651d401163d24ce5545c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:17 +0000
Subject: [PATCH 122/191] fix: binary PLY files cut off within the data are
 read as smaller meshes

---
 src/meshio/ply/_ply.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index ed1d148..636e13a 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -261,6 +261,8 @@ def _read_binary(
     point_data = np.frombuffer(
         f.read(num_verts * np.dtype(dtype).itemsize), dtype=dtype
     )
+    if len(point_data) != num_verts:
+        raise ReadError("Unexpected end of file")
     coord_names = [name for name in ["x", "y", "z"] if name in point_data_names]
     verts = np.column_stack([point_data[name] for name in coord_names])
     point_data = {
@@ -346,6 +348,8 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
 
     # Row `i` is given by `buffer[byte_starts_ends[i]: byte_starts_ends[i+1]]`.
     byte_starts_ends = np.fromiter(parse_ragged(0, num_cells), np.intp, num_cells + 1)
+    if byte_starts_ends[-1] > len(buffer):
+        raise ReadError("Unexpected end of file")
 
     # Next, find where the row length changes and list the (start, end) row ids
     # of each homogeneous block into `block_bounds`.
-- 
2.43.0


From cec7fd9826697412916cb473dd3853a2130a569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:05 +0000
Subject: [PATCH 123/191] fix: Netgen files cut off within the points are read
 as smaller meshes

---
 src/meshio/netgen/_netgen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 882e254..9c82816 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import warn
+from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -265,6 +266,8 @@ def read_buffer(f):
             num_points = int(f.readline())
             if num_points > 0:
                 points = np.loadtxt(f, max_rows=num_points, ndmin=2)
+                if len(points) != num_points:
+                    raise ReadError(f"Expected {num_points} points")
                 if dimension != 3:
                     points = points[:, :dimension]
 
-- 
2.43.0


From 3dc07f17ec0b1853dec5a4be4ad1f5a28b34e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:05 +0000
Subject: [PATCH 124/191] fix: Gmsh files cut off within an element give cells
 with too few nodes

---
 src/meshio/gmsh/_gmsh22.py | 2 ++
 src/meshio/gmsh/_gmsh40.py | 2 +-
 src/meshio/gmsh/_gmsh41.py | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 20f7928..0a0e34b 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -203,6 +203,8 @@ def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> list[int]:
         # elementary tags).
         # <<<
         num_tags = data[2]
+        if len(data) < 3 + num_tags + num_nodes_per_elem:
+            raise ReadError(f"Unexpected number of entries for element {data[0]}")
         if t not in cell_tags:
             cell_tags[t] = []
         cell_tags[t].append(data[3 : 3 + num_tags])
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index d0d05ba..1310880 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -179,7 +179,7 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
         tpe = _gmsh_to_meshio_type[type_ele]
         num_nodes_per_ele = num_nodes_per_cell[tpe]
         d = fromfile(f, c_int, int(num_ele * (1 + num_nodes_per_ele))).reshape(
-            (num_ele, -1)
+            (num_ele, 1 + num_nodes_per_ele)
         )
         if physical_tags is None:
             data.append((None, tag_entity, tpe, d))
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index ee57540..0ef6d02 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -239,7 +239,7 @@ def _read_elements(
         tpe = _gmsh_to_meshio_type[type_ele]
         num_nodes_per_ele = num_nodes_per_cell[tpe]
         d = fromfile(f, c_size_t, int(num_ele * (1 + num_nodes_per_ele))).reshape(
-            (num_ele, -1)
+            (num_ele, 1 + num_nodes_per_ele)
         )
 
         # Find physical tag, if defined; else it is None.
-- 
2.43.0


From 0cef928e2416a9a57795314226ff8ee9015747c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:05 +0000
Subject: [PATCH 125/191] fix: files with the wrong number of nodes per cell
 are read without an error

---
 src/meshio/_helpers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index e8a30ec..321580c 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -84,7 +84,18 @@ def _read_buffer(filename, file_format: str | None):
     if file_format not in reader_map:
         raise ReadError(f"Unknown file format '{file_format}'")
 
-    return reader_map[file_format](filename)
+    return _check_cells(reader_map[file_format](filename))
+
+
+def _check_cells(mesh: Mesh):
+    for cell_block in mesh.cells:
+        n = num_nodes_per_cell.get(cell_block.type)
+        if n is not None and len(cell_block) > 0 and cell_block.data.shape[1:] != (n,):
+            raise ReadError(
+                f"Unexpected cells array shape {cell_block.data.shape} "
+                f"for {cell_block.type} cells. Expected shape [:, {n}]."
+            )
+    return mesh
 
 
 def _read_file(path: Path, file_format: str | None):
@@ -108,7 +119,7 @@ def _read_file_and_format(path: Path, file_format: str | None):
             raise ReadError(f"Unknown file format '{file_format}' of '{path}'.")
 
         try:
-            return reader_map[file_format](str(path)), file_format
+            return _check_cells(reader_map[file_format](str(path))), file_format
         except ReadError as e:
             print(e)
 
-- 
2.43.0


From 847d08cb14fd6082bf7ce647ab616d9c14c23df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:17 +0000
Subject: [PATCH 126/191] fix: meshb files without vertices are read as a mesh
 without points array

---
 src/meshio/medit/_medit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 7564c12..ab01d71 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -167,6 +167,8 @@ def read_binary_buffer(f):
             cells.append((meshio_type, out_view[:, :ncols] - 1))
             cell_data["medit:ref"].append(out_view[:, -1])
 
+    if points is None:
+        raise ReadError("Expected `GmfVertices`")
     return Mesh(points, cells, point_data=point_data, cell_data=cell_data)
 
 
-- 
2.43.0


From 81d2551f8090b40f605822a660673c3740c6d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:11 +0000
Subject: [PATCH 127/191] fix: Nastran continuation lines of less than four
 characters were ignored

---
 src/meshio/nastran/_nastran.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 65c9b5f..bedb926 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -112,7 +112,7 @@ def read_buffer(f):
         if not next_line:
             raise ReadError("Premature EOF")
         # Blank lines or comments
-        if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
+        if not next_line.strip() or next_line.startswith(("$", "//", "#")):
             continue
         else:
             break
@@ -134,7 +134,7 @@ def read_buffer(f):
                 raise ReadError("Premature EOF")
 
             # Blank lines or comments
-            if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
+            if not next_line.strip() or next_line.startswith(("$", "//", "#")):
                 continue
 
             elif next_line[0] in ["+", "*"]:
-- 
2.43.0


From 82cccc4bd5785978799222c744305af8573abfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:20 +0000
Subject: [PATCH 128/191] fix: ANSYS cells could not be read if the opening
 bracket is on its own line

---
 src/meshio/ansys/_ansys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 86aebab..a818c47 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -170,7 +170,7 @@ def _read_cells(f, line):
             # ASCII cells
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
+                line = _read_nonblank_line(f)
                 dat = line.split()
                 if len(dat) != num_nodes_per_cell:
                     raise ReadError()
@@ -265,7 +265,7 @@ def _read_faces(f, line):
             # read cell data
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
+                line = _read_nonblank_line(f)
                 dat = line.split()
                 # The body of a regular face section contains the grid connectivity, and
                 # each line appears as follows:
-- 
2.43.0


From e07d8b695bcb147bc8dc479778a02bc1dea71548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:47 +0000
Subject: [PATCH 129/191] fix: Exodus cell data is assigned to the wrong block
 if there are empty blocks

---
 src/meshio/exodus/_exodus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index f847ab1..ea5263a 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -88,6 +88,7 @@ def read(filename):  # noqa: C901
         pd = {}
         cd = {}
         cells = []
+        block_ids = []
         ns_names = []
         # eb_names = []
         ns = []
@@ -110,6 +111,8 @@ def read(filename):  # noqa: C901
             elif key[:7] == "connect":
                 meshio_type = exodus_to_meshio_type[value.elem_type.upper()]
                 cells.append((meshio_type, value[:] - 1))
+                # Empty blocks have no connectivity, so don't just count
+                block_ids.append(int(key[7:] or 1) - 1)
             elif key == "coord":
                 points = nc.variables["coord"][:].T
             elif key == "coordx":
@@ -173,7 +176,7 @@ def read(filename):  # noqa: C901
                 continue
             cell_data[name] = [
                 cd[k][b] if b in cd[k] else np.full(len(cell), np.nan)
-                for b, (_, cell) in enumerate(cells)
+                for b, (_, cell) in zip(block_ids, cells)
             ]
 
         point_sets = {name: dat for name, dat in zip(ns_names, ns)}
-- 
2.43.0


From b593e4db29d09413d638b19684f86f89b86ff6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:47 +0000
Subject: [PATCH 130/191] fix: Exodus node sets get the wrong names if there
 are empty sets

---
 src/meshio/exodus/_exodus.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index ea5263a..f82bbab 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -91,7 +91,7 @@ def read(filename):  # noqa: C901
         block_ids = []
         ns_names = []
         # eb_names = []
-        ns = []
+        ns = {}
         point_sets = {}
         info = []
 
@@ -155,7 +155,7 @@ def read(filename):  # noqa: C901
             #     value.set_auto_mask(False)
             #     eb_names = [b"".join(c).decode("UTF-8") for c in value[:]]
             elif key.startswith("node_ns"):  # Expected keys: node_ns1, node_ns2
-                ns.append(value[:] - 1)  # Exodus is 1-based
+                ns[int(key[7:]) - 1] = value[:] - 1  # Exodus is 1-based
 
         # Check if there are any <name>R, <name>Z tuples or <name>X, <name>Y, <name>Z
         # triplets in the point data. If yes, they belong together.
@@ -179,7 +179,8 @@ def read(filename):  # noqa: C901
                 for b, (_, cell) in zip(block_ids, cells)
             ]
 
-        point_sets = {name: dat for name, dat in zip(ns_names, ns)}
+        # There is no node list for empty sets
+        point_sets = {name: ns[k] for k, name in enumerate(ns_names) if k in ns}
 
     return Mesh(
         points,
-- 
2.43.0


From e864f3783ef05a81d609ab9f0f681c1b6563a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:48 +0000
Subject: [PATCH 131/191] fix: XDMF data items without Format could not be read

---
 src/meshio/xdmf/main.py        | 2 +-
 src/meshio/xdmf/time_series.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 01bb251..ee167a0 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -80,7 +80,7 @@ class XdmfReader:
             data_type = "Float"
 
         precision = data_item.get("Precision", default="4")
-        fmt = data_item.attrib["Format"]
+        fmt = data_item.get("Format", default="XML")
 
         if fmt == "XML":
             dtype = xdmf_to_numpy_type[(data_type, precision)]
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index b415e2a..9f55a0f 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -190,7 +190,7 @@ class TimeSeriesReader:
         except KeyError:
             precision = "4"
 
-        data_format = data_item.attrib["Format"]
+        data_format = data_item.get("Format", default="XML")
 
         if data_format == "XML":
             return np.fromstring(
-- 
2.43.0


From 60cb93a4c46b1aa01f707dd390ae37c6d9f1e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:48 +0000
Subject: [PATCH 132/191] fix: XDMF attributes without Center could not be read

---
 src/meshio/xdmf/main.py        | 14 ++++++++------
 src/meshio/xdmf/time_series.py |  5 +++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index ee167a0..5985d05 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -209,13 +209,14 @@ class XdmfReader:
                 data = self._read_data_item(data_items[0])
 
                 name = c.attrib["Name"]
-                if c.attrib["Center"] == "Node":
+                center = c.get("Center", default="Node")
+                if center == "Node":
                     point_data[name] = data
-                elif c.attrib["Center"] == "Cell":
+                elif center == "Cell":
                     cell_data_raw[name] = data
                 else:
                     # TODO field data?
-                    if c.attrib["Center"] != "Grid":
+                    if center != "Grid":
                         raise ReadError()
             else:
                 raise ReadError(f"Unknown section '{c.tag}'.")
@@ -309,11 +310,12 @@ class XdmfReader:
 
                 data = self._read_data_item(data_item)
 
-                if c.attrib["Center"] not in ["Node", "Cell"]:
-                    raise ReadError(f"Unknown center '{c.attrib['Center']}'.")
+                center = c.get("Center", default="Node")
+                if center not in ["Node", "Cell"]:
+                    raise ReadError(f"Unknown center '{center}'.")
 
                 name = c.attrib["Name"]
-                if c.attrib["Center"] == "Node":
+                if center == "Node":
                     point_data[name] = data
                 else:
                     cell_data_raw[name] = data
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 9f55a0f..e599fb7 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -149,10 +149,11 @@ class TimeSeriesReader:
                 data_item = list(c)[0]
                 data = self._read_data_item(data_item)
 
-                if c.get("Center") == "Node":
+                center = c.get("Center", default="Node")
+                if center == "Node":
                     point_data[name] = data
                 else:
-                    if c.get("Center") != "Cell":
+                    if center != "Cell":
                         raise ReadError()
                     cell_data_raw[name] = data
             else:
-- 
2.43.0


From 387121952093aab1115fb07c5e1940f655eb5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:48 +0000
Subject: [PATCH 133/191] fix: XDMF data items with a Reference could not be
 read

---
 src/meshio/xdmf/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 5985d05..7673f28 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -38,6 +38,7 @@ class XdmfReader:
         parser = ET.XMLParser()
         tree = ET.parse(self.filename, parser)
         root = tree.getroot()
+        self.root = root
 
         if root.tag != "Xdmf":
             raise ReadError()
@@ -52,7 +53,7 @@ class XdmfReader:
 
         return self.read_xdmf3(root)
 
-    def _read_data_item(self, data_item, root=None):
+    def _read_data_item(self, data_item):
         import h5py
 
         if "Reference" in data_item.attrib:
@@ -60,7 +61,7 @@ class XdmfReader:
             xpath = (data_item.text if reference == "XML" else reference).strip()
             if xpath.startswith("/"):
                 return self._read_data_item(
-                    root.find(".//" + "/".join(xpath.split("/")[2:])), root
+                    self.root.find("./" + "/".join(xpath.split("/")[2:]))
                 )
             raise ValueError(f"Can't read XPath {xpath}.")
 
-- 
2.43.0


From 877d1c75bc4b547452e6435dec53aad4a48818d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:48 +0000
Subject: [PATCH 134/191] fix: XDMF2 mixed topologies in HDF5 or binary files
 could not be read

---
 src/meshio/xdmf/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 7673f28..a21967a 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -170,7 +170,12 @@ class XdmfReader:
                     raise ReadError(message)
 
                 topology_type = c.attrib["TopologyType"]
-                if topology_type == "Mixed":
+                if topology_type == "Mixed" and data_items[0].get("Format") in [
+                    "HDF",
+                    "Binary",
+                ]:
+                    cells = translate_mixed_cells(self._read_data_item(data_items[0]))
+                elif topology_type == "Mixed":
                     cells = translate_mixed_cells(
                         np.fromstring(
                             data_items[0].text,
-- 
2.43.0


From 6dc234736153b9a0018254b06a4f12e9754f40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:05 +0000
Subject: [PATCH 135/191] fix: Tecplot: read quoted variable names with more
 than two words

---
 src/meshio/tecplot/_tecplot.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 6a07136..3f2a744 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -4,6 +4,8 @@ I/O for Tecplot ASCII data format, cf.
 <http://paulbourke.net/dataformats/tp/>.
 """
 
+import re
+
 import numpy as np
 
 from ..__about__ import __version__ as version
@@ -223,20 +225,13 @@ def read_buffer(f):
 
 def _read_variables(line):
     # Gather variables in a list
-    line = line.split("=")[1]
-    line = [x for x in line.replace(",", " ").split()]
+    line = line.split("=", 1)[1]
     variables = []
 
-    i = 0
-    while i < len(line):
-        if '"' in line[i] and not (line[i].startswith('"') and line[i].endswith('"')):
-            var = f"{line[i]}_{line[i + 1]}"
-            i += 1
-        else:
-            var = line[i]
-
-        variables.append(var.replace('"', ""))
-        i += 1
+    # Names are separated by commas or blanks, unless they are double quoted
+    for quoted, plain in re.findall(r'"([^"]*)"|([^\s,"]+)', line):
+        var = plain or "_".join(quoted.replace(",", " ").split())
+        variables.append(var)
 
     # Check that at least X and Y are defined
     if "X" not in variables and "x" not in variables:
-- 
2.43.0


From d6eb897af96f483d1b4f341dd4983a4a5ff9dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:05 +0000
Subject: [PATCH 136/191] fix: Tecplot: zone keywords are case insensitive

---
 src/meshio/tecplot/_tecplot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 3f2a744..8d841c7 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -258,6 +258,9 @@ def _read_zone(line):
     else:
         zone_title = None
 
+    # Keywords are case insensitive
+    line = line.upper()
+
     # Look for VARLOCATION (problematic since it contains both ',' and '=')
     ivar = line.find("VARLOCATION")
 
-- 
2.43.0


From a478158c55d197df753532d5838aaf02ff92673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:05 +0000
Subject: [PATCH 137/191] fix: Tecplot: accept zones with other keys, e.g.,
 STRANDID, SOLUTIONTIME

---
 src/meshio/tecplot/_tecplot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 8d841c7..fc7cb66 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -286,7 +286,8 @@ def _read_zone(line):
             value = line[i + 1].replace("=", "")
             i += 1
 
-        zone[key] = zone_key_to_type[key](value)
+        # Keys which aren't used here (STRANDID, SOLUTIONTIME,...) may take any value
+        zone[key] = zone_key_to_type.get(key, str)(value)
         i += 1
 
     # Add zone title to zone dict
-- 
2.43.0


From c08a64e52c61a3d58235dc3d110dc904ad837e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:05 +0000
Subject: [PATCH 138/191] fix: Tecplot: read lists of variables in VARLOCATION

---
 src/meshio/tecplot/_tecplot.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index fc7cb66..926efe3 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -337,12 +337,13 @@ def _parse_fezone(zone, variables):
             node_value = zone.pop("NV")
             is_cell_centered[node_value:] = 1
         elif "VARLOCATION" in zone.keys():
-            varlocation = zone.pop("VARLOCATION")[1:-1].split(",")
-            for location in varlocation:
-                varrange, varloc = location.split("=")
-                varloc = varloc.strip()
-                if varloc == "CELLCENTERED":
-                    varrange = varrange[1:-1].split("-")
+            varlocation = zone.pop("VARLOCATION")[1:-1]
+            # e.g., [1-2]=NODAL,[3,5-7]=CELLCENTERED
+            for varset, varloc in re.findall(r"\[([^\]]*)\]=([A-Z]+)", varlocation):
+                if varloc != "CELLCENTERED":
+                    continue
+                for varrange in varset.split(","):
+                    varrange = varrange.split("-")
                     if len(varrange) == 1:
                         i = int(varrange[0]) - 1
                         is_cell_centered[i] = 1
-- 
2.43.0


From 265026a878d28876614f3875036f2a6737419306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:05 +0000
Subject: [PATCH 139/191] fix: FLAC3D: a group may be followed by grid points
 or cells

---
 src/meshio/flac3d/_flac3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index a7a74ab..ea62aa3 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -347,7 +347,9 @@ def _read_cell_group_ascii(buf_or_line, line: str):
     data = []
     while True:
         line = line.rstrip().split()
-        if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
+        if line and (
+            line[0] not in {"*", "ZGROUP", "FGROUP", "G", "Z", "F"}
+        ):
             data += [int(l) for l in line]
         else:
             buf_or_line.seek(i)
-- 
2.43.0


From d4e3a76077e6e4a39e41c24bb94e893e83f8c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:28 +0000
Subject: [PATCH 140/191] fix: Tecplot: accept zones with data types,
 DT=(SINGLE SINGLE)

---
 src/meshio/tecplot/_tecplot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 926efe3..b28be9f 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -266,10 +266,13 @@ def _read_zone(line):
 
     # If zone contains VARLOCATION, process it and remove the key/value pair
     if ivar >= 0:
-        i1, i2 = line.find("("), line.find(")")
+        i1, i2 = line.find("(", ivar), line.find(")", ivar)
         zone["VARLOCATION"] = line[i1 : i2 + 1].replace(" ", "")
         line = line[:ivar] + line[i2 + 1 :]
 
+    # Other lists aren't used, e.g., DT=(SINGLE SINGLE)
+    line = re.sub(r"\w+\s*=\s*\([^)]*\)", " ", line)
+
     # Split remaining key/value pairs separated by '='
     line = [x for x in line.replace(",", " ").split() if x != "="]
     i = 0
-- 
2.43.0


From 36401d175bca34b0fe205069151eacb6f39b2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:41 +0000
Subject: [PATCH 141/191] fix: OBJ vertices with a weight or color were read as
 points with 4 or 6 coordinates

---
 src/meshio/obj/_obj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index 2bb3dcb..66b6338 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -45,7 +45,8 @@ def read_buffer(f):
         split = strip.split()
 
         if split[0] == "v":
-            points.append([float(item) for item in split[1:]])
+            # the coordinates may be followed by a weight or a color
+            points.append([float(item) for item in split[1:4]])
         elif split[0] == "vn":
             vertex_normals.append([float(item) for item in split[1:]])
         elif split[0] == "vt":
-- 
2.43.0


From 76649f7ebb88586b5d33d0ed0872a27ede54b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:41 +0000
Subject: [PATCH 142/191] fix: OBJ files with more or less normals or texture
 coordinates than vertices couldn't be read

---
 src/meshio/obj/_obj.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index 66b6338..b7d6387 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -8,6 +8,7 @@ import datetime
 import numpy as np
 
 from ..__about__ import __version__
+from .._common import warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -84,10 +85,11 @@ def read_buffer(f):
     texture_coords = np.array(texture_coords)
     vertex_normals = np.array(vertex_normals)
     point_data = {}
-    if len(texture_coords) > 0:
-        point_data["obj:vt"] = texture_coords
-    if len(vertex_normals) > 0:
-        point_data["obj:vn"] = vertex_normals
+    for name, values in [("obj:vt", texture_coords), ("obj:vn", vertex_normals)]:
+        if len(values) == len(points):
+            point_data[name] = values
+        elif len(values) > 0:
+            warn(f"{len(values)} {name[4:]} for {len(points)} points. Skipping {name}.")
 
     # convert to numpy arrays
     face_groups = [np.array(f) for f in face_groups]
-- 
2.43.0


From c69650fc93d4cdf4bd801f20257b4ac3fefe02f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:41 +0000
Subject: [PATCH 143/191] fix: ASCII STL files in upper case couldn't be read

---
 src/meshio/stl/_stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 9c16732..553ca22 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -65,7 +65,7 @@ def iter_loadtxt(
 
         for line in infile:
             line = line.decode().strip()
-            if not line or line.startswith(comments):
+            if not line or line.lower().startswith(comments):
                 continue
             # remove all text
             items = line.split()[-3:]
-- 
2.43.0


From f815f11fd321ea8ef6128f2ce223913cf1acddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:41 +0000
Subject: [PATCH 144/191] fix: ASCII STL files of 80 to 83 bytes couldn't be
 read

---
 src/meshio/stl/_stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 553ca22..e227364 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -30,7 +30,7 @@ def read(filename):
         # num_triangles and see if it matches the file size
         # (https://stackoverflow.com/a/7394842/353337).
         filesize_bytes = os.path.getsize(filename)
-        if filesize_bytes < 80:
+        if filesize_bytes < 84:
             return _read_ascii(f)
 
         f.read(80)
-- 
2.43.0


From 09b3edebee3f1bba8bc310b86d5d3ce2493539c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:41 +0000
Subject: [PATCH 145/191] fix: WKT TIN Z, TIN ZM, and lower case tags couldn't
 be read

---
 src/meshio/wkt/_wkt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index c8a9286..b989d0e 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -21,8 +21,9 @@ triangle_pattern = r"\(\s*\(\s*({})\s*\)\s*\)".format(
 )
 triangle_re = re.compile(triangle_pattern)
 
-tin_pattern = rf"TIN\s*\((?:\s*{triangle_pattern}\s*,?)*\s*\)"
-tin_re = re.compile(tin_pattern)
+# The coordinates may be announced, `TIN Z (...)`. Keywords are case insensitive.
+tin_pattern = rf"TIN\s*(?:ZM?)?\s*\((?:\s*{triangle_pattern}\s*,?)*\s*\)"
+tin_re = re.compile(tin_pattern, re.IGNORECASE)
 
 
 def read_str(s):
-- 
2.43.0


From 92a4d89aac719ad785b4674fbd35471b4f499e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:41 +0000
Subject: [PATCH 146/191] fix: PLY files with further lists per face, e.g.
 texture coordinates

---
 src/meshio/ply/_ply.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 636e13a..5e7dcd6 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -225,6 +225,11 @@ def _read_ascii(
                 else:
                     cell_blocks[-1][1].append(idx)
                 i += n + 1
+            elif isinstance(dtype, tuple):
+                n = int(data[i])
+                value_dtype = ply_to_numpy_dtype[dtype[1]]
+                values[name] = np.array(data[i + 1 : i + n + 1], dtype=value_dtype)
+                i += n + 1
             else:
                 values[name] = ply_to_numpy_dtype[dtype](data[i])
                 i += 1
@@ -301,12 +306,15 @@ def _read_binary(
         values = {}
         for name, dt in zip(cell_data_names, dts):
             count = 1
-            if isinstance(dt, tuple):
+            is_list = isinstance(dt, tuple)
+            if is_list:
                 count = int(np.frombuffer(buffer, dt[0], 1, buffer_position)[0])
                 buffer_position += np.dtype(dt[0]).itemsize
                 dt = dt[1]
             values[name] = np.frombuffer(buffer, dt, count, buffer_position)
             buffer_position += values[name].nbytes
+            if not is_list:
+                values[name] = values[name][0]
 
         idx = values.pop("vertex_indices")
         if len(cells) == 0 or len(cells[-1][1][-1]) != len(idx):
@@ -315,7 +323,7 @@ def _read_binary(
                 value.append([])
         cells[-1][1].append(idx)
         for name, value in values.items():
-            cell_data[name][-1].append(value[0])
+            cell_data[name][-1].append(value)
 
     cell_data = {
         key: [np.array(v) for v in value] for key, value in cell_data.items()
-- 
2.43.0


From 60364062e9e6a145c012f03519f783bcc484a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:16 +0000
Subject: [PATCH 147/191] fix: multi-component integer data, e.g.
 gmsh:dim_tags, was taken for labels by Medit, UGRID, AVS-UCD, SU2 writers

---
 src/meshio/_common.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index 5825d68..666211d 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -109,7 +109,13 @@ def _pick_first_int_data(data):
     candidate_keys = []
     for key in keys:
         # works for point_data and cell_data
-        if data[key][0].dtype.kind in ["i", "u"]:  # int or uint
+        values = data[key]
+        if isinstance(values, list):
+            if len(values) == 0:
+                continue
+            values = values[0]
+        # int or uint, one number per entity
+        if values.dtype.kind in ["i", "u"] and values.ndim == 1:
             candidate_keys.append(key)
 
     if len(candidate_keys) > 0:
-- 
2.43.0


From 27b1ed5b4f78dc59cdc39f3815c6d5fa5087c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:16 +0000
Subject: [PATCH 148/191] fix: data not in native byte order, e.g. from binary
 VTK files, was written as garbage or not at all

---
 src/meshio/_helpers.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 321580c..b305b45 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -158,6 +158,12 @@ def write_points_cells(
     mesh.write(filename, file_format=file_format, **kwargs)
 
 
+def _native(data):
+    if isinstance(data, np.ndarray) and not data.dtype.isnative:
+        data = data.astype(data.dtype.newbyteorder("="))
+    return data
+
+
 def write(filename, mesh: Mesh, file_format: str | None = None, **kwargs):
     """Writes mesh together with data to a file.
 
@@ -208,10 +214,14 @@ def write(filename, mesh: Mesh, file_format: str | None = None, **kwargs):
     # Some writers normalize the data, e.g., append a third component to 2D vectors or
     # convert sets to data. Hand them a shallow copy such that the caller's mesh isn't
     # changed.
+    # Most writers also assume native byte order; binary VTK files are big-endian.
     mesh = copy.copy(mesh)
-    mesh.cells = list(mesh.cells)
-    mesh.point_data = dict(mesh.point_data)
-    mesh.cell_data = {key: list(value) for key, value in mesh.cell_data.items()}
+    mesh.points = _native(mesh.points)
+    mesh.cells = [CellBlock(c.type, _native(c.data), c.tags) for c in mesh.cells]
+    mesh.point_data = {key: _native(value) for key, value in mesh.point_data.items()}
+    mesh.cell_data = {
+        key: [_native(v) for v in value] for key, value in mesh.cell_data.items()
+    }
     mesh.field_data = dict(mesh.field_data)
     mesh.point_sets = dict(mesh.point_sets)
     mesh.cell_sets = {key: list(value) for key, value in mesh.cell_sets.items()}
-- 
2.43.0


From 4a774383feea13460d107103b105cf13e1534cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:16 +0000
Subject: [PATCH 149/191] fix: XDMF time series of binary data not in native
 byte order were garbage

---
 src/meshio/xdmf/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index e599fb7..ccbc6d5 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -331,7 +331,7 @@ class TimeSeriesWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
-- 
2.43.0


From 975ea620f421920ba651c4c056f6c1adecac9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:16 +0000
Subject: [PATCH 150/191] fix: Netgen writer failed on field data which isn't
 the name of a region

---
 src/meshio/netgen/_netgen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 9c82816..2d88920 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -209,7 +209,8 @@ def _write_codim_domain_data(f, mesh, cells_index, dim, codim):
     # assume format as read from gmsh 4.1 files
     data = {}
     for name, val in mesh.field_data.items():
-        if val[1] == dim - codim:
+        # other formats have other field data, e.g., the time
+        if len(val) == 2 and val[1] == dim - codim:
             data[val[0]] = name
 
     # set generic default names (is this appropriate/useful?)
-- 
2.43.0


From 06837bde1899be42c030b2bb378d672c93a56968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:58 +0000
Subject: [PATCH 151/191] fix: Netgen writer failed if netgen:index isn't of
 integer type, e.g. from Gmsh files

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 2d88920..6c6186b 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -220,7 +220,7 @@ def _write_codim_domain_data(f, mesh, cells_index, dim, codim):
             if index is None:
                 continue
             if cell_block.dim == dim - codim:
-                indices = indices.union(set(index))
+                indices = indices.union({int(i) for i in index})
 
         for idx in indices:
             data[idx] = f"cd{codim:d}_{idx:d}"
-- 
2.43.0


From 8875f9dfc3dd723854d08bcdefb6b0dbd89c48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:58 +0000
Subject: [PATCH 152/191] fix: VTU writer failed on meshes from MED files with
 fields

---
 src/meshio/vtu/_vtu.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index c58fd27..db6c1c1 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -703,8 +703,6 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     for data in mesh.cell_data.values():
         for k, dat in enumerate(data):
             data[k] = dat.astype(dat.dtype.newbyteorder("="), copy=False)
-    for key, data in mesh.field_data.items():
-        mesh.field_data[key] = data.astype(data.dtype.newbyteorder("="), copy=False)
 
     def numpy_to_xml_array(parent, name, data):
         vtu_type = numpy_to_vtu_type[data.dtype]
-- 
2.43.0


From 32f32574e712c2c78c7aa65e8fc69f155927a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:29 +0000
Subject: [PATCH 153/191] fix: MED writer failed, or mixed up component names,
 if fields were added or removed after reading

---
 src/meshio/med/_med.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index e103946..17ddc21 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -337,6 +337,11 @@ def write(filename, mesh):
 
     name_idx = 0
     field_names = mesh.field_data["med:nom"] if "med:nom" in mesh.field_data else []
+    # There's one entry per field, they're of no use if fields were added or removed
+    num_fields = len(mesh.point_data.keys() - {"point_tags"})
+    num_fields += len(mesh.cell_data.keys() - {"cell_tags"})
+    if len(field_names) != num_fields:
+        field_names = []
 
     # Nodal data
     for name, data in mesh.point_data.items():
-- 
2.43.0


From 4ff0dde47730919165937319b17ddf54c31273f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:22 +0000
Subject: [PATCH 154/191] fix: Gmsh writers wrote unreadable files for tags of
 float type, e.g. from Tecplot files

---
 src/meshio/gmsh/main.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/meshio/gmsh/main.py b/src/meshio/gmsh/main.py
index 6bb5852..1d4b950 100644
--- a/src/meshio/gmsh/main.py
+++ b/src/meshio/gmsh/main.py
@@ -1,3 +1,4 @@
+import copy
 import pathlib
 import struct
 
@@ -99,9 +100,28 @@ def write(filename, mesh, fmt_version="4.1", binary=True, float_fmt=".16e"):
                 )
             )
 
+    # Tags are floats if the mesh comes from a format which only knows floats
+    mesh = copy.copy(mesh)
+    mesh.point_data = {
+        key: _as_int(value) if key == "gmsh:dim_tags" else value
+        for key, value in mesh.point_data.items()
+    }
+    mesh.cell_data = {
+        key: (
+            [_as_int(v) for v in value]
+            if key in ["gmsh:physical", "gmsh:geometrical"]
+            else value
+        )
+        for key, value in mesh.cell_data.items()
+    }
+
     writer.write(filename, mesh, binary=binary, float_fmt=float_fmt)
 
 
+def _as_int(data):
+    return data.astype(int) if data.dtype.kind == "f" else data
+
+
 register_format(
     "gmsh",
     [".msh"],
-- 
2.43.0


From 1adde5171ed3a3d3eb72d6bfda671958f0d933d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:22 +0000
Subject: [PATCH 155/191] fix: DOLFIN writer wrote unreadable files for
 vector-valued cell data

---
 src/meshio/dolfin/_dolfin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 06195f4..d6fb3e3 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -231,6 +231,9 @@ def write(filename, mesh):
     for name in mesh.cell_data:
         # only the data of the cells that are actually written
         data = mesh.get_cell_data(name, cell_type)
+        if data.ndim > 1:
+            warn(f"DOLFIN XML can only write scalar cell data. Skipping {name}.")
+            continue
         fname = os.path.splitext(filename)[0]
         cell_data_filename = f"{fname}_{name}.xml"
         dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-- 
2.43.0


From fbf96a0856ab26ef6635758a9b1a9a1493cb57c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 156/191] fix: Gmsh 4.1 writer failed on meshes with
 gmsh:dim_tags, but without gmsh:geometrical

---
 src/meshio/gmsh/_gmsh41.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 0ef6d02..33f1282 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -420,7 +420,9 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     for ci, cell_block in enumerate(cells):
         cell_dim_tags[ci] = [
             cell_block.dim,
-            tag_data["gmsh:geometrical"][ci][0],
+            tag_data["gmsh:geometrical"][ci][0]
+            if "gmsh:geometrical" in tag_data
+            else 0,
         ]
 
     # Array of entity tag (first row) and dimension (second row) per node.
-- 
2.43.0


From 0442bdca93bbb27ddfabcfae4859d9b00850a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:50 +0000
Subject: [PATCH 157/191] fix: Gmsh 4.1 writer failed on meshes that were
 converted to VTK and back

---
 src/meshio/gmsh/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/main.py b/src/meshio/gmsh/main.py
index 1d4b950..7d3ffc6 100644
--- a/src/meshio/gmsh/main.py
+++ b/src/meshio/gmsh/main.py
@@ -103,7 +103,8 @@ def write(filename, mesh, fmt_version="4.1", binary=True, float_fmt=".16e"):
     # Tags are floats if the mesh comes from a format which only knows floats
     mesh = copy.copy(mesh)
     mesh.point_data = {
-        key: _as_int(value) if key == "gmsh:dim_tags" else value
+        # VTK appends a third component
+        key: _as_int(value[:, :2]) if key == "gmsh:dim_tags" else value
         for key, value in mesh.point_data.items()
     }
     mesh.cell_data = {
-- 
2.43.0


From 9ccb273b207fad194e4f845956746c38fe641e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:50 +0000
Subject: [PATCH 158/191] fix: TetGen writer wrote unreadable files for
 vector-valued data

---
 src/meshio/tetgen/_tetgen.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index f370efe..a374511 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -117,7 +117,9 @@ def write(filename, mesh, float_fmt=".16e"):
     # write nodes
     with open(node_filename, "w") as fh:
         # identify ":ref" key
-        attr_keys = list(mesh.point_data.keys())
+        attr_keys = [k for k, v in mesh.point_data.items() if v.ndim == 1]
+        if len(attr_keys) < len(mesh.point_data):
+            warn("TetGen can only write scalar point data. Skipping the rest.")
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
@@ -156,7 +158,11 @@ def write(filename, mesh, float_fmt=".16e"):
 
     # write cells
     with open(ele_filename, "w") as fh:
-        attr_keys = list(mesh.cell_data.keys())
+        attr_keys = [
+            k for k, v in mesh.cell_data.items() if all(d.ndim == 1 for d in v)
+        ]
+        if len(attr_keys) < len(mesh.cell_data):
+            warn("TetGen can only write scalar cell data. Skipping the rest.")
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
-- 
2.43.0


From d15baf0432cdfb48bfdd5d5f0a5c4ba0235d7bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:51 +0000
Subject: [PATCH 159/191] fix: VTK and VTU writers wrote unreadable files for
 tensors

---
 src/meshio/vtk/_vtk_42.py | 3 ++-
 src/meshio/vtk/_vtk_51.py | 3 ++-
 src/meshio/vtu/_vtu.py    | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 5fa04a9..7f0d421 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -748,7 +748,8 @@ def _write_field_data(f, data, binary):
             num_components = 1
         else:
             num_tuples = values.shape[0]
-            num_components = values.shape[1]
+            # e.g., 9 for tensors
+            num_components = int(np.prod(values.shape[1:]))
 
         if " " in name:
             raise WriteError(f"VTK doesn't support spaces in field names ('{name}').")
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 790282f..9252b97 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -652,7 +652,8 @@ def _write_field_data(f, data, binary):
             num_components = 1
         else:
             num_tuples = values.shape[0]
-            num_components = values.shape[1]
+            # e.g., 9 for tensors
+            num_components = int(np.prod(values.shape[1:]))
 
         if " " in name:
             raise WriteError(f"VTK doesn't support spaces in field names ('{name}').")
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index db6c1c1..3e753f7 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -708,8 +708,9 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
         vtu_type = numpy_to_vtu_type[data.dtype]
         fmt = "{:.11e}" if vtu_type.startswith("Float") else "{:d}"
         da = ET.SubElement(parent, "DataArray", type=vtu_type, Name=name)
-        if len(data.shape) == 2:
-            da.set("NumberOfComponents", f"{data.shape[1]}")
+        if len(data.shape) > 1:
+            # e.g., 9 for tensors
+            da.set("NumberOfComponents", f"{np.prod(data.shape[1:])}")
 
         def text_writer_compressed(f):
             max_block_size = 32768
-- 
2.43.0


From f2c625e228994bb5eb2aa7d9fb2b55a648e5f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:51 +0000
Subject: [PATCH 160/191] fix: PLY writer wrote unreadable files for data names
 with blanks

---
 src/meshio/ply/_ply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 5e7dcd6..128f336 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -441,7 +441,8 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                 )
                 continue
             type_name = type_name_table[value.dtype]
-            fh.write(f"property {type_name} {key}\n".encode())
+            # names cannot contain blanks
+            fh.write("property {} {}\n".format(type_name, "_".join(key.split())).encode())
             pd.append(value)
 
         num_cells = 0
-- 
2.43.0


From 75c5ffd75d6dcc65ff2b662399ca31551483bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:51 +0000
Subject: [PATCH 161/191] fix: Tecplot writer wrote unreadable files for data
 names with double quotes

---
 src/meshio/tecplot/_tecplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index b28be9f..46458f7 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -471,6 +471,7 @@ def write(filename, mesh):
         f.write(f'TITLE = "Written by meshio v{version}"\n')
 
         # Variables
+        variables = [var.replace('"', "'") for var in variables]
         variables_str = ", ".join(f'"{var}"' for var in variables)
         f.write(f"VARIABLES = {variables_str}\n")
 
-- 
2.43.0


From 71ff72686db5062f38b5f67ebcb23d966b2f71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:51 +0000
Subject: [PATCH 162/191] fix: Exodus writer failed on non-ASCII or long names

---
 src/meshio/exodus/_exodus.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index f82bbab..2ece335 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -284,7 +284,8 @@ def write(filename, mesh):
         rootgrp.createDimension("num_elem", total_num_elems)
         rootgrp.createDimension("num_el_blk", len(mesh.cells))
         rootgrp.createDimension("num_node_sets", len(mesh.point_sets))
-        rootgrp.createDimension("len_string", 33)
+        names = [name.encode() for name in [*mesh.point_data, *mesh.point_sets]]
+        rootgrp.createDimension("len_string", max([33] + [len(n) for n in names]))
         rootgrp.createDimension("len_line", 81)
         rootgrp.createDimension("four", 4)
         rootgrp.createDimension("time_step", None)
@@ -338,8 +339,8 @@ def write(filename, mesh):
             )
             point_data_names.set_auto_mask(False)
             for k, name in enumerate(mesh.point_data.keys()):
-                for i, letter in enumerate(name):
-                    point_data_names[k, i] = letter.encode()
+                for i, letter in enumerate(name.encode()):
+                    point_data_names[k, i] = bytes([letter])
 
             # Set data. ParaView might have some problems here, see
             # <https://gitlab.kitware.com/paraview/paraview/-/issues/18403>.
@@ -366,8 +367,8 @@ def write(filename, mesh):
             )
             for k, name in enumerate(mesh.point_sets.keys()):
                 data[k] = k
-                for i, letter in enumerate(name):
-                    data_names[k, i] = letter.encode()
+                for i, letter in enumerate(name.encode()):
+                    data_names[k, i] = bytes([letter])
             for k, (key, values) in enumerate(mesh.point_sets.items()):
                 values = np.asarray(values)
                 dim1 = f"num_nod_ns{k + 1}"
-- 
2.43.0


From fe81b35131524a5a050b682e488da65787cc4ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:03 +0000
Subject: [PATCH 163/191] fix: ASCII Gmsh, VTK, Tecplot, TetGen files with
 boolean data couldn't be read

---
 src/meshio/gmsh/common.py      | 3 +++
 src/meshio/tecplot/_tecplot.py | 2 ++
 src/meshio/tetgen/_tetgen.py   | 2 ++
 src/meshio/vtk/_vtk_42.py      | 2 ++
 4 files changed, 9 insertions(+)

diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 9c6f69f..00cc5e2 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -290,6 +290,9 @@ def _write_data(fh, tag, name, data, binary):
     if len(data.shape) > 1 and data.shape[1] == 1:
         data = data[:, 0]
 
+    if data.dtype == bool:
+        data = data.astype(int)
+
     fh.write(f"{num_components}\n".encode())
     # num data items
     fh.write(f"{data.shape[0]}\n".encode())
diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 46458f7..3d84aff 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -501,6 +501,8 @@ def write(filename, mesh):
 
 
 def _write_table(f, data, ncol=20):
+    if data.dtype == bool:
+        data = data.astype(int)
     nrow = len(data) // ncol
     lines = np.split(data, np.full(nrow, ncol).cumsum())
     for line in lines:
diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index a374511..3bff068 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -150,6 +150,7 @@ def write(filename, mesh, float_fmt=".16e"):
                 + [mesh.point_data[key][k] for key in attr_keys]
                 + [mesh.point_data[key][k] for key in ref_keys]
             )
+            data = [int(x) if isinstance(x, np.bool_) else x for x in data]
             fh.write(fmt.format(k, *data))
 
     if any(c.type != "tetra" for c in mesh.cells):
@@ -182,6 +183,7 @@ def write(filename, mesh, float_fmt=".16e"):
                 continue
             for k, tet in enumerate(c.data):
                 data = list(tet[:4]) + [mesh.cell_data[key][id][k] for key in attr_keys]
+                data = [int(x) if isinstance(x, np.bool_) else x for x in data]
                 fh.write(fmt.format(tet_id, *data))
                 tet_id += 1
 
diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 7f0d421..21b8e6f 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -768,6 +768,8 @@ def _write_field_data(f, data, binary):
             values.astype(values.dtype.newbyteorder(">")).tofile(f, sep="")
         else:
             # ascii
+            if values.dtype == bool:
+                values = values.astype(int)
             values.tofile(f, sep=" ")
             # np.savetxt(f, points)
         f.write(b"\n")
-- 
2.43.0


From c9fa4b1324bda208cbd818af2f79a45390f3b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:53 +0000
Subject: [PATCH 164/191] fix: Nastran numbers with a double precision exponent
 (1.5D-3) couldn't be read

---
 src/meshio/nastran/_nastran.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index bedb926..a30d682 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -473,6 +473,9 @@ def _nastran_string_to_float(string):
         return float(string)
     except ValueError:
         string = string.strip()
+        # double precision, e.g., 1.5D-3
+        if "D" in string.upper():
+            return float(string.upper().replace("D", "E"))
         return float(string[0] + string[1:].replace("+", "e+").replace("-", "e-"))
 
 
-- 
2.43.0


From cb87401f9f4262320687a327622c33cf1622b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:11 +0000
Subject: [PATCH 165/191] fix: binary Medit files cut large references to 32
 bits

---
 src/meshio/medit/_medit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index ab01d71..9ea8a78 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -407,6 +407,13 @@ def write_binary_file(f, mesh):
             if cell_block.data.dtype.itemsize == 8:
                 has_big_ints = True
                 break
+        # the references may need 64 bits, too
+        for data in [mesh.point_data, mesh.cell_data]:
+            key, _ = _pick_first_int_data(data)
+            refs = [] if key is None else data[key]
+            for ref in refs if isinstance(refs, list) else [refs]:
+                if np.any(ref.astype("i4") != ref):
+                    has_big_ints = True
 
         if has_big_ints:
             itype = "i8"
-- 
2.43.0


From b698f72fcdc0ebad1797af0b8060ba0e04999402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:08 +0000
Subject: [PATCH 166/191] fix: SU2 reader cut large marker tags to 32 bits

---
 src/meshio/su2/_su2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index 353d8a7..d611ebe 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -151,10 +151,10 @@ def read_buffer(f):
                 num_block_elems = len(data)
                 if name == "NELEM":
                     cell_data["su2:tag"].append(
-                        np.full(num_block_elems, 0, dtype=np.int32)
+                        np.full(num_block_elems, 0, dtype=int)
                     )
                 else:
-                    tags = np.full(num_block_elems, next_tag_id, dtype=np.int32)
+                    tags = np.full(num_block_elems, next_tag_id, dtype=int)
                     cell_data["su2:tag"].append(tags)
 
         elif name == "NMARK":
-- 
2.43.0


From 2ba2b0cdc26cc657b7220a17aec0ca44efdc538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:30 +0000
Subject: [PATCH 167/191] fix: SU2 reader failed on files with points after
 many elements

---
 src/meshio/su2/_su2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index d611ebe..8bc2550 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -120,7 +120,8 @@ def read_buffer(f):
             num_elems = int(rest_of_line)
             if num_elems == 0:
                 continue
-            gen = islice(f, num_elems)
+            # (readline() because np.fromfile() doesn't find the position after next())
+            gen = islice(iter(f.readline, ""), num_elems)
 
             # some files has an extra int column while other not
             # We do not need it so make sure we will skip it
-- 
2.43.0


From a3d9d36cf8ee931eea06d40fcfd0e373a300def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:00 +0000
Subject: [PATCH 168/191] fix: VTK readers lost track of the file at
 COLOR_SCALARS and LOOKUP_TABLE sections

---
 src/meshio/vtk/_vtk_42.py | 14 ++++++++++----
 src/meshio/vtk/_vtk_51.py | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 21b8e6f..c3623e2 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -206,18 +206,24 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # info.num_items is the number of points/cells, don't override it
+        num_colors = int(info.split[2])
+        if info.is_ascii:
+            np.fromfile(f, count=num_colors * 4, sep=" ", dtype=float)
+        else:
+            np.fromfile(f, count=num_colors * 4, dtype=np.ubyte)
+        # rgba = data.reshape((num_colors, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
         dtype = np.ubyte
+        sep = ""
         if info.is_ascii:
             dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+            sep = " "
+        np.fromfile(f, count=num_items * nValues, dtype=dtype, sep=sep)
 
 
 def _read_subsection(f, info):
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 9252b97..e2d4abc 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -179,18 +179,24 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # info.num_items is the number of points/cells, don't override it
+        num_colors = int(info.split[2])
+        if info.is_ascii:
+            np.fromfile(f, count=num_colors * 4, sep=" ", dtype=float)
+        else:
+            np.fromfile(f, count=num_colors * 4, dtype=np.ubyte)
+        # rgba = data.reshape((num_colors, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
         dtype = np.ubyte
+        sep = ""
         if info.is_ascii:
             dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+            sep = " "
+        np.fromfile(f, count=num_items * nValues, dtype=dtype, sep=sep)
 
 
 def _read_subsection(f, info):
-- 
2.43.0


From fd054017c67fd21cebbb26b003e444f8b377cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:58 +0000
Subject: [PATCH 169/191] fix: VTU reader cut raw appended data that isn't
 followed by a line break

---
 src/meshio/vtu/_vtu.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 3e753f7..6fa9f87 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -202,7 +202,7 @@ def _parse_raw_binary(filename):
 
     header = raw[:i_start].decode()
     footer = raw[i_stop:].decode()
-    data = raw[i_start:i_stop].split(b"_", 1)[1].rsplit(b"\n", 1)[0]
+    data = raw[i_start:i_stop].split(b"_", 1)[1]
 
     root = ET.fromstring(header + footer)
 
@@ -227,18 +227,13 @@ def _parse_raw_binary(filename):
     compressor = root.get("compressor")
     if compressor is None:
         arrays = ""
-        i = 0
-        while i < len(data):
-            da_tag = da_tags.get(i)
-            if da_tag is None:
-                raise RuntimeError(f"Could not find .//DataArray[@offset='{i}']")
+        for i, da_tag in sorted(da_tags.items()):
             da_tag.set("offset", str(len(arrays)))
 
             block_size = int(np.frombuffer(data[i : i + dtype.itemsize], dtype)[0])
             arrays += base64.b64encode(
                 data[i : i + block_size + dtype.itemsize]
             ).decode()
-            i += block_size + dtype.itemsize
 
     else:
         c = {"vtkLZMADataCompressor": lzma, "vtkZLibDataCompressor": zlib}[compressor]
@@ -246,10 +241,7 @@ def _parse_raw_binary(filename):
 
         # raise ReadError("Compressed raw binary VTU files not supported.")
         arrays = ""
-        i = 0
-        while i < len(data):
-            da_tag = da_tags.get(i)
-            assert da_tag is not None
+        for i, da_tag in sorted(da_tags.items()):
             da_tag.set("offset", str(len(arrays)))
 
             num_blocks = int(np.frombuffer(data[i : i + dtype.itemsize], dtype)[0])
@@ -271,8 +263,6 @@ def _parse_raw_binary(filename):
             block_size = np.array([len(block_data)]).astype(dtype).tobytes()
             arrays += base64.b64encode(block_size + block_data).decode()
 
-            i += j + num_header_bytes
-
     appended_data_tag.text = "_" + arrays
     return root
 
-- 
2.43.0


From 75eb676f942421b3cc03c432604330bb45a4c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 170/191] fix: Nastran reader took the fields after the nodes
 of an element for nodes

---
 src/meshio/nastran/_nastran.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index a30d682..d7be81d 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -239,8 +239,13 @@ def read_buffer(f):
                 # where the last three floats specify the orientation vector.
                 # This information is removed.
                 cell = chunks[3:5]
-            else:
+            elif keyword in ["CTETRA", "CPYRAM", "CPYRA", "CPENTA", "CHEXA"]:
+                # linear or quadratic, depending on the number of nodes
                 cell = chunks[3:]
+            else:
+                # The nodes may be followed by material angle, offset, thicknesses
+                num_nodes = num_nodes_per_cell[nastran_to_meshio_type[keyword]]
+                cell = chunks[3 : 3 + num_nodes]
 
             # remove empty chunks
             cell = [item for item in cell if item != ""]
-- 
2.43.0


From 7ceae6455768015034bf15362222bed0c102824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:36 +0000
Subject: [PATCH 171/191] fix: Medit reader skipped the line after Identifier
 or Geometry with the name on the same line

---
 src/meshio/medit/_medit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 9ea8a78..bbabd70 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -287,7 +287,9 @@ def read_ascii_buffer(f):
                 f, count=num_edge_on_geometric_edge * 2, dtype=int, sep=" "
             ).reshape(num_edge_on_geometric_edge, 2)
         elif items[0] == "Identifier" or items[0] == "Geometry":
-            f.readline()
+            # the name may be on the same line
+            if len(items) < 2:
+                f.readline()
         elif items[0] in [
             "RequiredVertices",
             "TangentAtVertices",
-- 
2.43.0


From 1611d36fa760601e32a57b20d457275ff4f11904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:28 +0000
Subject: [PATCH 172/191] fix: Exodus reader did not put components together
 that are not in the order X, Y, Z

---
 src/meshio/exodus/_exodus.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 2ece335..c1de867 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -217,7 +217,7 @@ def categorize(names):
                 iz = names.index(name[:-1] + "Z")
             except ValueError:
                 iz = None
-            if iy and iz:
+            if iy is not None and iz is not None:
                 triple.append((name[:-1], ix, iy, iz))
                 is_accounted_for[ix] = True
                 is_accounted_for[iy] = True
@@ -231,19 +231,22 @@ def categorize(names):
                 iz = names.index(name[:-2] + "_Z")
             except ValueError:
                 iz = None
-            if iz:
+            if iz is not None:
                 double.append((name[:-2], ir, iz))
                 is_accounted_for[ir] = True
                 is_accounted_for[iz] = True
             else:
                 single.append((name, ir))
                 is_accounted_for[ir] = True
-        else:
-            single.append((name, k))
-            is_accounted_for[k] = True
 
         k += 1
 
+    # The components don't have to be in order, so pick up the rest only now
+    for k, name in enumerate(names):
+        if not is_accounted_for[k]:
+            single.append((name, k))
+            is_accounted_for[k] = True
+
     if not all(is_accounted_for):
         raise ReadError()
     return single, double, triple
-- 
2.43.0


From 75ec10343e3507d1fa8591c1eeb1e781bffdc93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:38 +0000
Subject: [PATCH 173/191] fix: VTK and VTU meshes without cells or with empty
 blocks could not be written or read

---
 src/meshio/_vtk_common.py |  3 +++
 src/meshio/vtk/_vtk_42.py |  3 +++
 src/meshio/vtk/_vtk_51.py |  5 ++++-
 src/meshio/vtu/_vtu.py    | 14 ++++++++++++--
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/meshio/_vtk_common.py b/src/meshio/_vtk_common.py
index 9799187..f886926 100644
--- a/src/meshio/_vtk_common.py
+++ b/src/meshio/_vtk_common.py
@@ -108,6 +108,9 @@ def vtk_cells_from_data(connectivity, offsets, types, cell_data_raw):
     cell_data = {}
 
     for start, end in start_end:
+        if start == end:
+            # no cells at all
+            continue
         try:
             meshio_type = vtk_to_meshio_type[types[start]]
         except KeyError:
diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index c3623e2..30648c5 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -475,6 +475,9 @@ def _read_fields(f, num_fields, is_ascii):
     data = {}
     for _ in range(num_fields):
         line = f.readline().decode().split()
+        if not line:
+            # left over by an array without entries
+            line = f.readline().decode().split()
         if line[0] == "METADATA":
             _skip_meta(f)
             name, shape0, shape1, data_type = f.readline().decode().split()
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index e2d4abc..a3ad2a5 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -456,6 +456,9 @@ def _read_fields(f, num_fields, is_ascii):
     data = {}
     for _ in range(num_fields):
         line = f.readline().decode().split()
+        if not line:
+            # left over by an array without entries
+            line = f.readline().decode().split()
         if line[0] == "METADATA":
             _skip_meta(f)
             name, shape0, shape1, data_type = f.readline().decode().split()
@@ -600,7 +603,7 @@ def _write_cells(f, cells, binary):
     for cell_block in cells:
         m, n = cell_block.data.shape
         offsets.append(np.arange(k + n, k + (m + 1) * n, n))
-        k = offsets[-1][-1]
+        k += m * n
     offsets = np.concatenate(offsets)
 
     if binary:
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 6fa9f87..f8cb549 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -507,6 +507,9 @@ class VtuReader:
             self.compression
         ]
 
+        if num_blocks == 0:
+            return np.empty(0, dtype=dtype)
+
         # process the compressed data
         block_data = np.concatenate(
             [
@@ -531,7 +534,7 @@ class VtuReader:
 
         if fmt == "ascii":
             # ascii
-            if c.text.strip() == "":
+            if c.text is None or c.text.strip() == "":
                 # https://github.com/numpy/numpy/issues/18435
                 data = np.empty((0,), dtype=dtype)
             else:
@@ -801,6 +804,12 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
         pts = ET.SubElement(piece, "Points")
         numpy_to_xml_array(pts, "Points", points)
 
+    if mesh.cells is not None and len(mesh.cells) == 0:
+        # The section is required, even without cells
+        cls = ET.SubElement(piece, "Cells")
+        for name in ["connectivity", "offsets", "types"]:
+            numpy_to_xml_array(cls, name, np.empty(0, dtype=np.int64))
+
     if mesh.cells is not None and len(mesh.cells) > 0:
         cls = ET.SubElement(piece, "Cells")
 
@@ -849,8 +858,9 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
                 v.data.shape[1] * np.arange(1, v.data.shape[0] + 1, dtype=np.int64)
                 for v in mesh.cells
             ]
+            num_idx = np.cumsum([v.data.size for v in mesh.cells])
             for k in range(1, len(offsets)):
-                offsets[k] += offsets[k - 1][-1]
+                offsets[k] += num_idx[k - 1]
             offsets = np.concatenate(offsets)
 
         # types
-- 
2.43.0


From 54ff9c6237b728ca2c0fc8532459f615b6b868b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:32 +0000
Subject: [PATCH 174/191] fix: Meshes without cells or with empty blocks could
 not be written or read in several formats

---
 src/meshio/_common.py        |  2 ++
 src/meshio/abaqus/_abaqus.py |  4 +++-
 src/meshio/avsucd/_avsucd.py |  2 +-
 src/meshio/gmsh/_gmsh22.py   |  3 +++
 src/meshio/gmsh/_gmsh41.py   | 12 +++++++++++-
 src/meshio/med/_med.py       |  3 ++-
 src/meshio/permas/_permas.py |  4 +++-
 src/meshio/ply/_ply.py       |  2 ++
 src/meshio/stl/_stl.py       |  2 +-
 src/meshio/wkt/_wkt.py       |  5 ++++-
 src/meshio/xdmf/common.py    |  3 +++
 src/meshio/xdmf/main.py      |  4 +++-
 12 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index 666211d..16a5372 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -90,6 +90,8 @@ num_nodes_per_cell = {
 
 
 def cell_data_from_raw(cells, cell_data_raw):
+    if len(cells) == 0:
+        return {name: [] for name in cell_data_raw}
     cs = np.cumsum([len(c) for c in cells])[:-1]
     return {name: np.split(d, cs) for name, d in cell_data_raw.items()}
 
diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 9cc9ff8..60c7c72 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -271,7 +271,9 @@ def _read_cells(f, params_map, point_ids):
 
     idx = np.array(idx).reshape((-1, num_data))
     cell_ids = dict(zip(idx[:, 0], count(0)))
-    cells = np.array([[point_ids[node] for node in elem] for elem in idx[:, 1:]])
+    cells = np.array(
+        [[point_ids[node] for node in elem] for elem in idx[:, 1:]], dtype=int
+    ).reshape(-1, num_data - 1)
 
     cell_sets = (
         {params_map["ELSET"]: np.arange(len(cells), dtype="int32")}
diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index a149a55..2ee3289 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -71,7 +71,7 @@ def read_buffer(f):
         cdata = _read_data(f, num_cells, cell_ids)
         sections = np.cumsum([len(c) for c in cells[:-1]])
         for k, v in cdata.items():
-            cell_data[k] = np.split(v, sections)
+            cell_data[k] = np.split(v, sections) if cells else []
 
     return Mesh(points, cells, point_data=point_data, cell_data=cell_data)
 
diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 0a0e34b..0c6b62d 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -372,6 +372,9 @@ def _write_elements(fh, cells: list[CellBlock], tag_data, binary: bool):
                 tags.append(tag_data[name][k])
         fcd = np.concatenate([tags]).astype(c_int).T
 
+        if len(node_idcs) == 0:
+            continue
+
         if len(fcd) == 0:
             fcd = np.empty((len(node_idcs), 0), dtype=c_int)
 
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 33f1282..6968fe5 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -418,6 +418,10 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     # similar not array.
     cell_dim_tags = np.empty((len(cells), 2), dtype=int)
     for ci, cell_block in enumerate(cells):
+        if len(cell_block) == 0:
+            # there's no entity for an empty block
+            cell_dim_tags[ci] = -1
+            continue
         cell_dim_tags[ci] = [
             cell_block.dim,
             tag_data["gmsh:geometrical"][ci][0]
@@ -433,6 +437,7 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     node_dim_tags = np.unique(
         np.concatenate([point_data["gmsh:dim_tags"], cell_dim_tags]), axis=0
     )
+    node_dim_tags = node_dim_tags[node_dim_tags[:, 0] >= 0]
 
     # Write number of entities per dimension
     num_occ = np.bincount(node_dim_tags[:, 0], minlength=4)
@@ -668,7 +673,8 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
     fh.write(b"$Elements\n")
 
     total_num_cells = sum(len(c) for c in cells)
-    num_blocks = len(cells)
+    # an empty block doesn't have an entity
+    num_blocks = sum(len(c) > 0 for c in cells)
     min_element_tag = 1
     max_element_tag = total_num_cells
     if binary:
@@ -679,6 +685,8 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
 
         tag0 = 1
         for ci, cell_block in enumerate(cells):
+            if len(cell_block) == 0:
+                continue
             node_idcs = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
             if node_idcs.dtype != c_size_t:
                 # Binary Gmsh needs c_size_t. Converting."
@@ -724,6 +732,8 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
 
         tag0 = 1
         for ci, cell_block in enumerate(cells):
+            if len(cell_block) == 0:
+                continue
             node_idcs = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
 
             # entityDim(int) entityTag(int) elementType(int) numElementsBlock(size_t)
diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 17ddc21..2d3fa9a 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -89,7 +89,8 @@ def read(filename):
         cell_types.append(cell_type)
         nod = med_cell_type_group["NOD"]
         n_cells = nod.attrs["NBR"]
-        cells += [(cell_type, nod[()].reshape(n_cells, -1, order="F") - 1)]
+        num_nodes = num_nodes_per_cell[cell_type]
+        cells += [(cell_type, nod[()].reshape(n_cells, num_nodes, order="F") - 1)]
 
         # Cell tags
         tags.append(
diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index 8ffb701..8743d28 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -7,7 +7,7 @@ import gzip
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import warn
+from .._common import num_nodes_per_cell, warn
 from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
@@ -170,6 +170,8 @@ def _read_cells(f, line0, point_gids):
             cells.append(idx)
             idx = []
     f.seek(last_pos)
+    if len(cells) == 0:
+        cells = np.empty((0, num_nodes_per_cell[cell_type]), dtype=int)
     cells = np.array(cells)
     if cell_type in meshio_to_permas_order:
         cells = cells[:, np.argsort(meshio_to_permas_order[cell_type])]
diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 128f336..1b55722 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -518,6 +518,8 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                         + "- skipping"
                     )
                     continue
+                if len(cell_block) == 0:
+                    continue
                 #                if cell_type not in cell_type_to_count.keys():
                 #                    continue
                 d = cell_block.data
diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index e227364..a5419a2 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -131,7 +131,7 @@ def _read_ascii(f):
     data = data[~facet_rows]
 
     if data.shape[0] == 0:
-        points = []
+        points = np.empty((0, 3), dtype=float)
         cells = {}
         cell_data = {}
     else:
diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index b989d0e..da7d12d 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -57,7 +57,10 @@ def read_str(s):
         else:
             raise e
 
-    tri_arr = np.array(tri_idxs, np.uint64)
+    if len(point_arr) == 0:
+        point_arr = np.empty((0, 3))
+
+    tri_arr = np.array(tri_idxs, np.uint64).reshape(-1, 3)
 
     return Mesh(point_arr, [CellBlock("triangle", tri_arr)])
 
diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index 216f0cb..b7338d8 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -143,6 +143,9 @@ def translate_mixed_cells(data):
         r += 1
         r += xdmf_idx_to_num_nodes[xdmf_type]
 
+    if len(types) == 0:
+        return []
+
     types = np.array(types)
     offsets = np.array(offsets)
 
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index a21967a..b03cde0 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -385,7 +385,9 @@ class XdmfWriter:
             s = BytesIO()
             fmt = dtype_to_format_string[data.dtype.name]
             # savetxt only takes 1D and 2D data
-            np.savetxt(s, data if data.ndim < 3 else data.reshape(len(data), -1), fmt)
+            if data.ndim > 2:
+                data = data.reshape(len(data), np.prod(data.shape[1:]))
+            np.savetxt(s, data, fmt)
             return "\n" + s.getvalue().decode()
         elif self.data_format == "Binary":
             base = os.path.splitext(self.filename)[0]
-- 
2.43.0


From 59e1a4f308803f0041e2d3eb0c7495e7979c7f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:42 +0000
Subject: [PATCH 175/191] fix: Nastran files without a newline at the end could
 not be read

---
 src/meshio/nastran/_nastran.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index d7be81d..e477187 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -485,9 +485,8 @@ def _nastran_string_to_float(string):
 
 
 def _chunk_line(line: str) -> tuple[list[str], bool]:
-    # remove terminal newline
-    assert line[-1] == "\n"
-    line = line[:-1]
+    # remove terminal newline (the last line of a file may not have one)
+    line = line.rstrip("\n")
     if "," in line:
         # free format
         return line.split(","), True
-- 
2.43.0


From 490bb2306778a5413c9907ee7c1ad983d0eea8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:43 +0000
Subject: [PATCH 176/191] fix: Netgen and TetGen files with tabs could not be
 read

---
 src/meshio/netgen/_netgen.py | 2 +-
 src/meshio/tetgen/_tetgen.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 6c6186b..bb6d774 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -146,7 +146,7 @@ def _read_cells(f, netgen_cell_type, cells, cells_index, skip_every_other_line=F
 
     for _ in range(num_cells):
         line, _ = _fast_forward_over_blank_lines(f)
-        data = list(filter(None, line.split(" ")))
+        data = line.split()
         index = int(data[i_index])
         if dim == 2:
             nump = int(data[4])
diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 3bff068..c93a5c7 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -44,7 +44,7 @@ def read(filename):
         line = _next_line(f)
 
         num_points, dim, num_attrs, num_bmarkers = (
-            int(item) for item in line.split(" ") if item != ""
+            int(item) for item in line.split() if item != ""
         )
         if dim != 3:
             raise ReadError("Need 3D points.")
@@ -75,7 +75,7 @@ def read(filename):
         line = _next_line(f)
 
         num_tets, num_points_per_tet, num_attrs = (
-            int(item) for item in line.strip().split(" ") if item != ""
+            int(item) for item in line.strip().split() if item != ""
         )
         if num_points_per_tet != 4:
             raise ReadError()
-- 
2.43.0


From b3f3206b7771b3bf45c9d6c2c480db5ccc5c8aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:44 +0000
Subject: [PATCH 177/191] fix: XDMF binary files were only found from the
 directory they were written in

---
 src/meshio/xdmf/common.py      | 14 ++++++++++++++
 src/meshio/xdmf/main.py        |  6 ++++--
 src/meshio/xdmf/time_series.py |  6 ++++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index b7338d8..19f308c 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -1,3 +1,6 @@
+import os
+import pathlib
+
 import numpy as np
 
 from .._common import num_nodes_per_cell
@@ -18,6 +21,17 @@ numpy_to_xdmf_dtype = {
 }
 xdmf_to_numpy_type = {v: k for k, v in numpy_to_xdmf_dtype.items()}
 
+
+def binary_path(xdmf_filename, filename):
+    # The path of a binary file is given with respect to the XDMF (XML) file.
+    if isinstance(xdmf_filename, (str, os.PathLike)):
+        path = pathlib.Path(xdmf_filename).resolve().parent / filename
+        if path.exists():
+            return path
+    # older meshio versions: with respect to the working directory
+    return filename
+
+
 dtype_to_format_string = {
     "int8": "%d",
     "int16": "%d",
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index b03cde0..655c6f0 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -16,6 +16,7 @@ from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 from .common import (
     attribute_type,
+    binary_path,
     dtype_to_format_string,
     meshio_to_xdmf_type,
     meshio_type_to_xdmf_index,
@@ -94,7 +95,8 @@ class XdmfReader:
 
         elif fmt == "Binary":
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                binary_path(self.filename, data_item.text.strip()),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if fmt != "HDF":
@@ -396,7 +398,7 @@ class XdmfWriter:
             # write binary data to file
             with open(bin_filename, "wb") as f:
                 data.tofile(f)
-            return bin_filename
+            return os.path.basename(bin_filename)
 
         if self.data_format != "HDF":
             raise WriteError(f'Unknown data format "{self.data_format}"')
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index ccbc6d5..a39a8ac 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -13,6 +13,7 @@ from .._exceptions import ReadError, WriteError
 from .._mesh import CellBlock
 from .common import (
     attribute_type,
+    binary_path,
     dtype_to_format_string,
     meshio_to_xdmf_type,
     meshio_type_to_xdmf_index,
@@ -201,7 +202,8 @@ class TimeSeriesReader:
             ).reshape(dims)
         elif data_format == "Binary":
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                binary_path(self.filename, data_item.text.strip()),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if data_format != "HDF":
@@ -332,7 +334,7 @@ class TimeSeriesWriter:
             # write binary data to file
             with open(bin_filename, "wb") as f:
                 data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
-            return bin_filename
+            return os.path.basename(bin_filename)
 
         if self.data_format != "HDF":
             raise WriteError()
-- 
2.43.0


From c29453b3d271f37dae369f0925ffa20fbbec874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:10 +0000
Subject: [PATCH 178/191] fix: XDMF time series changed the cell data
 dictionary given and refused blocks of different sizes in it

---
 src/meshio/xdmf/time_series.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a39a8ac..e8f554e 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -315,9 +315,10 @@ class TimeSeriesWriter:
             self.point_data(point_data, grid)
 
         # permit old dict structure, convert it to list of tuples
-        for name, entry in cell_data.items():
-            if isinstance(entry, dict):
-                cell_data[name] = np.array(list(entry.values()))
+        cell_data = {
+            name: list(entry.values()) if isinstance(entry, dict) else entry
+            for name, entry in cell_data.items()
+        }
         if cell_data:
             self.cell_data(cell_data, grid)
 
-- 
2.43.0


From 47b7293e1fc3d55cc263b879602d299ab69e21a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:53 +0000
Subject: [PATCH 179/191] fix: Gmsh files with tensors as data could not be
 read

---
 src/meshio/gmsh/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 00cc5e2..d4daf3e 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -280,7 +280,9 @@ def _write_data(fh, tag, name, data, binary):
     fh.write(f"{3}\n".encode())
     # time step
     fh.write(f"{0}\n".encode())
-    # number of components
+    # number of components; tensors are stored row by row
+    if len(data.shape) > 2:
+        data = data.reshape(len(data), int(np.prod(data.shape[1:])))
     num_components = data.shape[1] if len(data.shape) > 1 else 1
     if num_components not in [1, 3, 9]:
         raise WriteError("Gmsh only permits 1, 3, or 9 components per data field.")
-- 
2.43.0


From 6a9370191d1acfb57904c1b740f5ab36bcc91298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:53 +0000
Subject: [PATCH 180/191] fix: MED stored the components of tensors at the
 points in the order of their columns

---
 src/meshio/med/_med.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 2d3fa9a..53a831b 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -398,6 +398,10 @@ def _write_data(
     if supp == "ELGA":
         return
 
+    # The components of tensors at the points follow each other row by row
+    if supp == "NOEU" and data.ndim > 2:
+        data = data.reshape(len(data), int(np.prod(data.shape[1:])))
+
     # Field
     try:  # a same MED field may contain fields of different natures
         field = fields.create_group(name)
-- 
2.43.0


From b01a839a10d58752a1154c1670abe5d7c2f4b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:59 +0000
Subject: [PATCH 181/191] fix: Gmsh data that isn't given for all nodes or
 elements

---
 src/meshio/gmsh/common.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index d4daf3e..1b981b3 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -58,11 +58,16 @@ def _sort_by_tags(data, index, tags):
     tags = np.asarray(tags, dtype=int)
     i = np.argsort(tags, kind="stable")
     j = np.argsort(index, kind="stable")
-    if not np.array_equal(tags[i], index[j]):
+    if np.array_equal(tags[i], index[j]):
+        out = np.empty_like(data)
+        out[i] = data[j]
+        return out
+    if not np.isin(index, tags).all():
         # cannot be matched
         return data
-    out = np.empty_like(data)
-    out[i] = data[j]
+    # Data doesn't have to be given for all nodes/elements
+    out = np.full((len(tags), *data.shape[1:]), np.nan)
+    out[i[np.searchsorted(tags[i], index)]] = data
     return out
 
 
@@ -103,6 +108,8 @@ def _read_data(f, tag, data_dict, data_size, is_ascii, item_tags=None):
         # binary
         dtype = [("index", c_int), ("values", c_double, (num_components,))]
         data = np.fromfile(f, count=num_items, dtype=dtype)
+        if len(data) != num_items:
+            raise ReadError("Unexpected end of file")
         index = data["index"]
         if item_tags is None and not (index == range(1, num_items + 1)).all():
             raise ReadError()
-- 
2.43.0


From 99b164c560c927cd9a6a986c3105d4da0b99575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:00 +0000
Subject: [PATCH 182/191] fix: Gmsh 4.0 reader misread parametric nodes

---
 src/meshio/gmsh/_gmsh40.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 1310880..2d6e531 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -130,7 +130,9 @@ def _read_nodes(f, is_ascii):
             # first line in the entity block:
             # tagEntity(int) dimEntity(int) typeNode(int) numNodes(unsigned long)
             line = f.readline().decode()
-            _, _, _, num_nodes = map(int, line.split())
+            _, _, parametric, num_nodes = map(int, line.split())
+            if parametric != 0:
+                raise ReadError("parametric nodes not implemented")
             for _ in range(num_nodes):
                 # tag(int) x(double) y(double) z(double)
                 line = f.readline().decode()
@@ -146,7 +148,9 @@ def _read_nodes(f, is_ascii):
         tags = []
         for _ in range(num_entity_blocks):
             # tagEntity(int) dimEntity(int) typeNode(int) numNodes(unsigned long)
-            np.fromfile(f, count=3, dtype=c_int)
+            _, _, parametric = np.fromfile(f, count=3, dtype=c_int)
+            if parametric != 0:
+                raise ReadError("parametric nodes not implemented")
             num_nodes = np.fromfile(f, count=1, dtype=c_ulong)[0]
             dtype = [("tag", c_int), ("x", c_double, (3,))]
             data = np.fromfile(f, count=num_nodes, dtype=dtype)
-- 
2.43.0


From 7d6f4d340a620dee6c635c9be91427a14ac171c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:00 +0000
Subject: [PATCH 183/191] fix: Gmsh 4.0 reader refused blank lines between
 sections

---
 src/meshio/gmsh/_gmsh40.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 2d6e531..7221bd9 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -13,6 +13,7 @@ from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
 from .._exceptions import ReadError
 from .._mesh import CellBlock, Mesh
 from .common import (
+    _fast_forward_over_blank_lines,
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
     _gmsh_to_meshio_type,
@@ -43,9 +44,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
     point_tags = None
     cell_item_tags = None
     while True:
-        line = f.readline().decode()
-        if not line:
-            # EOF
+        # fast-forward over blank lines
+        line, is_eof = _fast_forward_over_blank_lines(f)
+        if is_eof:
             break
         if line[0] != "$":
             raise ReadError
-- 
2.43.0


From 1726430e3b9228102ae7ee6740ada0d73cc4a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:00 +0000
Subject: [PATCH 184/191] fix: VTK rectilinear grids with axes of different
 type

---
 src/meshio/vtk/_vtk_42.py | 2 +-
 src/meshio/vtk/_vtk_51.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 30648c5..8a4950a 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -347,7 +347,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = np.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = np.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = np.empty((pnt_no, 3), dtype=np.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index a3ad2a5..267a4e3 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -328,7 +328,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = np.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = np.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = np.empty((pnt_no, 3), dtype=np.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
-- 
2.43.0


From 32f9d4fb76d2fb98cae33b7bdd7298a7a035adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:46 +0000
Subject: [PATCH 185/191] fix: VTU files of several pieces with connectivity of
 a small integer type

---
 src/meshio/vtu/_vtu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index f8cb549..d32c680 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -153,7 +153,10 @@ def _organize_cells(point_offsets, cells, cell_data_raw):
                 cdr,
             )
             for c in cls:
-                out_cells.append(CellBlock(c.type, c.data + offset))
+                # small integers cannot necessarily hold the shifted indices
+                small = c.data.dtype.itemsize < 4
+                data = c.data.astype(np.int32) if small else c.data
+                out_cells.append(CellBlock(c.type, data + offset))
             for name, d in piece_cell_data.items():
                 cell_data.setdefault(name, []).extend(d)
 
-- 
2.43.0


From e50958a189237ba214029ca852421246058c4f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:51 +0000
Subject: [PATCH 186/191] fix: PERMAS reader failed at blank lines

---
 src/meshio/permas/_permas.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index 8743d28..5e4f4ee 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -132,7 +132,9 @@ def _read_nodes(f):
     while True:
         last_pos = f.tell()
         line = f.readline()
-        if line.startswith("!"):
+        if not line:
+            raise ReadError("Unexpected end of file")
+        if line.startswith("!") or line.strip() == "":
             continue
         if line.startswith("$"):
             break
@@ -162,7 +164,7 @@ def _read_cells(f, line0, point_gids):
         if line.startswith("$") or line == "":
             break
         line = line.strip()
-        if line.startswith("!"):
+        if line.startswith("!") or line == "":
             continue
         # the first item is just a running index
         idx += [point_gids[int(k)] for k in line.rstrip("!").split()[1:]]
-- 
2.43.0


From 93fa9fcc1e7bbf4542bc0d636d80c1e818e5df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:59 +0000
Subject: [PATCH 187/191] fix: VTK 5.1 reader only knew lower-case types of the
 connectivity

---
 src/meshio/vtk/_vtk_51.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 267a4e3..8b86343 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -153,12 +153,12 @@ def _read_section(f, info):
         # https://discourse.paraview.org/t/specification-of-vtk-datafile-version-5-1/5127
         info.num_offsets = int(info.split[1])
         info.num_items = int(info.split[2])
-        dtype = np.dtype(vtk_to_numpy_dtype_name[line.split()[1]])
+        dtype = np.dtype(vtk_to_numpy_dtype_name[line.split()[1].lower()])
         offsets = _read_int_data(f, info.is_ascii, info.num_offsets, dtype)
 
         line = f.readline().decode()
         assert line.startswith("CONNECTIVITY")
-        dtype = np.dtype(vtk_to_numpy_dtype_name[line.split()[1]])
+        dtype = np.dtype(vtk_to_numpy_dtype_name[line.split()[1].lower()])
         connectivity = _read_int_data(f, info.is_ascii, info.num_items, dtype)
         info.connectivity = connectivity
         assert offsets[0] == 0
-- 
2.43.0


From 86eb0b1e7094d54282a7064d7cd54cb3692d4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:38 +0000
Subject: [PATCH 188/191] fix: MED writer failed for component names that
 aren't ASCII

---
 src/meshio/med/_med.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 53a831b..da16f4e 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -415,9 +415,8 @@ def _write_data(
         # field.attrs.create("NOM", np.bytes_("".join(f"{name:<16}" for name in names)))
 
         if field_name:
-            field.attrs.create(
-                "NOM", np.bytes_("".join(f"{name:<16}" for name in field_name))
-            )
+            nom = "".join(f"{name:<16}" for name in field_name)
+            field.attrs.create("NOM", np.bytes_(nom.encode()))
         else:
             field.attrs.create("NOM", np.bytes_(f"{'':<16}"))
 
-- 
2.43.0


From bdaf78edf5d290182e9e36cb27041e5eba973fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:09 +0000
Subject: [PATCH 189/191] fix: MED: group names that aren't ASCII were damaged
 or failed

---
 src/meshio/med/_med.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index da16f4e..26ac429 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -225,7 +225,8 @@ def _read_families(fas_data):
         nom_dataset = node_set["GRO"]["NOM"][()]  # (n_subsets, 80) of int8
         name = [None] * n_subsets
         for i in range(n_subsets):
-            name[i] = "".join([chr(x) for x in nom_dataset[i]]).strip().rstrip("\x00")
+            nom = nom_dataset[i].astype(np.int8).tobytes().decode(errors="replace")
+            name[i] = nom.strip().rstrip("\x00")
         families[set_id] = name
     return families
 
@@ -480,9 +481,9 @@ def _write_families(fm_group, tags):
         dataset = group.create_dataset("NOM", (len(name),), dtype="80int8")
         for i in range(len(name)):
             # make name 80 characters
-            name_80 = name[i] + "\x00" * (80 - len(name[i]))
+            name_80 = name[i].encode().ljust(80, b"\x00")
             # Needs numpy array, see <https://github.com/h5py/h5py/issues/1735>
-            dataset[i] = np.array([ord(x) for x in name_80])
+            dataset[i] = np.frombuffer(name_80, dtype=np.int8)
 
 
 register_format("med", [".med"], read, {"med": write})
-- 
2.43.0


From 7af7d08a142039893844373565bd491bc5c5277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:54 +0000
Subject: [PATCH 190/191] fix: MED files with slashes in group names couldn't
 be read

---
 src/meshio/med/_med.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 26ac429..f08d8c5 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -474,7 +474,8 @@ def _family_name(set_id, name):
 def _write_families(fm_group, tags):
     """Write point/cell tag information under FAS/[mesh_name]"""
     for set_id, name in tags.items():
-        family = fm_group.create_group(_family_name(set_id, name))
+        # HDF5 groups can't have a slash in their name
+        family = fm_group.create_group(_family_name(set_id, name).replace("/", "_"))
         family.attrs.create("NUM", set_id)
         group = family.create_group("GRO")
         group.attrs.create("NBR", len(name))  # number of subsets
-- 
2.43.0


From d6a78ee41db0713280e2bf9af5d182665b2cd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:54 +0000
Subject: [PATCH 191/191] fix: MED reader failed at families without groups

---
 src/meshio/med/_med.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index f08d8c5..ff9b798 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -221,6 +221,9 @@ def _read_families(fas_data):
     families = {}
     for _, node_set in fas_data.items():
         set_id = node_set.attrs["NUM"]  # unique set id
+        if "GRO" not in node_set:  # family without groups
+            families[set_id] = []
+            continue
         n_subsets = node_set["GRO"].attrs["NBR"]  # number of subsets
         nom_dataset = node_set["GRO"]["NOM"][()]  # (n_subsets, 80) of int8
         name = [None] * n_subsets
-- 
2.43.0

