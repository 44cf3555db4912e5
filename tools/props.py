#!/usr/bin/env python3
"""The property list; running this file rewrites properties.jsonl."""
import json, os, sys

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("P01", "Lists behave as ordered sequences under any history of operations",
  "A list always holds exactly the entries put into it and not yet taken out, in order; every query (count, i-th entry, membership, position, iteration, sorted search) answers accordingly after any sequence of adding, inserting, replacing, removing, compressing, copying, sorting and concatenating. An iteration in progress survives removals: it still visits each remaining entry once, in order. Requests naming a position or entry that is not there are refused and change nothing.",
  ["histories", "inputs"], "all operation sequences up to a depth, from lists of every size around the growth thresholds, with and without holes",
  "Existing tests use lists only incidentally and never interleave removals, concatenation and growth; holes, growth and cached hole position interact only over histories.",
  ["src/util/List.c", "include/List.h"],
  [("List_Add/ChknAdd/Insert/Inserti/Rem/Remi/RemSorted/Replace/Replacei/Compress/Copy/Cat", "src/util/List.c"), ("first-hole shortcut and 2^p-1 growth", "pvtList_Get_Pars/pvtList_Set_Pars in src/util/List.c")],
  [("remdat", "number of holes and position of the first one", "include/List.h"), ("nentdat", "entry count and capacity exponent", "include/List.h")])

p("P02", "Entity sets hold exactly the entities put in, and set algebra is exact",
  "An entity set answers count, membership, position and iteration exactly as the ordered collection of entities added and not removed, under any history of additions, insertions, removals, replacements and renames; adding is refused only for entities already there. Union, intersection and difference of sets give exactly the mathematical result, without duplicates, leave their operands unchanged and leave no marks behind; concatenation appends the other set's entities in order. A set is found in its mesh by the name it currently has, and disappears from the mesh when deleted.",
  ["histories", "inputs"], "all operation sequences up to a depth over a small universe of entities, all pairs of subsets for the algebra; with and without the marker optimisation",
  "The one set test runs a fixed script; subsets, duplicates, holes and marker interplay are not sampled.",
  ["src/base/MSet.c", "src/base/Mesh.c"],
  [("MSet_* operations", "src/base/MSet.c"), ("MSets_Union/Intersect/Subtract/Cat", "src/base/MSet.c"), ("MESH_Add_MSet/MESH_MSetByName", "src/base/Mesh.c")])

p("P03", "Mesh population, IDs and lookup are exact under create, delete, restore",
  "After any history of creating, deleting (for good or recoverably) and restoring vertices, edges, faces and regions, the mesh reports exactly the live entities: counts, indexed access and iteration list each live entity once and nothing else. Every live entity has a positive ID of its own, which lookup by ID maps back to that very entity, also with the fast lookup switched on, and an ID of no live entity finds nothing. Deleting or creating entities during an iteration does not make the iteration skip or repeat others.",
  ["histories", "configurations"], "all histories of create/delete/restore/set-ID/enable-lookup/iterate operations up to a depth on small meshes",
  "Tests build meshes and read them; deletion and restoration histories combined with cached sorted lookup are not exercised.",
  ["src/base/Mesh.c", "src/base/MVertex.c", "src/base/MEdge.c", "src/base/MFace.c", "src/base/MRegion.c"],
  [("MESH_Add_*/MESH_Rem_*", "src/base/Mesh.c"), ("MESH_VertexFromID etc. and MESH_Enable_LocalIDSearch", "src/base/Mesh.c"), ("MV_Delete/MV_Restore etc.", "src/base/M{Vertex,Edge,Face,Region}.c")],
  [("max_vid, vertex ID sorted flags", "ID counters and whether the list is sorted by ID", "include/Mesh.h")])

p("P04", "Adjacency is reciprocal and exact at every step of construction and removal",
  "At every point of a history of building and taking down a mesh with full connectivity, all adjacency answers follow from the boundary definitions alone: an entity lists a neighbour above or below exactly when that neighbour's boundary contains it, once, with the direction in which it is used. Vertex, edge, face and region views never disagree, and removing an entity removes it from all of them and leaves all other answers unchanged.",
  ["histories", "configurations"], "all small edge, face and region complexes in the alphabet, all deletion orders up to a depth, both full representations",
  "Tests check selected adjacencies of a handful of meshes after construction, rarely after removal.",
  ["src/base/MVertex_F1.c", "src/base/MVertex_F4.c", "src/base/MEdge_F1.c", "src/base/MEdge_F4.c", "src/base/MFace_F1.c", "src/base/MFace_F4.c", "src/base/MRegion_F1.c", "src/base/MRegion_F4.c"],
  [("Add/Rem upward adjacency on set and delete", "src/base/M*_F1.c, M*_F4.c"), ("MR_Set_Faces, MF_Set_Edges, MF_Rem_Edge, MR_Rem_Face, MR_Replace_Faces", "src/base")])

p("P05", "All mesh representations give the same answers to the same queries",
  "The same mesh described by element vertex lists gives the same topology whichever representation stores it, full or reduced: element vertex order, the vertex sets of faces and edges of every element, upward neighbours of every vertex, edge and face, and element-to-element neighbours. Queries that build missing edges or faces on the fly return one and the same entity for the same vertices while it is in use, and repeating a query never changes an answer.",
  ["inputs", "configurations"], "all meshes of up to a few elements from the tet/pyramid/prism/hex/tri/quad gluing alphabet, every representation, every query, several query orders",
  "Existing tests use one representation almost exclusively.",
  ["src/base", "src/util/Hash.c"],
  [("R1/R2/R4/F1/F4 jump tables", "include/M*_jmp.h"), ("volatile entities in hash tables", "src/util/Hash.c")])

p("P06", "Face boundaries are reported consistently from any start and in any direction",
  "For a face with any number of edges given in either direction each, the reported vertices, edges and edge directions describe one and the same closed loop, walked forward or backward and started at any requested vertex; per-edge direction queries agree with the loop. Setting a face by vertices, by edges, replacing or removing or reversing edges gives exactly the loop that the operation describes, also for faces with more than 32 edges.",
  ["inputs", "histories"], "all direction patterns of polygons up to a size, sizes around the word-size thresholds, every start vertex and direction, every single replace/insert/reverse",
  "Tests use triangles and quads with few direction patterns.",
  ["src/base/MF_Edge_Funcs_F1F3.c", "src/base/MF_Vertex_Funcs_F1F3.c", "src/base/MF_Edge_Funcs_F2F4.c", "src/base/MF_Vertex_Funcs_F2F4.c", "src/base/MFace.c"],
  [("packed direction bits", "MFace adjacency edirs"), ("MF_Vertices/MF_Edges/MF_EdgeDir/MF_Replace_Edges/MF_Rev_EdgeDir", "src/base")])

p("P07", "Standard elements are recognised and ordered by the documented templates",
  "A region bounded by faces arranged as a tetrahedron, pyramid, prism or hexahedron is recognised as that type, anything else as a general polyhedron, whatever the order in which its faces are listed, their direction and the start vertex of each. Its reported vertices follow the documented numbering for the type (base oriented into the element, opposite vertices matching) and its reported faces are exactly its bounding faces with directions that make every face point out of, or into, the element as told.",
  ["inputs"], "all face orders (or all first faces with all orders for the hexahedron), all direction patterns, all start vertices",
  "Tests read a few files whose faces come in one order.",
  ["src/base/MR_Vertex_Funcs_FNR3R4.c", "src/base/MR_Face_Funcs_FNR3R4.c", "src/base/MRegion_FNR3R4.c", "src/base/MRegion.c"],
  [("MR_Vertices / MR_ElementType / MR_Set_Vertices templates", "src/base/MR_*_Funcs_*.c")])

p("P08", "Attributes are per-entity maps, isolated from each other and from mesh changes",
  "The value read for an attribute on an entity is the last one set there for that attribute, with its type and number of components, zero if it was cleared since, or unset if none was set or it was removed; setting, clearing or deleting one attribute never changes another attribute or another entity. Among attributes created with distinct names, lookup by name finds exactly the live ones, with the definition they were created with, and deleting an attribute or an entity removes exactly its own values.",
  ["histories", "inputs"], "all operation sequences up to a depth over all value types, several attributes and entities, entity deletion and restoration",
  "The attribute test sets and reads back each type once.",
  ["src/base/MAttrib.c", "src/base/MEntity.c", "src/base/Mesh.c"],
  [("MAttrib_New/Delete/Clear", "src/base/MAttrib.c"), ("MEnt_Set_AttVal/Get_AttVal/Clear_AttVal/Rem_AttVal", "src/base/MEntity.c")])

p("P09", "Markers are independent, exclusive while held, and safe to take concurrently",
  "A marker obtained is distinct from every marker currently held, also when several threads obtain and return markers at the same time; marking, unmarking and testing an entity with one marker never affects another marker or entity. Lists and sets can be marked and unmarked as a whole. Library operations return every marker they take and leave no entity marked.",
  ["schedules", "histories"], "all interleavings of two or three threads taking and freeing markers, all mark/unmark sequences up to a depth, all library operations that take markers",
  "Tests are single-threaded and never look at markers.",
  ["src/base/MSTK.c", "src/base/MEntity.c", "src/util/List.c"],
  [("MSTK_GetMarker/MSTK_FreeMarker under marker_lock", "src/base/MSTK.c"), ("MEnt_Mark/IsMarked/Unmark", "src/base/MEntity.c")])

p("P10", "The marker optimisation changes no answer",
  "Built with the marker optimisation switched on, the library gives the same answers, in the same order, as with it off, for adjacency and common-entity queries, set algebra, mesh modification, renumbering, building of classification, and files written and read.",
  ["configurations", "inputs"], "the same exhaustive inputs run in both builds, outputs compared",
  "Only one configuration is ever built and tested.",
  ["src/base", "src/mod", "src/hilev"], [("#ifdef MSTK_USE_MARKERS branches", "src")])

p("P11", "Writing a mesh to a native file and reading it back gives the same mesh",
  "A mesh written to a native file and read back has the same vertices at the same coordinates, the same edges, faces and regions with the same boundaries and directions, the same geometric classification, and the same attributes with the same values on every entity that has them, up to renumbering; the target may use another full representation, and writing changes nothing in memory. A file cut off anywhere, or unreadable, is refused by an error return or the documented fatal exit; it never crashes the reader, and success is never reported for a mesh with entities, connections or coordinates missing. (Entity sets and attributes no entity uses are not part of the format.)",
  ["inputs", "configurations", "crash_points"], "all meshes of the alphabet times writing and reading representation times attribute and set patterns; every truncation point of small files",
  "Tests read a few files and compare counts.",
  ["src/base/MESH_WriteToFile.c", "src/base/MESH_InitFromFile.c"],
  [("MESH_WriteToFile", "src/base/MESH_WriteToFile.c"), ("MESH_InitFromFile", "src/base/MESH_InitFromFile.c")])

p("P12", "Splitting edges refines the mesh without tearing it",
  "Splitting an edge at a point, at several points, or splitting it with the surrounding triangles and tetrahedra replaces the edge by its pieces in order in every face that used it, keeps every element's volume or area and the mesh's boundary, gives new entities the classification of what they subdivide, leaves no reference to deleted entities and leaves the mesh topologically valid and conforming.",
  ["inputs", "histories"], "every edge of every mesh in the alphabet, every number of split points, repeated splits",
  "One split test on one mesh.",
  ["src/mod/ME_Split.c", "src/mod/ME_MultiSplit.c", "src/mod/ME_Split_SimplexMesh.c"],
  [("ME_Split", "src/mod/ME_Split.c"), ("ME_MultiSplit", "src/mod/ME_MultiSplit.c"), ("ME_Split_SimplexMesh", "src/mod/ME_Split_SimplexMesh.c")])

p("P13", "Splitting faces refines the mesh without tearing it",
  "Splitting a face along a diagonal or with a new interior point replaces it by faces which together have the same boundary and area, in every region that used it and with matching direction, gives new entities the classification of the face, leaves no reference to deleted entities and leaves the mesh topologically valid and conforming.",
  ["inputs", "histories"], "every face and every admissible vertex pair or point of every mesh in the alphabet, repeated splits",
  "Few fixed cases.",
  ["src/mod/MF_Split.c", "src/mod/MF_Split_with_Edge.c", "src/mod/MF_Split_SimplexMesh.c"],
  [("MF_Split, MF_Split_with_Edge, MF_Split_SimplexMesh", "src/mod")])

p("P14", "Edge collapse either refuses and changes nothing, or leaves a valid mesh",
  "Collapsing an edge removes exactly the edge, one of its vertices and the elements that degenerate, merges the entities that become coincident, redirects everything else to the surviving vertex, and leaves a topologically valid mesh in which every other element keeps its shape up to the moved vertex. The kept vertex is the one asked for, with no preference and no constraints one on the outer boundary, and lower-dimensional classification survives. When the topological constraints forbid the collapse (the kept vertex is on a higher dimensional model entity, or what would merge is on different model entities of the same dimension) nothing is changed. (Collapses whose image is a valid mesh; others, such as closing a hole, are not checked by the library.)",
  ["inputs", "histories"], "every edge and every choice of kept vertex of every mesh in the alphabet, with and without constraints; sequences of collapses",
  "Three fixed collapses.",
  ["src/mod/ME_Collapse.c", "src/mod/MVs_Merge_FN.c"],
  [("ME_Collapse", "src/mod/ME_Collapse.c")])

p("P15", "Merging and joining entities unites their adjacencies exactly",
  "Merging two vertices, two edges or two faces, or joining two adjacent faces or two adjacent regions, leaves one entity used by exactly the union of the users of both, with correct directions, removes exactly the entities the operation consumes, and refuses without changing anything when the two cannot be merged. Joining two faces of one model entity and the same regions across their only shared edge, which no other face uses, or two regions of one model region across their only shared face, gives an element whose boundary is the union of theirs without what they shared.",
  ["inputs"], "all pairs of mergeable and non-mergeable entities of every mesh in the alphabet",
  "One join and one merge case.",
  ["src/mod/MVs_Merge_FN.c", "src/mod/MEs_Merge_FN.c", "src/mod/MFs_Merge_FN.c", "src/mod/MFs_Join.c", "src/mod/MRs_Join.c"],
  [("MVs_Merge, MEs_Merge, MFs_Merge, MFs_Join, MRs_Join", "src/mod")])

p("P16", "Splitting a region along an edge loop gives two regions sharing one new face",
  "Splitting a region along a closed loop of its edges yields two regions whose outer faces partition those of the original, which share exactly one new face bounded by the loop with opposite directions, and which inherit the classification; the rest of the mesh is unchanged. (Loops that leave two or more faces of the region on both sides.)",
  ["inputs"], "every separating edge loop of every element and two-element mesh in the alphabet, every direction and start",
  "One fixed case.",
  ["src/mod/MR_Split_with_EdgeLoop.c"], [("MR_Split_with_EdgeLoop", "src/mod/MR_Split_with_EdgeLoop.c")])

p("P17", "Swapping an edge of a triangulation exchanges exactly one diagonal",
  "Swapping an edge that lies inside a model face between two consistently directed triangles of that model face, whose other diagonal does not exist yet, replaces the two triangles by the two on the other diagonal, with orientation, boundary, area and classification kept and nothing else changed; an edge that is not inside a model face or not between two triangles is refused without changing anything. Swapping twice restores the original triangulation.",
  ["inputs", "histories"], "every edge of every small triangulation, sequences of swaps", "No test.",
  ["src/mod/ME_Swap2D.c"], [("ME_Swap2D", "src/mod/ME_Swap2D.c")])

p("P18", "The topology checker accepts valid meshes and reports planted inconsistencies",
  "The topology check accepts every topologically valid, consistently classified mesh (full representations F1 and F4, any directions, unknown classification allowed) and rejects, without crashing or ending the program, a mesh in which a single relation it documents does not hold: an edge on a lower dimensional model entity than its vertex, or another one of the same dimension; a face likewise with its edges; a vertex on a model face without a ring of faces on it; an edge on a model face without exactly two faces on it; an interior face without two regions; a vertex, edge or face that does not know an entity that uses it; a vertex that names an edge not using it; a face using an edge, or a region a face, in the wrong direction.",
  ["inputs", "configurations"], "all valid meshes of the alphabet; every single corruption of a listed kind at every place",
  "It is used as an oracle in tests and never itself tested negatively.",
  ["src/hilev/MESH_CheckTopo.c"], [("MESH_CheckTopo", "src/hilev/MESH_CheckTopo.c")])

p("P19", "Copying a mesh gives an equal and independent mesh",
  "A copy of a mesh, in the same or the other full representation (F1, F4), has equal vertices, elements, classification, IDs, attributes (except pointers) and sets, and afterwards changing or deleting either mesh does not affect the other. The original is not modified by copying.",
  ["inputs", "configurations", "histories"], "all meshes of the alphabet, representation pairs, attribute and set patterns, then a change to one side",
  "One copy test on one mesh.",
  ["src/base/MESH_Copy.c"], [("MESH_Copy", "src/base/MESH_Copy.c")])

p("P20", "Renumbering permutes IDs and changes nothing else",
  "Renumbering the vertices, edges, faces or regions with any method gives the entities of that kind IDs 1..n without gaps or repeats, changes no adjacency, coordinate, classification or attribute value, and leaves the mesh consistently addressable by the new IDs. The bandwidth-reducing methods work on disconnected meshes and meshes with isolated vertices too.",
  ["inputs", "configurations"], "all meshes of the alphabet incl. disconnected and with holes in the numbering, all methods and entity kinds",
  "One test on one mesh.",
  ["src/hilev/MESH_Renumber.c", "src/util/Graph_renumber.c"], [("MESH_Renumber", "src/hilev/MESH_Renumber.c"), ("Graph_Renumber_GPS", "src/util/Graph_renumber.c")])

p("P21", "Derived geometric classification follows the mesh's boundaries and given IDs",
  "Building classification from element geometric IDs makes interior faces between different geometric regions, and boundary faces, face-classified, and all others region-classified; likewise edges and vertices below. Faces share a model face exactly when they lie between the same model regions (and, with use of geometry, are connected through bends below the angle limit), edges share a model edge exactly when they bound the same model faces (and are connected smoothly). Given element IDs are kept and missing ones get a new ID; mesh and attributes stay as they were, and doing it again without geometry gives the same result.",
  ["inputs"], "all assignments of two geometric IDs to the elements of small meshes, with and without geometric angle detection",
  "Used on a few files, counts only.",
  ["src/hilev/MESH_BuildClassfn.c", "src/hilev/MESH_BuildFaceClassfn.c", "src/hilev/MESH_BuildEdgeClassfn.c", "src/hilev/MESH_BuildVertexClassfn.c"],
  [("MESH_BuildClassfn", "src/hilev")])

p("P22", "Tet-to-hex and triangle-to-quad conversion subdivide every element exactly",
  "Converting a triangle mesh to quadrilaterals, or a tetrahedral mesh to hexahedra, produces three (four) elements per original element that exactly fill it, conforming across shared edges and faces, positively oriented as the original, and with classification carried over.",
  ["inputs"], "all small triangulations and tetrahedral meshes of the alphabet", "No test.",
  ["src/hilev/MESH_Tet2Hex.c", "src/hilev/MESH_Tri2Quad.c"], [("MESH_Tet2Hex, MESH_Tri2Quad", "src/hilev")])

p("P23", "A mesh built from a vertex and element list is exactly the mesh described",
  "Building a mesh from coordinates and element connectivity creates exactly the given vertices and elements with the given vertex order and coordinates, and creates each shared edge and face once, used by all elements that contain it.",
  ["inputs", "configurations"], "all meshes of the alphabet, all supported element types and connectivity encodings and representations", "One case.",
  ["src/hilev/MESH_InitFromGenDesc.c"], [("MESH_InitFromGenDesc", "src/hilev/MESH_InitFromGenDesc.c")])

p("P24", "ExodusII export and import preserve the mesh",
  "A mesh exported to an ExodusII file and imported again has the same vertices in use, coordinates, elements of every supported type (standard and polygonal/polyhedral) with orientation and geometric IDs as element blocks, the same element, side and node sets, sets of model entities when asked for, and exactly the values of the real attributes asked for. Export changes neither mesh nor attributes nor sets, and a mesh without elements is refused without leaving a file.",
  ["inputs", "configurations"], "all meshes of the alphabet times block assignments, sets and attributes", "Tests read fixed files and check counts.",
  ["src/io/MESH_ExportToExodusII.c", "src/io/MESH_ReadExodusII_Serial.c", "src/io/MESH_ImportFromExodusII.c"],
  [("MESH_ExportToExodusII", "src/io"), ("MESH_ReadExodusII_Serial", "src/io")])

p("P25", "GMV export and import preserve the mesh",
  "A mesh exported to a GMV file and imported again has the same vertices, coordinates, elements of every type (lines, faces, standard and polyhedral cells) with their orientation, the same partition into materials (with the original numbers when itetclr is written), the model dimension of vertices when icr1 is written, and the attribute values asked for, to printed precision. Export does not change the mesh, and a mesh that the requested kind of file cannot express is refused without leaving a file.",
  ["inputs"], "all meshes of the alphabet times classification and attribute patterns", "No round trip is tested.",
  ["src/io/MESH_ExportToGMV.c", "src/io/MESH_ImportFromGMV.c"], [("MESH_ExportToGMV, MESH_ImportFromGMV", "src/io")])

p("P26", "FLAG X3D export and import preserve the mesh",
  "A mesh exported to a FLAG X3D file and imported again has the same vertices and elements in the same order and orientation, coordinates and attribute values to printed precision, the same partition into materials and the same node and element sets. Export does not change the mesh, its attributes or its sets, and a mesh that the format cannot express (an inner side with more than two elements, a face that bounds no element) is refused without leaving a file.",
  ["inputs"], "all meshes of the alphabet times classification patterns", "No round trip is tested.",
  ["src/io/MESH_ExportToFLAGX3D.c", "src/io/MESH_ImportFromFLAGX3D.c"], [("MESH_ExportToFLAGX3D, MESH_ImportFromFLAGX3D", "src/io")])

p("P27", "Generated structured meshes are exact and fully classified",
  "Generating a structured mesh of a box with given extents and numbers of cells yields exactly the grid's vertices at equally spaced coordinates, its edges, faces and cells each once with consistent orientation, and classification of every entity on the corner, edge, face or interior of the box to which it belongs.",
  ["inputs"], "all cell counts up to a bound in each direction, both dimensions", "A few sizes are used as inputs of other tests.",
  ["src/hilev/MESH_Gen_Structured.c"], [("MESH_Gen_Structured", "src/hilev/MESH_Gen_Structured.c")])

p("P28", "The element graph lists exactly the neighbours of every element",
  "The element adjacency graph of a mesh lists, for every element, exactly the elements it shares a face (in 3D) or an edge (in 2D) with, once each, symmetrically, in compressed-row form with correct offsets; the graph read directly from an ExodusII file agrees with it.",
  ["inputs"], "all meshes of the alphabet", "One fixed file.",
  ["src/hilev/MESH_GetElementGraph.c", "src/io/ExodusII_GetElementGraph.c"], [("MESH_GetElementGraph", "src/hilev"), ("ExodusII_GetElementGraph", "src/io")])

p("P29", "Common-entity and membership queries are exact",
  "Asking for the edge of two vertices, the face of all its vertices (in any order that begins with two neighbours) or the face common to several edges returns the right entity exactly when there is one and nothing when no face contains them all; the opposite vertex of an edge is its other vertex; an edge, face or region uses another entity of lower dimension exactly when that is part of its boundary. No such query changes the mesh.",
  ["inputs", "configurations"], "all argument tuples on all meshes of the alphabet, full representations F1 and F4", "Sampled in a few tests.",
  ["src/base/MEdge.c", "src/base/MFace.c", "src/base/MRegion.c"],
  [("MVs_CommonEdge, MVs_CommonFace, MEs_CommonFace, *_UsesEntity, ME_OppVertex, MEs_AreSame", "src/base")])

p("P30", "Geometric quantities match their definitions",
  "Lengths of edges, coordinates of the vertices of faces and regions, condition numbers of the corners of faces, cosines of the angle between two edges at their common vertex and of the dihedral angle between two faces at their common edge (given or not) match their definitions for elements of every size and shape, flat or curved placement, and do not depend on start vertices, directions, numbering or the order of the arguments.",
  ["inputs"], "all meshes of the alphabet in five placements, every pair of edges and faces", "Not tested.",
  ["src/base/ME_Geometry.c", "src/hilev/MF_Coords.c", "src/hilev/MR_Coords.c", "src/hilev/MEs_Angle.c", "src/hilev/MFs_DihedralAngle.c", "src/misc/MSTK_VecFuncs.c", "src/misc/MF_CondNums.c"],
  [("ME_Len, MF_Coords, MR_Coords, MEs_Angle, MFs_DihedralAngle, MF_CondNums", "src/hilev, src/base, src/misc")])

p("P31", "Removing the interior keeps exactly the boundary",
  "Deleting the interior of a mesh keeps exactly the entities classified on the boundary of the model, with coordinates, adjacencies among them and classification unchanged, and removes all others.",
  ["inputs", "configurations"], "all meshes of the alphabet with their derived classification", "Not tested.",
  ["src/hilev/MESH_DelInterior.c"], [("MESH_DelInterior", "src/hilev/MESH_DelInterior.c")])

p("P32", "Exports for viewing describe exactly the mesh",
  "An STL file lists exactly the triangles of a triangulated surface with their corners and normals, an OFF file exactly the vertices and faces of a surface, a DX file exactly the vertices and the faces or standard elements of the mesh (general polyhedra are left out), with coordinates to the printed precision and the connectivity in the order the format defines, whatever the numbering and history of the mesh; a mesh the format cannot hold is refused, and exporting changes nothing.",
  ["inputs", "histories"], "all meshes of the alphabet, with loose vertices, deleted elements and arbitrary IDs", "Not tested.",
  ["src/io/MESH_ExportToSTL.c", "src/io/MESH_ExportToOFF.c", "src/io/MESH_ExportToDXBin.c"], [("MESH_ExportToSTL/OFF/DXBin", "src/io")])

# ---- parallel
PAR = "all partitions of small meshes over 2 and 3 ranks"
p("P40", "Distributing a mesh gives every element to exactly one owner and loses nothing",
  "When a mesh is partitioned and distributed, every element of the original is owned by exactly one rank, the one the partitioner named, with its original vertices, coordinates and geometric classification, and every vertex, edge and face of the original exists on the ranks that have an element using it and is owned by exactly one of them. This holds for every answer a partitioner may give that leaves no rank without elements, with any number of ghost layers.",
  ["inputs", "configurations"], PAR + ", 2D and 3D, 0 and 1 ghost layers",
  "Tests see the one partition the partitioner happens to compute for each mesh.",
  ["src/par/MSTK_Mesh_Distribute.c", "src/par/MESH_Partition.c", "src/par/MESH_BuildSubMesh.c", "src/par/MESH_Partition_and_Send.c", "src/par/MESH_Recv_NonVertexEntities.c"],
  [("MSTK_Mesh_Distribute", "src/par"), ("MESH_Partition / MESH_BuildPBoundary / MESH_AddGhost / MESH_SendMesh / MESH_RecvMesh", "src/par")])

p("P41", "Ghost and overlap information of a distributed mesh is globally consistent",
  "In a distributed mesh, global IDs identify entities across ranks: copies of one entity have the same global ID, boundary and coordinates, and different entities of one kind have different global IDs. Every copy names the same owner, which has it as an owned entity and marks it as shared with others exactly if there are such copies; ghost element layers contain exactly the elements within the requested number of layers around the owned ones.",
  ["inputs", "configurations"], PAR + ", ghost layers 0..2",
  "Tests check single cases of fixed partitions.",
  ["src/par/MESH_AddGhost.c", "src/par/MESH_LabelPType.c", "src/par/MESH_BuildGhostList.c", "src/par/MESH_ParallelAdj.c", "src/par/MESH_Parallel_AddGhost.c"],
  [("PType/MasterParID/GlobalID", "src/base/MEntity.c"), ("MESH_LabelPType, MESH_AddGhost", "src/par")])

p("P42", "Communication completes and means the same under every message-passing timing",
  "Every parallel operation on a distributed mesh terminates, and gives the same result, whether the message-passing layer buffers messages or makes senders wait, delivers data early or late, and in whatever order the ranks run. No rank is left waiting, no message is left undelivered, no request is left unfinished and no buffer is touched while a transfer may still be using it.",
  ["schedules"], "all deviation-bounded schedules of ranks, buffering decisions and completion times of each operation on small meshes",
  "Real MPI runs show one timing and eager buffering hides deadlocks and premature buffer reuse.",
  ["src/par"], [("blocking and non-blocking exchanges", "src/par/*.c")])

p("P43", "Attribute update copies owners' values to all copies",
  "After attributes of a distributed mesh are updated, every copy of an entity holds its owner's value for every updated attribute of every type and entity kind, owners' values and other attributes are unchanged, and copies of entities whose owner has no value or zero hold none or zero.",
  ["inputs", "configurations"], PAR + ", all attribute types and entity kinds, values set on subsets",
  "One attribute on fixed partitions.", ["src/par/MESH_UpdateAttributes.c", "src/par/MESH_Update1Attribute.c"],
  [("MESH_UpdateAttributes, MESH_Update1Attribute", "src/par")])

p("P44", "Coordinate update copies owners' coordinates to all copies",
  "After vertex coordinates are updated, every copy of a vertex has exactly its owner's coordinates and owners' coordinates are unchanged, whichever vertices were moved before on whichever rank.",
  ["inputs"], PAR + ", every vertex moved on owner and on copies", "One case.",
  ["src/par/MESH_UpdateVertexCoords.c"], [("MESH_UpdateVertexCoords", "src/par")])

p("P45", "Gather-scatter reduces over all copies of an entity",
  "After a gather-scatter of an attribute on one kind of entity with sum, average, minimum or maximum, every copy of an entity holds the reduction of the values of all its copies, each counted once and one without a value counted as zero, and all other values are unchanged. Sums and averages of vectors and tensors are by component; the minimum or maximum of vectors is the whole vector of least or greatest length.",
  ["inputs"], PAR + ", all operations, attribute types and entity kinds", "Few cases.",
  ["src/par/MESH_GathScat1Attribute.c"], [("MESH_GathScat1Attribute", "src/par")])

p("P46", "Pairwise attribute exchange swaps values across shared entities",
  "After exchanging an attribute across partition boundary edges or faces, each side holds the value the other side had, for every edge (2D) or face (3D) used by elements of exactly two ranks; other copies of edges or faces get the value their owner had before, owners of entities of one rank keep theirs, and values on other kinds of entities and of other attributes do not change. A missing value counts as zero.",
  ["inputs"], PAR, "One case.", ["src/par/MESH_XchngEdgeFaceAttrib.c"], [("MESH_XchngEdgeFaceAttrib", "src/par")])

p("P47", "Global renumbering gives every kind of entity contiguous unique numbers",
  "Renumbering global IDs gives the entities of each requested kind the numbers 1..N, where N counts every entity once across all ranks, with all copies of an entity agreeing, contiguous on each owner, and leaves ownership and lookup by global ID consistent.",
  ["inputs"], PAR, "One case.", ["src/par/MESH_Renumber_GlobalIDs.c"], [("MESH_Renumber_GlobalIDs", "src/par")])

p("P48", "Weaving independent parts recovers the distributed mesh",
  "Starting from each rank's own part of a mesh without parallel information (edges in 2D and faces in 3D join at most two elements), weaving assigns global IDs, owners and ghost layers such that the result is a consistent distributed mesh: entities at the same place are one entity, with one global ID and one owner, entities at different places are different, and ghost layers are complete.",
  ["inputs", "configurations"], PAR + ", with and without given vertex global IDs, 0 and 1 ghost layers", "A few fixed partitions.",
  ["src/par/MSTK_Weave_DistributedMeshes.c", "src/par/MESH_AssignGlobalIDs.c", "src/par/MESH_AssignGlobalIDs_point.c", "src/par/MESH_BuildConnection.c"],
  [("MSTK_Weave_DistributedMeshes, MESH_AssignGlobalIDs", "src/par")])

p("P49", "The parallel check accepts exactly the consistent distributed meshes",
  "The parallel mesh check ends on every rank; every rank reports success on every consistently distributed mesh, and at least one reports failure when the global ID, owner, ghost or shared mark, classification ID or coordinates of a single shared entity on one rank are made inconsistent.",
  ["inputs"], PAR + "; every single corruption of a listed kind", "Never tested negatively.",
  ["src/par/MESH_Parallel_Check.c"], [("MESH_Parallel_Check", "src/par")])

p("P50", "Lookup by global ID finds exactly the local copy",
  "On every rank, looking up an entity by global ID returns the local copy if there is one and nothing otherwise, with the search accelerated or not, also after entities were created, deleted or renumbered.",
  ["inputs", "histories"], PAR + "; every global ID", "Not tested.",
  ["src/base/Mesh.c", "src/base/MEntity.c"], [("MESH_VertexFromGlobalID etc., MESH_Enable_GlobalIDSearch", "src/base/Mesh.c")])

p("P51", "Partitioning calls hand back a partition of all elements",
  "Asking for a partitioning hands the partitioner the elements of the mesh with their adjacency (or centres) and returns for every element, in ID order, the rank the partitioner assigned to it, each within the range asked for; with column partitioning all elements of one vertical column of cells get the same rank.",
  ["inputs", "configurations"], "all partitioner answers on small meshes, both partitioners", "One answer per mesh.",
  ["src/par/MESH_Get_Partitioning.c", "src/par/MESH_PartitionWithMetis.c", "src/par/MESH_PartitionWithZoltan.c", "src/par/FixColumnPartitions.c"],
  [("MESH_Get_Partitioning, FixColumnPartitions", "src/par")])

p("P52", "Attributes and sets travel with a distributed mesh",
  "When a mesh with attributes and entity sets is distributed, every rank has the same attributes (of integer, double, vector or tensor type on one kind of entity) and sets by name and type, and every local entity, owned or ghost, has the attribute values and set memberships of the entity it came from, and no others.",
  ["inputs", "configurations"], PAR + ", all attribute types and entity kinds, sets of every dimension", "Little is tested.",
  ["src/par/MESH_CopyAttr.c", "src/par/MESH_CopySet.c", "src/par/MESH_Send_Attribute.c", "src/par/MESH_Recv_Attribute.c", "src/par/MESH_Send_MSet.c", "src/par/MESH_Recv_MSet.c"],
  [("MESH_CopyAttr/MESH_CopySet, Send/Recv of attributes and sets", "src/par")])

if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
