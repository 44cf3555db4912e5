"""The checks: which harness decides which property, in which build configuration, within which bounds."""
CHECKS = {}
NOT_APPLICABLE = {}
REAL = ("stateless exhaustive exploration of the real code: every choice sequence within the bounds is executed; "
        "bounded, so histories and inputs beyond the stated alphabet are not covered; trusts the harness's reference model, gcc and AddressSanitizer")


def check(pid, parts, rule, technique, level_note=REAL, **kw):
    CHECKS[pid] = dict(parts=parts, rule=rule, level_note=level_note, technique=technique, **kw)


check("P01", [dict(name="list", config="ser", src=["list.cpp"],
                   bounds="18 (quick: 12+) start lists of size 0..15 with and without holes; full alphabet of 17 operations x arguments to depth 3 (thorough 4); one-argument alphabet of 9 operations to depth 5 (thorough 6)")],
      rule="a case is one operation sequence on one start list; every query is compared with a plain vector after every operation; non-trivial: distinct final list states",
      technique="exhaustive exploration of operation sequences on the real code against a reference model")

check("P04", [dict(name="topo", config="ser", src=["topo.cpp"], require=["flip meshes", "detach", "restore", "delete", "teardowns"],
                   bounds="every non-empty subset of 7 host meshes (2D: 8 triangles, 2x2 quads, pentagon/quad/triangle, closed surface with fin; 3D: 6-tet cube, 2x2 hexes, hex/pyramid/prism/polyhedron/tets) x {F1,F4} x built by vertices or by faces/edges; all deletion/detach/restore histories to depth 1-3 by number of cells (thorough 2-4); all edge/face direction assignments (2^8, thorough 2^18) of 12 small meshes; every teardown order of up to 3 (thorough 5) cells")],
      rule="a case is one mesh plus one history of operations; after every operation every adjacency query of every entity is compared with what follows from the boundary definitions; non-trivial: distinct (mesh, resulting element set)",
      technique="exhaustive exploration of construction and removal histories on the real code with a recomputed-adjacency oracle")

check("P02", [dict(name=n, config=c, args=a, src=["set.cpp"], require=["MSet_Add", "MSet_Cat", "MSet_Copy", "MSets_Union", "MSets_Intersect", "MSets_Subtract", "MSet_Rename", "marks"],
                   bounds="all pairs of subsets of 5 entities x with/without removed entries x order x same/different set types x 4 operations; all histories of 24 operations on three to five sets to depth 4 (thorough 5; marker build one less)")
              for n, c, a in (("set", "ser", {}), ("setmark", "sermark", {"less": 1}))],
      rule="a case is one operation sequence on the sets of one mesh, in the plain and in the marker build; every query of every set is compared with plain ordered lists after every operation; non-trivial: distinct final states",
      technique="exhaustive exploration of operation sequences on the real code against a reference model")

check("P03", [dict(name="popul", config="ser", src=["popul.cpp"], require=["MV_New", "MR_New", "MF_New", "restore the last detached", "deleting while iterating", "creating while iterating", "setting an ID", "MESH_Renumber", "MESH_Enable_LocalIDSearch"],
                   bounds="all histories of 17 operations (new vertex/edge/face/region, new edge/face/region without parts, delete/detach from the top or a vertex, first or last, restore, fast search on, set an ID, renumber, delete/create while iterating) to depth 4 (thorough 6) from an empty mesh, two tets and four triangles, F1 and F4")],
      rule="a case is one history; after every operation counts, indexed access, iteration, IDs and lookup of every ID (live, detached, never used) are compared with a list of the live entities; non-trivial: distinct final ID sequences",
      technique="exhaustive exploration of operation histories on the real code against a reference model")

check("P06", [dict(name="face", config="ser", src=["face.cpp"], require=["MF_Replace_Edges", "MF_Replace_Edges_i", "MF_Rev_EdgeDir", "MF_Rem_Edge"],
                   bounds="polygons of 3..6 (thorough 8) edges with every direction pattern, and of 29..64 edges with uniform, alternating and single-edge patterns, F1 and F4, set by edges, by vertices, by vertices on existing edges, with and without a region; every replacement of 1-3 edges by 1-3 edges from every position (large: around the word boundaries), listed forward or backward, every reversal and removal, to depth 1-2")],
      rule="a case is one face plus one editing history; after every operation the loop, every start vertex, both directions, all direction queries and the upward adjacency are compared with the described polygon; non-trivial: distinct edited loops",
      technique="exhaustive exploration of face construction and editing histories on the real code against a polygon model")

check("P07", [dict(name="tmpl", config="ser", src=["tmpl.cpp"], require=["standard elements", "polyhedra", "by vertices", "MR_Rev_FaceDir", "MR_Set_FaceDir"],
                   bounds="tetrahedron, pyramid, prism, hexahedron (also with additional edges between their vertices) and 13 general polyhedra, among them ones with the face counts of standard elements; all face orders (hexahedron: all with default directions, first two positions with directions), all direction patterns (up to 2^5, thorough 2^7), all start vertices of three (thorough all) faces, with and without a neighbour; by vertices in all equivalent numberings next to any existing face; F1 and F4")],
      rule="a case is one region given by faces in some order, directions and starts, or by vertices; its type, vertices, faces and directions are compared with the documented numbering (all rotations of the element); non-trivial: distinct inputs",
      technique="exhaustive enumeration of the inputs of element construction on the real code against the documented templates")

check("P08", [dict(name="attr", config="ser", src=["attr.cpp"], require=["clear", "remove", "clear attribute", "delete attribute", "detach", "restore", "destroy"],
                   bounds="every pair of (5 types x 5 entity kinds) on a two-tet mesh, F1 and F4, set on two entities of every kind, then cleared/removed/deleted; all histories of 6 operations per attribute, new attribute, detach, restore, destroy to depth 4 (thorough 5) from 6 attribute pairs")],
      rule="a case is one history; after every operation every attribute of every entity is read by the generic and the typed query and compared with a plain map, and the attribute list and names with a plain list; non-trivial: distinct final maps",
      technique="exhaustive exploration of operation histories on the real code against a reference model")

check("P09", [dict(name="marker", config="sermark", src=["marker.cpp"], require=["get", "free", "list", "set", "MSets_Union", "MESH_Renumber all", "MESH_BuildClassfn", "MESH_ExportToGMV", "MESH_ImportFromExodusII"],
                   bounds="all histories of 12 operations (take, return first/last/middle, mark/unmark an entity, a list, a set with the first/last marker) to depth 5 (thorough 6) from 0, 3, 30 and 31 markers held; 17 library operations x 3 meshes x F1/F4 x 0, 2, 4 markers held with marks, after which all remaining markers are taken and every entity is tested with every one"),
              dict(name="markthr", config="serthr", src=["markthr.cpp"], require=["two threads", "three threads"], quick=dict(preempt=2), thorough=dict(preempt=3),
                   bounds="8 programs for two or three threads (take, mark and unmark a shared entity, return) from 0, 2, 29 and 27 markers held; every interleaving at the granularity of single memory accesses and mutex operations with up to 2 (thorough 3) preemptions")],
      rule="a case is one history or one schedule; markers held are distinct, marks equal a model, afterwards all 32 markers can be taken and nothing is marked; non-trivial: distinct final states",
      technique="exhaustive exploration of histories and of thread interleavings of the real code under a controlled scheduler (preemption bounded)")

ALPHA = "every non-empty subset of the cells of 7 host meshes (8 triangles, 2x2 quads, pentagon/quad/triangle, closed surface with fin; 6-tet cube, 2x2 hexes, hex/pyramid/prism/polyhedron/tets)"
check("P12", [dict(name="splitedge", config="ser", src=["mod.cpp"], args={"fam": "edge"}, require=["ME_Split", "ME_MultiSplit", "ME_Split_SimplexMesh"],
                   bounds=ALPHA + ", F1 and F4, of up to 3 (thorough all) cells, by vertices and with 1 (thorough 3) direction patterns; every edge, 1 to 3 points, given or not, simplex split; every sequence of two splits on 3 to 5 (thorough 8) small meshes")],
      rule="a case is one sequence of operations on one mesh; every edge is split in every way; the expected mesh is computed on an abstract complex (labelled vertices, cycles, directed region boundaries, classification, identity of everything that stays) and compared completely, then all adjacency is recomputed and compared; non-trivial: distinct sequences",
      technique="exhaustive enumeration of bounded operation sequences on the real code")
check("P13", [dict(name="splitface", config="ser", src=["mod.cpp"], args={"fam": "face"}, require=["MF_Split", "MF_Split_with_Edge", "MF_Split_SimplexMesh"],
                   bounds=ALPHA + ", F1 and F4, of up to 3 (thorough all) cells, by vertices and with 1 (thorough 3) direction patterns; every face split at a point, along every diagonal in both directions, simplex split; every sequence of two splits on 3 to 5 (thorough 8) small meshes")],
      rule="a case is one sequence of operations on one mesh; every face is split in every way; the expected mesh is computed on an abstract complex (labelled vertices, cycles, directed region boundaries, classification, identity of everything that stays) and compared completely, then all adjacency is recomputed and compared; non-trivial: distinct sequences",
      technique="exhaustive enumeration of bounded operation sequences on the real code")
check("P16", [dict(name="splitregion", config="ser", src=["mod.cpp"], args={"fam": "region"}, require=["MR_Split_with_EdgeLoop"],
                   bounds="every non-empty subset of the cells of hex/pyramid/prism/polyhedron/tets, two hexes and four tets, F1 and F4, by vertices and with 1 (thorough 3) direction patterns; every simple closed loop of up to 6 (thorough 8) edges of every region with two or more faces on both sides, 2 (thorough all) starts, both directions")],
      rule="a case is one sequence of operations on one mesh; every region is split along every loop; the expected mesh is computed on an abstract complex (labelled vertices, cycles, directed region boundaries, classification, identity of everything that stays) and compared completely, then all adjacency is recomputed and compared; non-trivial: distinct sequences",
      technique="exhaustive enumeration of bounded operation sequences on the real code")
check("P17", [dict(name="swap", config="ser", src=["mod.cpp"], args={"fam": "swap"}, require=["ME_Swap2D", "ME_Swap2D refused"],
                   bounds="every non-empty subset of the cells of 8 triangles, 2x2 quads, pentagon/quad/triangle mesh and closed surface with fin, F1 and F4, by vertices and with 1 (thorough 3) direction patterns; every edge, every sequence of two swaps (each swapped back) on meshes of up to 4 cells")],
      rule="a case is one sequence of operations on one mesh; every edge is swapped and swapped back, or must be refused; the expected mesh is computed on an abstract complex (labelled vertices, cycles, directed region boundaries, classification, identity of everything that stays) and compared completely, then all adjacency is recomputed and compared; non-trivial: distinct sequences",
      technique="exhaustive enumeration of bounded operation sequences on the real code")
check("P19", [dict(name="copy", config="ser", src=["copy.cpp"], require=["3D", "2D", "other representation"],
                   bounds=ALPHA + " of up to 3 (thorough 6) cells, F1 and F4 to F1 and F4; consecutive and descending IDs with gaps; attributes of 4 types on every kind with no, some and all values, sets of every kind; copied with and without them; then the copy or the original changed or deleted")],
      rule="a case is one mesh copied once; every entity by kind and ID, position in the mesh, boundary with directions, coordinates, classification, attribute value and set is compared, then one of the two is changed or deleted and the other compared again; non-trivial: distinct cases",
      technique="exhaustive enumeration of bounded inputs executed on the real code")
check("P20", [dict(name="renum", config="ser", src=["renum.cpp"], require=["RCM", "sequential", "with gaps", "with loose vertices", "graphs"],
                   bounds=ALPHA + ", with and without loose vertices, F1 and F4, 6 states of the numbering (contiguous, first/first and last element deleted, arbitrary IDs, additional vertex, no elements left), both methods, every kind and all; the graph numbering on every graph of up to 5 (thorough 6) nodes from every start node")],
      rule="a case is one mesh (or graph) renumbered once; adjacency, coordinates, classification, attributes, sets, order, IDs and lookup are compared before and after; non-trivial: distinct inputs",
      technique="exhaustive enumeration of bounded inputs executed on the real code")
check("P28", [dict(name="graph", config="ser", src=["graph.cpp"], require=["2D", "3D", "elements with many neighbours", "from a file"],
                   bounds=ALPHA + " and 9 meshes whose elements have many neighbours (4x4x4 and 3x3x3 hexes, heptagon with triangles, six triangles at one edge, polygons sharing two edges, hex capped with pyramids), F1 and F4, by vertices and by explicit edges and faces, with and without a face of no region; read through an ExodusII file for a subset")],
      rule="a case is one mesh; the graph is compared with neighbours derived from the downward definitions of the elements, and the graph read from the exported file with that of the imported mesh; non-trivial: distinct meshes",
      technique="exhaustive enumeration of bounded inputs executed on the real code")
check("P29", [dict(name="common", config="ser", src=["common.cpp"], require=["3D", "2D", "loose vertices", "documented"],
                   bounds=ALPHA + ", F1 and F4, by vertices and with 2 (thorough 3) direction patterns and 2 starts; all vertex pairs, all orders of every face's vertices and edges, all exchanges of one of them, all vertex triples over an edge, all edge pairs and triples (up to 16 edges), all pairs of entities for membership")],
      rule="a case is one mesh with all its queries; a query is one transition; non-trivial: distinct meshes",
      technique="exhaustive enumeration of bounded inputs executed on the real code")
check("P31", [dict(name="interior", config="ser", src=["interior.cpp"], require=["3D", "2D", "wire"],
                   bounds=ALPHA + " and edge meshes of up to 5 edges, F1 and F4, by vertices or explicit edges and faces, all two-material colourings of up to 3 cells and 3 patterns for more (interfaces count as boundary)")],
      rule="a case is one classified mesh; afterwards exactly the entities classified below the mesh dimension remain, with definition, classification, ID and attributes, and all adjacency is verified; non-trivial: distinct classified meshes",
      technique="exhaustive enumeration of bounded inputs executed on the real code")
check("P22", [dict(name="convert", config="ser", src=["convert.cpp"], require=["tets", "triangles", "refused"],
                   bounds="every non-empty subset of 8 triangles, of a closed triangulated surface with fin and of a 6-tet cube, F1 and F4, by vertices and with 3 (thorough 4) direction patterns and 3 start vertices of the faces, colourings with two materials; 6 meshes that cannot be converted")],
      rule="a case is one mesh converted once; vertices, elements, volumes, orientation and classification are compared with the subdivision by definition; non-trivial: distinct inputs",
      technique="exhaustive enumeration of bounded inputs executed on the real code")
check("P23", [dict(name="gendesc", config="ser", src=["gendesc.cpp"], require=["templates", "standard elements", "2D", "loose vertices"],
                   bounds=ALPHA + ", also with the vertices of the host that no element uses (up to 3 cells), F1 and F4, with and without face templates, 4 vertex numberings, 3 starts and element orders")],
      rule="a case is one description; every vertex, edge, face and element with vertex order, type, orientation and IDs and all adjacency is compared; non-trivial: distinct descriptions",
      technique="exhaustive enumeration of bounded inputs executed on the real code")
check("P27", [dict(name="gen", config="ser", src=["gen.cpp"], require=["3D", "2D"],
                   bounds="all 1..4 x 1..4 x 0..4 (thorough 6) cells in 5 boxes")],
      rule="a case is one generated mesh; coordinates, entity counts, uniqueness, orientation, classification against the documented box model and all adjacency; non-trivial: distinct meshes",
      technique="exhaustive enumeration of bounded inputs executed on the real code")

check("P15", [dict(name="join", config="ser", src=["join.cpp"], args={"fam": "join"}, require=["MFs_Join", "MFs_Join with regions", "MFs_Join refused", "MRs_Join", "MRs_Join refused", "joined to a polygon"],
                   bounds=ALPHA + ", F1 and F4, of up to 3 faces or 2 regions (thorough 5 cells), by vertices and with 1 (thorough 3) direction patterns; all ordered pairs of faces at every edge, joined across it or another edge, every diagonally split face joined again, all ordered pairs of regions with every common face, another face or none given; one or two materials (thorough all 2-colourings up to 3 cells)"),
              dict(name="merge", config="ser", src=["join.cpp"], args={"fam": "merge"}, require=["MVs_Merge", "MEs_Merge", "MFs_Merge", "MVs_Merge refused", "MEs_Merge refused", "MFs_Merge refused"],
                   bounds="every pair (thorough also triple) of touching cells of the 7 host meshes, built with vertices of their own and zipped together by merging vertices, edges and faces, 4 patterns of which one is kept, 2 orders, classification on one entity or mixed, with and without topoflag; merges of parts that do not match in between")],
      rule="a case is one join, or one zipping sequence; after every single operation the mesh is compared with an abstract complex (cycles, directed region boundaries, classification, identity of what stays), sets with their expected content, and all adjacency is recomputed; refused operations must change nothing; non-trivial: distinct sequences",
      technique="exhaustive enumeration of bounded operation sequences on the real code")

check("P14", [dict(name="collapse", config="ser", src=["collapse.cpp"], require=["2D", "3D", "refused", "edges merged", "faces merged", "external kept"],
                   bounds=ALPHA + ", F1 and F4, of up to 6 (thorough all) cells, by vertices and with 1 (thorough 3) direction patterns; every edge, kept vertex (either, first, second), with and without topoflag, classification unknown, one or two materials, 3D edges also on model edges; every sequence of two collapses on meshes of up to 3 faces or 2 regions (thorough 5 cells)")],
      rule="a case is one or two collapses; whenever the image of the mesh under merging the two vertices is a valid complex the result must be that image: entities that stay by identity, degenerate ones gone, one of each coinciding pair left on the lower dimensional model entity, lists of deleted and merged entities exact; or the collapse is refused as documented and nothing changes; then all adjacency is recomputed; non-trivial: distinct sequences",
      technique="exhaustive enumeration of bounded operation sequences on the real code")

PARB = ALPHA + "; every partition into 2 ranks (up to 4 cells; thorough 6) and 3 ranks (up to 3; thorough 4 ranks) with no empty part for partial meshes, chosen patterns for larger whole meshes; "
def par2(fam, src, req, b, small=None, four=None, **kw):
    a = {"fam": fam}
    return ([dict(name=fam + "-four", config="parfast", src=[src], args={**a, "minr": 4, "ranks": 4, "lim": four}, require=["2D", "3D"], bounds="the same on 4 ranks, all partitions of meshes of up to %d elements without empty parts and chosen ones of the whole hosts" % four)] if four else []) + [dict(name=fam, config="parfast", src=[src], args={**a, **kw}, require=req, bounds=PARB + b),
            dict(name=fam + "-asan", config="par", src=[src], args={**a, **(small or {"lim": 3, "ranks": 2, "cells": 2})}, require=["2D", "3D"], bounds="the same with address sanitizer on meshes of up to 2 cells on 2 ranks; " + b)]
MPIR = "a case is one run of all ranks (real library code on every rank, deterministic MPI with deadlock detection, message matching and collective consistency checks); what every rank holds afterwards is collected and compared as a whole; "
check("P40", par2("own", "par.cpp", ["2D", "3D", "three ranks", "distributed twice"], "0 or 1 ghost layer, F1 and F4, by vertices and by explicit edges and faces, two message timings, into a new or given mesh, parent kept or deleted, once or twice"),
      rule=MPIR + "with the parts and layers by definition; non-trivial: distinct cases on more than one rank", technique="exhaustive enumeration of bounded inputs executed on the real code under a simulated MPI")
check("P41", par2("id", "par.cpp", ["2D", "3D", "three ranks", "distributed twice", "two layers"], "0, 1 or 2 ghost layers, F1 and F4, by vertices and by explicit edges and faces, two message timings, into a new or given mesh, parent kept or deleted, once or twice"),
      rule=MPIR + "global IDs, owners, kinds of copies and lists by definition; non-trivial: distinct cases on more than one rank", technique="exhaustive enumeration of bounded inputs executed on the real code under a simulated MPI")
check("P43", par2("upd", "parops.cpp", ["2D", "3D", "three ranks", "two layers"], "0, 1 or 2 ghost layers; attributes of integer, double, vector of 3 and of 1 and tensor type on all four kinds; 9 patterns of copies without value, with zero and with values; all attributes or a single one", lim=3),
      rule=MPIR + "with the owner's values; non-trivial: distinct cases with copies", technique="exhaustive enumeration of bounded inputs executed on the real code under a simulated MPI")
check("P44", par2("coord", "parops.cpp", ["2D", "3D", "three ranks", "two layers"], "0, 1 or 2 ghost layers; owners, copies, all or some moved; two message timings"),
      rule=MPIR + "with the owner's coordinates; non-trivial: distinct cases with copies", technique="exhaustive enumeration of bounded inputs executed on the real code under a simulated MPI")
check("P45", par2("gs", "parops.cpp", ["2D", "3D", "three ranks", "two layers"], "0, 1 or 2 ghost layers; attributes of integer, double, vector of 3 and of 1 and tensor type on all four kinds; 9 patterns of copies without value, with zero and with values; sum, maximum, minimum, average", lim=3),
      rule=MPIR + "with the combination over all copies of the entity; non-trivial: distinct cases with copies", technique="exhaustive enumeration of bounded inputs executed on the real code under a simulated MPI")
check("P46", par2("xch", "parops.cpp", ["2D", "3D", "three ranks", "two layers"], "0, 1 or 2 ghost layers; attributes of integer, double, vector of 3 and of 1 and tensor type; 9 patterns of copies without value, with zero and with values", lim=3),
      rule=MPIR + "with the values exchanged over every edge or face between two ranks; non-trivial: distinct cases with copies", technique="exhaustive enumeration of bounded inputs executed on the real code under a simulated MPI")
SIM = "exhaustive enumeration of bounded inputs executed on the real code under a simulated MPI"
check("P47", par2("renum", "parid.cpp", ["2D", "3D", "two layers"], "0, 1 or 2 ghost layers; every kind or all kinds renumbered, from the distributed numbering or an arbitrary one", four=3, lim=3),
      rule=MPIR + "new IDs are 1..N, contiguous per owner and equal on all copies, nothing else changed, and an attribute update still matches owners; non-trivial: distinct cases", technique=SIM)
check("P48", par2("weave", "parid.cpp", ["2D", "3D", "three ranks", "by place", "by global ID", "by neighbours"], "0 or 1 ghost layer; input matched by place, by given vertex global IDs or with given neighbours; three vertex and element orders; edges in 2D and faces in 3D join at most two elements", lim=3),
      rule=MPIR + "with the distributed mesh by definition; non-trivial: distinct cases", technique=SIM)
check("P49", par2("chk", "parid.cpp", ["consistent", "global ID", "owner", "ghost mark", "coordinates", "classification", "shared mark", "2D", "3D"], "0, 1 or 2 ghost layers; no inconsistency or one of 6 kinds on every kind of entity, every rank and up to 6 (thorough 40) of the shared entities", small={"lim": 2, "ranks": 2, "cells": 2}, lim=3, cells=3),
      rule=MPIR + "every rank runs the check: all accept the consistent mesh, at least one rejects after a single change on one rank; non-trivial: distinct cases", technique=SIM)
check("P50", par2("look", "parid.cpp", ["2D", "3D", "two layers"], "0, 1 or 2 ghost layers; after distribution, enabling twice, deletion, creation, creation and deletion, renumbering; all IDs from 0 to beyond the largest, all kinds", lim=3),
      rule=MPIR + "the entity found is compared with a map of all local entities; non-trivial: distinct cases", technique=SIM)
check("P51", [dict(name="part", config="parfast", src=["part.cpp"], args={"fam": "part", "lim": 3}, require=["METIS", "Zoltan graph", "coordinates", "columns", "2D", "3D"], bounds=ALPHA + "; 1 to 3 (thorough 4) ranks, METIS, Zoltan graph and coordinate bisection, every answer of the partitioner (also with unused ranks) for up to 3 (thorough 6) elements and chosen patterns beyond, objects that stay listed or not, planar and lifted surfaces; columns of hexes for coordinate bisection in 3D"),
              dict(name="part-asan", config="par", src=["part.cpp"], args={"fam": "part", "lim": 2, "cells": 3}, require=["METIS", "Zoltan graph", "coordinates"], bounds="the same with address sanitizer on meshes of up to 3 elements")],
      rule="a case is one partitioning call on all ranks; the partition handed back is compared with the partitioner's answer, the graph or centres handed to the partitioner with the mesh; non-trivial: distinct cases on more than one rank", technique=SIM)
check("P52", [dict(name="travel", config="parfast", src=["part.cpp"], args={"fam": "travel", "lim": 3, "cells": 3}, require=["2D", "3D", "three ranks", "two layers", "attribute", "set", "many attributes and sets"], bounds=PARB + "up to 3 elements; 0, 1 or 2 ghost layers; one attribute of every type (integer, double, vector of 3 and of 1, tensor) on every kind with 3 patterns of values, one set of every kind or of mixed entities with 3 patterns including the empty set, and 10 to 140 attributes and 5 to 35 sets at once"),
              dict(name="travel-asan", config="par", src=["part.cpp"], args={"fam": "travel", "lim": 2, "cells": 2, "ranks": 2, "light": 1}, require=["attribute", "set", "many attributes and sets"], bounds="the same with address sanitizer on meshes of up to 2 elements on 2 ranks")],
      rule=MPIR + "values and memberships of every entity with those of the entity it came from, and the original mesh with itself; non-trivial: distinct cases", technique=SIM)
TIM = ["distribution", "attribute update", "coordinate update", "gather-scatter", "exchange", "renumbering", "check", "weaving", "2D", "3D"]
check("P42", [dict(name="dev", config="parfast", src=["part.cpp"], args={"fam": "time", "lim": 2, "cells": 2, "ranks": 2, "modes": 2, "dev": 1}, require=TIM, bounds="9 operations (distribution with attributes and sets, attribute and coordinate update, gather-scatter of scalars and vectors, exchange, renumbering, check, weaving) on all meshes of 2 elements of the 8 hosts on 2 ranks; from the buffering, in-order schedule and from the synchronous, late, loose one, every schedule that differs from it in at most 1 (thorough 2) places: which rank runs next, whether a sender waits, when data arrives"),
              dict(name="modes", config="parfast", src=["part.cpp"], args={"fam": "time", "lim": 3, "cells": 3, "ranks": 3, "dev": 0}, require=TIM + ["three ranks"], bounds="the same operations on up to 3 elements and 3 ranks under 4 timings: buffered or synchronous, early or late data, loose collectives, both rank orders"),
              dict(name="asan", config="par", src=["part.cpp"], args={"fam": "time", "lim": 2, "cells": 2, "ranks": 2, "modes": 2, "dev": 0}, require=TIM, bounds="2 timings with address sanitizer, so that buffers released or reused during a transfer are seen")],
      rule="a case is one operation under one schedule; it must end without deadlock, unmatched message, unfinished request or overlapping use of a buffer, and the mesh on every rank afterwards must equal that of the reference schedule; non-trivial: distinct operations and inputs", technique="deviation-bounded exhaustive schedule exploration of the real code under a controlled message-passing layer")

IN = "exhaustive enumeration of bounded inputs executed on the real code"
check("P11", [dict(name="native", config="ser", src=["io.cpp"], args={"fam": "native"}, require=["2D", "3D", "attributes", "tiny or huge values", "loose vertices", "no elements", "empty mesh"],
                   bounds=ALPHA + " of up to 2 elements (thorough more) and meshes without elements, F1 and F4, by vertices and by explicit edges and faces, loose vertices, 4 patterns of attributes of every type on every kind, coordinates and values scaled to the ends of the double range; written as F1, F4 or as stored, read into F1, F4 or as written"),
              dict(name="cut", config="parfast", src=["io.cpp"], args={"fam": "cut"}, require=["refused", "complete although cut", "file with attributes", "plain file"],
                   bounds="files of every mesh of one element and of every fifth (thorough every) mesh of two, with and without attributes, cut after every byte")],
      rule="a case is one mesh written and read (everything both hold is compared by vertex place; writing must change nothing), or 64 cut positions of one file, each read in a process of its own that must refuse it or hold the whole mesh; non-trivial: distinct inputs",
      technique=IN + " with every truncation point of every file")
check("P30", [dict(name="geom", config="ser", src=["geom.cpp"], require=["edge angles", "surface", "volume", "curved placement", "dihedral angles", "faces of different size"],
                   bounds=ALPHA + " of up to 3 (thorough 6) elements, F1 and F4, by vertices and with 2 direction patterns, 5 placements (among them curved, sheared and far from the origin), renumbered or not; every edge, face, region, every pair of edges at every common vertex, every pair of faces at every common edge")],
      rule="a case is one placed mesh with all its queries; non-trivial: distinct cases", technique=IN)
check("P32", [dict(name="view", config="ser", src=["view.cpp"], require=["STL", "OFF", "STL refused", "OFF refused", "DX surface", "DX volume", "loose vertices", "element deleted", "vertex IDs not in order"],
                   bounds=ALPHA + ", F1 and F4, by vertices and by explicit edges and faces, with loose vertices, one element deleted, vertices renumbered arbitrarily")],
      rule="a case is one mesh exported to the three formats; the files are parsed independently and compared with the mesh; non-trivial: distinct meshes", technique=IN)
check("P18", [dict(name="check", config="ser", src=["check.cpp"], require=["2D", "3D", "changed and consistent", "edge and its vertex", "face and its edge", "edge on a model face without two faces on it", "vertex on a model face without faces on it", "interior face without two regions", "vertex does not know its edge", "vertex lists a foreign edge", "edge does not know its face", "face does not know its region", "face uses an edge in the wrong direction", "region uses a face in the wrong direction"],
                   bounds=ALPHA + " and four tetrahedra around a vertex, of up to 3 (thorough 6) elements or whole, F1 and F4, by vertices and with 1-2 direction patterns, materials, with and without a hard vertex; every entity with every other model dimension and the same, a new or a present model ID; every vertex-edge, edge-face, face-region link removed (F1), every edge of a face and face of a region reversed")],
      rule="a case is one entity of one classified mesh with all its single changes; the answer is compared with an independent statement of the classification relations (both ways), and with 'rejected' for broken links and directions; non-trivial: distinct cases", technique=IN)
check("P21", [dict(name="classfn", config="ser", src=["classfn.cpp"], require=["2D", "3D", "loose", "geometry"],
                   bounds=ALPHA + " of up to 3 elements (thorough more), element model IDs from 2 values or missing, flat and bent placements, with and without use of angles, with loose vertices, built once or twice")],
      rule="a case is one mesh with one assignment of element model IDs; the classification built is compared, entity by entity, with an independent computation of dimensions and of which entities have to share a model entity (materials on both sides, connection below the angle limit); non-trivial: distinct cases", technique=IN)
check("P24", [dict(name="exo", config="par", src=["exo.cpp"], require=["2D", "3D", "attributes", "element deleted", "geometry sets", "joined elements", "loose vertex in a set", "refused", "IDs permuted", "ID gaps"],
                   bounds=ALPHA + " of up to 3 elements (thorough more), F1 and F4, IDs contiguous, permuted or with gaps, materials, sets of every kind of entity, attributes of every type on vertices and elements, every choice of options and of attribute names")],
      rule="a case is one mesh exported and read back; vertices, elements with orientation, blocks, sets and their elements, attribute values are compared by coordinates, and the exported mesh with itself before; non-trivial: distinct cases", technique=IN)
check("P25", [dict(name="gmv", config="ser", src=["gmv.cpp"], require=["2D", "3D", "attributes", "element deleted", "IDs permuted", "ID gaps", "mixed", "refused", "vface3d", "vfaces mixed with other cells", "wires"],
                   bounds=ALPHA + " of up to 3 elements (thorough more), F1 and F4, element deleted, loose vertices, IDs permuted or with gaps, meshes of lines and of lines and elements, every set of keywords and of attributes")],
      rule="a case is one mesh exported and read back; everything a GMV file can hold is compared by coordinates and the exported mesh with itself before; a refused export must leave no file; non-trivial: distinct cases", technique=IN)
check("P26", [dict(name="x3d", config="ser", src=["x3d.cpp"], require=["2D", "3D", "attributes", "element deleted", "IDs permuted", "refused", "sets"],
                   bounds=ALPHA + " of up to 3 elements (thorough more), F1 and F4, element deleted, IDs permuted, materials, node and element sets, attributes, file in another directory")],
      rule="a case is one mesh exported and read back; cells and vertices in order, materials, sets and attributes are compared and the exported mesh with itself before; a mesh the format cannot express must be refused leaving no file; non-trivial: distinct cases", technique=IN)
TW = "the same inputs"
check("P10", [dict(name="queries", config="twin", src=["twin.cpp", "ans.cpp"], args={"fam": 0}, require=["compared"], bounds=ALPHA + " of up to 3 elements, F1 and F4, 2 ways of construction; every adjacency query of every entity and every common-entity query"),
              dict(name="sets", config="twin", src=["twin.cpp", "ans.cpp"], args={"fam": 1}, require=["compared"], bounds="every pair of subsets of a mesh's entities under 8 set operations"),
              dict(name="modify", config="twin", src=["twin.cpp", "ans.cpp"], args={"fam": 2}, require=["compared"], bounds="1 element: every sequence of 2 modifications (edge collapse, edge split, face split, deletion of element, of side), 2 elements: every single one (thorough two), all queries afterwards"),
              dict(name="classify", config="twin", src=["twin.cpp", "ans.cpp"], args={"fam": 3}, require=["compared"], bounds="renumbering of every kind and way, building classification with and without angles, again after other materials were given"),
              dict(name="files", config="twin", src=["twin.cpp", "ans.cpp"], args={"fam": 4}, require=["compared"], bounds="GMV and ExodusII files written and read")],
      rule="a case is one input given to both builds of the library, with and without markers, linked into one process under separate names; every line either answers must be the same in the same order, entities named by their IDs; non-trivial: distinct inputs",
      technique="exhaustive enumeration of bounded inputs executed on two builds of the real code in lockstep")
