#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
I="include/kigumi/"
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=state or [],observe_at=observe or [],hook_needed=None)))

p("C01","Boolean face selection matches the set semantics of all 16 operators",
 "For every one of the 16 Boolean operators, an input face that has been classified as outside, inside, coincident-same-orientation or coincident-opposite-orientation with respect to the other region is present in the result exactly when the set formula of the operator (README table) differs between the two sides of that face. Its orientation in the result puts the inside of the result behind it, and coincident faces are output exactly once, taken from the operand the caller prefers. Points and attached data of an output face are those of the input face, in input order, with vertices shared exactly as in the input.",
 ["inputs"],"all operators, both preferences, all classified face lists of any length",
 "The tests run a few cube pairs for a few operators; the selection must be right for each (operator, face class, side, preference) cell and any face count.",
 [I+"Boolean_operator.h",I+"Extract.h"],
 [("four 16-row output tables","Boolean_operator.h: union_mask, intersection_mask, coplanar_mask, opposite_mask"),("face loop with vertex renumbering","Extract.h: Extract::operator()")],
 ["boundary of the region returned by applying a Boolean operator"])
p("C02","Empty and full operands and results are decided correctly",
 "Combining regions where at least one operand is the empty set or the universe gives, for every operator, exactly the region the set formula prescribes (empty, full, the other operand's boundary, or its reversal). When two boundary-defined operands leave no boundary face in the result, the result is reported as empty or full according to the set formula, or an error is raised when the operands cannot determine it; it is never the wrong one of the two. An empty boundary is never accepted as a boundary-defined region.",
 ["inputs"],"all 16 operators, all operand kinds, all classifications consistent with some pair of regions",
 "Tests cover the 9 empty/full combinations and a handful of cube pairs; the rule must hold for every pair of regions whose result has no boundary.",
 [I+"Boolean_region_builder.h",I+"Region.h"],
 [("constructor short cuts and final decision","Boolean_region_builder.h"),("non-empty boundary check","Region.h: Region(Triangle_soup)")],
 ["is_empty/is_full/boundary of the returned region"])
p("C03","Face data and origin follow every face through refinement",
 "Every triangle produced when the two input boundaries are refined against each other carries the data of the input face it is a piece of and is attributed to the operand that face came from. This holds for every number of pieces per face, for both operands, and also when one operand is the empty set or the universe. No piece is lost, duplicated or given another face's data.",
 ["inputs"],"all pairs of boundary meshes and all numbers of pieces per face",
 "Tests compare total areas on a few cube pairs with two data values; the association must hold for each piece of each face.",
 [I+"Mix.h",I+"Boolean_region_builder.h",I+"Mixed.h"],
 [("parallel growth of face and data lists","Mix.h: Mix::operator()"),("copy of faces, points and data","Boolean_region_builder.h constructor")],
 ["face data on result boundaries"])
p("C04","Binary region files restore exactly the region that was written",
 "Reading back a region written in the binary format succeeds and yields the same kind, the same faces and face data in the same order, and exactly equal point coordinates, for every region whose counts fit the format, including coordinates that are not representable as floating-point numbers, and whatever the destination region held before. Values that do not fit the format are rejected with an error rather than truncated, and a truncated file is never reported as read successfully. The byte layout is little-endian and independent of the contents of other values.",
 ["inputs"],"all regions, all exact rational coordinates, all prior contents of the destination, all truncation points",
 "There is no serialisation test; a round trip must hold for unbounded inputs and for each truncation point.",
 [I+"io.h",I+"Region_io.h",I+"Region.h",I+"Triangle_soup.h",I+"Mesh_indices.h"],
 [("checked_cast","io.h"),("Write/Read pairs","io.h, Region.h, Triangle_soup.h, Mesh_indices.h")],
 ["write_kigumi_region / read_kigumi_region"])
p("C05","Bounding-box tree queries are exact",
 "A query against the face bounding-box tree returns every face whose box meets the query, no face whose box does not, and each face exactly once, for every number of faces and every query. The answer does not depend on the thread limit in force when the tree was built.",
 ["inputs","configurations"],"all leaf counts, all boxes and queries, all thread limits",
 "No test addresses the tree; its node layout arithmetic must be right for each leaf count.",
 [I+"AABB_tree/AABB_tree.h",I+"AABB_tree/AABB_node.h",I+"AABB_tree/AABB_leaf.h"],
 [("recursive build over disjoint node/leaf ranges","AABB_tree.h: build"),("recursive descent","AABB_tree.h: traverse")],
 ["set of leaves returned by a query"])
p("C06","Every face pair with overlapping boxes is tested for intersection",
 "The list of face pairs examined for intersection contains each pair (face of the first mesh, face of the second mesh) whose bounding boxes overlap and neither of which has already been recognised as coincident, exactly once and in that order of operands. It contains no other pair, whichever mesh has more faces and however the work is split among threads.",
 ["inputs","schedules"],"all pairs of meshes, all prior face classifications, all work splits",
 "Tests use tiny meshes where a lost or swapped pair goes unnoticed or would be one fixed schedule.",
 [I+"Find_possibly_intersecting_faces.h",I+"mesh_utility.h"],
 [("smaller-mesh tree query with operand swap","Find_possibly_intersecting_faces.h")],["candidate pair list"])
p("C07","Coincident faces are recognised exactly",
 "After recognition of coincident faces, a face of one mesh is marked coincident-same (coincident-opposite) exactly when the other mesh has a face on the same three vertices with the same (opposite) cyclic orientation, whatever vertex each face starts at and whichever mesh has more faces, provided no face is degenerate and no mesh has two faces on the same three vertices. All other faces stay unmarked.",
 ["inputs"],"all pairs of meshes without repeated faces, all vertex rotations, either mesh larger",
 "Tests contain a few coincident cube faces; rotation and orientation must be right for all index orders.",
 [I+"Find_coplanar_faces.h"],
 [("rotation-normalised vertex triple lookup","Find_coplanar_faces.h")],["face marks"])
p("C08","Points get one index per distinct coordinate triple",
 "While point merging is on, two inserted points receive the same index exactly when their exact coordinates are equal, the index designates a stored point equal to the inserted one, and already stored points keep their index. While it is off, every insertion appends. Duplicate vertices in input meshes are merged this way and nothing else is merged.",
 ["inputs","histories"],"all insertion sequences, all coordinate representations of equal points",
 "Tests never insert equal points built in different ways; equality and hashing must agree for every representation.",
 [I+"Point_list.h",I+"Find_defects.h",I+"Corefine.h"],
 [("hash map from point to index","Point_list.h: insert"),("hash on exact value","Point_list.h: Point_3_hash")],["indices returned by insertion"])
p("C09","Each symbolic intersection gets one consistent point",
 "Intersecting two triangles' regions always yields the vertex itself when a vertex is involved, and otherwise one index for the same geometric feature pair however the vertices of the triangles are ordered; distinct feature pairs have distinct cache entries. The stored point lies exactly on both features that define it.",
 ["inputs","histories"],"all region pairs, all vertex orders of both triangles, all insertion histories",
 "The tests check no index reuse; all rotations and swaps of both triangles must map to the same entry.",
 [I+"Intersection_point_inserter.h",I+"Triangle_region.h"],
 [("rotation to canonical edge, sorted cache keys","Intersection_point_inserter.h")],["index returned for an intersection"])
p("C10","Mesh adjacency lists exactly the incident faces",
 "After a mesh is finalised, iterating the faces around an edge yields exactly the faces containing both end points, each once, in increasing face order. Iterating the faces around a face yields exactly the other faces sharing a non-border edge with it (with one visit per shared edge). This holds for all vertices, including unused ones, and any number of faces.",
 ["inputs"],"all face lists over all vertex ranges, all edges, all border sets",
 "Tests finalise meshes of at most six faces around one edge.",
 [I+"Triangle_mesh.h",I+"Mesh_iterators.h"],
 [("sorted vertex-face index with offsets","Triangle_mesh.h: finalize"),("merge-intersection iterators","Mesh_iterators.h")],["faces around an edge or a face"])
p("C11","Classification spreads over whole patches and never across borders",
 "Spreading a face's classification gives it to every unclassified face reachable without crossing a border edge or an already classified face, changes no other face and no other data, and terminates. A warning is produced exactly when the spread meets a face with a different classification, and it names the mesh the spreading face belongs to.",
 ["inputs"],"all meshes, border sets, seeds and prior classifications",
 "Tests spread over at most a handful of faces around one edge.",
 [I+"Propagate_face_tags.h",I+"Warnings.h"],[("queue-driven flood fill","Propagate_face_tags.h")],["face classifications and warnings"])
p("C12","Every remaining patch is classified against the other region",
 "After global classification no face is left unclassified: each patch of faces untouched by local classification receives inside or outside according to where it lies with respect to the other operand's boundary, never its own. Each patch is handled exactly once, however patches are split among threads, and a patch lying on the other boundary is an error rather than a guess.",
 ["inputs","schedules"],"all meshes, border sets, partial classifications, work splits",
 "Tests have one or two patches; the patch search must be right for each adjacency structure.",
 [I+"Classify_faces_globally.h"],[("component search with resume position","Classify_faces_globally.h: find_unclassified_connected_components"),("per-patch side query","Classify_faces_globally.h")],["face classifications"])
p("C13","Local classification around an edge is never wrong",
 "Around an intersection edge at which both regions are locally well defined (faces of each operand alternate between entering and leaving it), every face that local classification marks inside, outside, coincident-same or coincident-opposite has that true relation to the other operand, for any number of faces, any angles and either edge direction. Where the existing marks around an edge contradict each other, faces not yet marked are left to global classification. Faces already correctly classified keep their classification.",
 ["inputs"],"all numbers, angles, orientations and origins of faces around an edge",
 "Six fixed configurations with at most six faces are tested; the circular order argument must hold for any configuration.",
 [I+"Classify_faces_locally.h"],[("exact radial sort and parity walk","Classify_faces_locally.h")],["face classifications"])
p("C14","Triangle-triangle intersection is complete and symmetric",
 "For two non-degenerate triangles the symbolic intersection lists exactly the vertices of the true geometric intersection polygon, each once and each attributed to the lowest-dimensional feature of both triangles that contains it, whatever the order and rotation of their vertices. Lists of three or more are in order along the polygon's boundary, and the result does not depend on triangles processed earlier.",
 ["inputs","histories"],"all pairs of non-degenerate triangles, including touching and coplanar ones, and all earlier calls",
 "The tests check a sample of configurations; every sign combination must be handled.",
 [I+"Face_face_intersection.h",I+"Triangle_region.h"],[("edge/face sign analysis with cached orientations","Face_face_intersection.h")],["symbolic intersections"])
p("C15","Point location against a region is exact",
 "Asking where a point lies with respect to a region answers boundary exactly for points on the boundary, inside or outside according to the region otherwise, for empty, full, closed and inverted regions, or raises an error; it never returns a wrong side. The empty set contains nothing and the universe everything.",
 ["inputs"],"all regions and all exact query points",
 "Five fixed queries are tested; grazing rays through edges, vertices and coplanar faces are not.",
 [I+"Side_of_triangle_soup.h",I+"Region.h",I+"mesh_utility.h"],[("nearest unambiguous ray hit","Side_of_triangle_soup.h"),("side translation","Region.h: bounded_side")],["bounded side of a point"])
p("C16","Defect reports match their definitions",
 "The defect report of a mesh lists exactly the isolated vertices, non-manifold vertices, boundary edges, inconsistently oriented edges, non-manifold edges, faces with repeated vertices and zero-area faces of the mesh after merging equal points, each once. A face is reported as overlapping only if it really meets another non-degenerate face beyond their shared vertices or edge, and every such pair has at least one of its faces reported.",
 ["inputs","schedules"],"all triangle soups",
 "There is no test of defect finding at all.",
 [I+"Find_defects.h",I+"Dense_undirected_graph.h"],[("half-edge counts, vertex link graphs","Find_defects.h"),("triangular adjacency matrix","Dense_undirected_graph.h")],["defect lists"])
p("C17","Text mesh readers accept exactly what is declared, or leave the mesh alone",
 "Reading an OBJ, OFF or PLY file that succeeds yields the vertices in file order and, for every face line, the triangle fan of its vertex list in order, with the format's index convention (one-based and negative for OBJ, zero-based otherwise). If reading fails, or fewer or more elements than declared are present, failure is reported and the caller's mesh is unchanged.",
 ["inputs"],"all input texts",
 "No reader test exists; files are unbounded.",
 [I+"io/obj.h",I+"io/off.h",I+"io/ply.h",I+"io/ascii.h",I+"Triangle_soup_io.h"],[("line readers into a fresh mesh, moved out on success","io/*.h"),("triangle fan","io/*.h")],["returned flag and mesh"])
p("C18","Text mesh writers report success only for readable, complete output",
 "Writing a mesh in a text format and reading it back yields the same faces in the same order and the vertex coordinates rounded to double, for every mesh and for both OBJ index styles. A write is reported as successful only if all output reached the destination, and unsupported file name extensions are rejected for both reading and writing.",
 ["inputs","fault_sequences"],"all meshes, all formats, all write failures including those at final flush",
 "No writer test exists; failures at flush time are not exercised.",
 [I+"io/obj.h",I+"io/off.h",I+"io/ply.h",I+"io/ascii.h",I+"Triangle_soup_io.h",I+"Region_io.h"],[("stream writers","io/*.h: write_*")],["returned flag and file contents"])
p("C19","Parallel loops process each item exactly once and lose nothing",
 "A parallel loop that completes normally has applied its body exactly once to each item and merged the accumulated state of every worker exactly once, each starting from the given initial state, with merges never concurrent. If any body or merge raises an error, the call raises one of those errors after all workers have stopped. No more workers run than the thread limit in force allows, and no state shared by workers is accessed without synchronisation.",
 ["schedules","configurations"],"all item counts, thread limits, interleavings and failing items",
 "Tests only reach the parallel loop through whole operations under one schedule.",
 [I+"parallel_do.h",I+"threading.h"],[("shared atomic index, mutex-guarded merge and error slot","parallel_do.h")],["set of processed items, raised errors"])
p("C20","Parallel sort sorts",
 "A parallel sort leaves the range a permutation of its input in non-decreasing order of the given comparison, for every length and every thread limit, including lengths not divisible by the number of workers and numbers of workers that are not powers of two. Workers never touch overlapping parts of the range at the same time.",
 ["inputs","schedules","configurations"],"all lengths, contents, comparisons and thread limits",
 "Tests only sort ranges far below the parallel threshold.",
 [I+"parallel_sort.h"],[("partition, sort, barrier-separated merges","parallel_sort.h")],["sorted range"])
p("C21","Scoped options apply exactly within their scope",
 "Creating an option scope makes its options current on that thread until the scope ends and then restores exactly what was current before, for every nesting and also when the scope ends by an error. Requested thread counts are limited to the range from one to the hardware maximum. Other threads are unaffected.",
 ["histories","configurations"],"all nestings and sequences of option scopes, all requested values",
 "No test nests option scopes.",
 [I+"Context.h",I+"threading.h",I+"io/obj.h"],[("save in constructor, restore in destructor","Context.h"),("clamp","threading.h")],["current options"])
p("C22","Triangle soups are values and queries always see current faces",
 "Copying or assigning a triangle soup gives an equal, independent soup; moving transfers the contents; adding a vertex or face appends it, returns its index, gives the face default data and leaves all other elements unchanged; access with an index out of range is an error. Box queries on a soup always reflect its current faces, also when the soup was changed, copied, assigned or moved after an earlier query.",
 ["histories","inputs"],"all sequences of operations on soups",
 "Tests never query a soup and then modify it.",
 [I+"Triangle_soup.h",I+"Mesh_iterators.h",I+"Mesh_indices.h"],[("three parallel arrays","Triangle_soup.h"),("lazily built tree","Triangle_soup.h: aabb_tree")],["soup contents and box query answers"])
p("C23","The command line reads, computes and writes what was asked",
 "The region loader accepts the empty and full placeholders, binary region files and the three text formats, and reports failure for anything else without changing the destination. The boolean command writes to each requested file the result of the operator that option names, in operand order, and the convert command writes the region it read (the text formats hold the boundary only). Any failure to read or write ends in a non-zero exit status.",
 ["inputs","configurations"],"all argument combinations",
 "There are no command-line tests.",
 ["cli/utility.h","cli/boolean_command.cc","cli/convert_command.cc","cli/main.cc"],[("operator/output table","boolean_command.cc"),("extension dispatch","utility.h, Triangle_soup_io.h")],["files written and exit status"])
p("C24","Refinement replaces each face by pieces that exactly cover it",
 "For every face crossed by the other mesh, the triangles that replace it use only its corners and the intersection points on it, cover it exactly without overlap and keep its orientation, and every intersection segment appears as edges of the pieces of both faces it lies on. Faces not crossed are passed through unchanged. Where faces of the two meshes overlap in one plane, both meshes get the same triangles on the overlap. The set of border edges reported for classification is exactly the set of intersection segments.",
 ["inputs","schedules"],"all pairs of valid boundary meshes",
 "Tests check volumes on a few meshes only.",
 [I+"Corefine.h",I+"Triangulation.h"],[("grouping of intersections per face","Corefine.h"),("constrained triangulation with symbolic locations","Triangulation.h")],["pieces of each face"])
p("C25","The Boolean result equals the regularised set operation",
 "For valid operands the region returned for any operator contains exactly the points the regularised set formula prescribes: a point off all input boundaries is inside the result exactly when the formula holds for its membership in the two operands.",
 ["inputs","configurations"],"all pairs of valid regions, all operators",
 "Tests check a few cube combinations.",
 [I+"Boolean_region_builder.h",I+"Mix.h",I+"Corefine.h"],[("composition of refinement, classification and selection","Boolean_region_builder.h, Mix.h")],["membership of points in the result"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
assert all(len(x["title"])<=80 for x in P)
