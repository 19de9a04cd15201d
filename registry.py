"""Properties and how each of them is checked (single source for
properties.jsonl and MANIFEST.json, see gen.py)."""

A = "src/algorithm/"
U = "src/utils/"
CHECKS = {}
MC = ("explicit-state model checking of the implementation: exhaustive enumeration of bounded %s, every transition "
      "executed on the real code from a forked snapshot, state judged by an independent oracle")

def prop(id, title, statement, over, qtext, why, files, mech, observe, steps, rule, level_note,
         technique=None, level="model_checking", state=None, assumptions=None):
    CHECKS[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, observe=observe, steps=steps, rule=rule, level_note=level_note,
                      technique=technique or MC % "domains and operation histories", level=level, state=state,
                      assumptions=assumptions or BASE_ASSUME)

BASE_ASSUME = [
    "coordinates of order one (the library's predicates use absolute tolerances)",
    "double precision, g++ -O1 -DNDEBUG build of the current sources",
    "bounds: domains and histories of the enumerated families (see DESIGN.md)",
]

def mesh(quick=(), thorough=(), **kw):
    return {"quick": [dict(src="mesh.cpp", **kw)] + list(quick),
            "thorough": [dict(src="mesh.cpp", **kw)] + list(thorough)}

RULE = ("every path of the operation tree of every enumerated domain; a transition is non-trivial when the mesh holds "
        "elements afterwards; states are distinct meshes (coordinates rounded to 1e-7, connectivity, colours)")

prop("C01", "Finished meshes tile the domain exactly with valid, conforming elements",
  "For every valid straight-sided domain (any simple exterior outline, with or without holes, anywhere in the plane) and every "
  "positive, moderately varying element size, unlimited triangulation succeeds, and its elements have positive counter-clockwise area, do not "
  "overlap, meet edge to edge and together cover exactly the area of the domain. "
  "The finished mesh keeps all of these qualities under any sequence of quad merging, refinement, smoothing and cleanup.",
  ["inputs", "histories"], "all simple lattice polygons within the bounds, with holes, quad layers, transformations and size functions, and all operation histories up to the depth bound",
  "Tests mesh a few fixed shapes; which vertex is inserted, which front edge closes a gap and which fallback runs depends on the whole outline and size field.",
  [A+"Triangulation.h", A+"FrontUpdate.h", A+"Front.h", A+"EntityChecks.h", A+"MeshCleanup.h", A+"RefinementStrategy.h", A+"ModificationStrategy.h"],
  [("advancing front triangulation", A+"Triangulation.h"), ("front update and validity checks", A+"FrontUpdate.h"), ("front initialisation", A+"Front.h")],
  ["element, vertex and edge lists of the mesh", "return value of the generation"],
  mesh(), RULE, "bounded exhaustive on the real code; holds for the enumerated domains and histories")

prop("C02", "Edge, element, neighbour and vertex tables always describe the actual mesh",
  "After any sequence of generation, quad layer, modification, refinement, smoothing, cleanup and mesh merging steps, complete or interrupted, the left and "
  "right element of every edge, the neighbour of every element across each side, the element and edge lists of every vertex, "
  "the stored areas, lengths, angles, centres and circumcircles, the results of spatial searches, and all indices and counts are exactly those implied by the elements' vertices. Nothing refers to an entity that no longer exists.",
  ["histories", "inputs"], "all operation histories up to the depth bound over the enumerated domains",
  "The tables are maintained incrementally by every operation; tests check a few of them after a single operation.",
  [A+"MeshCleanup.h", A+"Mesh.h", A+"EdgeList.h", A+"Edge.h", A+"Vertex.h", A+"Facet.h", A+"Triangle.h", A+"Quad.h", A+"MeshMerger.h"],
  [("facet connectivity", A+"MeshCleanup.h"), ("entity insertion and removal", A+"Mesh.h"), ("edge ownership", A+"EdgeList.h")],
  ["edge left/right element", "element neighbours", "vertex adjacency lists", "indices"],
  mesh(), RULE, "bounded exhaustive on the real code", technique=MC % "operation histories (depth 3 quick, 4 thorough) and domains")

prop("C03", "Mesh boundary edges reproduce the domain outline and its markers",
  "At every stage of meshing, the boundary edges of a mesh subdivide the exterior and interior outlines of its domain without gap or "
  "overlap, keep the domain on their left, and carry exactly the marker of the outline segment they lie on. "
  "This holds for outlines given edge by edge or as coordinate lists in either direction, and through triangulation, quad layers, "
  "quad merging, smoothing and refinement; exactly the vertices on the outline are reported as boundary vertices.",
  ["inputs", "histories"], "all enumerated outlines, ways of specifying them, and histories",
  "Marker propagation passes through several splitting and rebuilding steps whose order depends on the outline and on the operations used.",
  [A+"Boundary.h", A+"Front.h", A+"FrontInitData.h", A+"MeshBuilder.h", A+"QuadLayering.h", A+"RefinementStrategy.h"],
  [("front refinement and boundary subdivision", A+"Front.h"), ("boundary shapes", A+"Boundary.h"), ("edge splitting in quad layers", A+"QuadLayering.h")],
  ["boundary edges with their markers", "boundary flag of vertices"],
  mesh(), RULE, "bounded exhaustive on the real code")

prop("C04", "Fixed vertices are kept exactly where they were prescribed",
  "Every vertex a user fixes inside a domain, and both end points of every fixed edge, become mesh vertices at exactly the prescribed position and are part of the "
  "finished mesh. No later smoothing, quad merging, cleanup or refinement step moves or removes them.",
  ["inputs", "histories"], "one, two and three fixed vertices at all positions of a half-integer lattice, fixed edges between them, all histories of the bounded alphabet",
  "Whether a fixed vertex survives depends on where it lies relative to the advancing front and to later cleanup candidates.",
  [A+"Domain.h", A+"MeshBuilder.h", A+"FrontInitData.h", A+"Front.h", A+"MeshCleanup.h", A+"SmoothingStrategy.h"],
  [("transfer of fixed vertices", A+"MeshBuilder.h"), ("protection in cleanup", A+"MeshCleanup.h"), ("protection in smoothing", A+"SmoothingStrategy.h")],
  ["vertex coordinates", "element vertices"],
  mesh(), RULE, "bounded exhaustive on the real code")

prop("C05", "Smoothing moves only free interior vertices and never damages the mesh",
  "Any sequence of smoothing calls of any kind and iteration count leaves connectivity, colours, boundary vertices, fixed vertices and (unless explicitly "
  "enabled) quad layer vertices untouched, bit for bit, and never turns a valid element into an inverted, degenerate or concave one. In merged meshes it keeps the area of every colour. "
  "Zero iterations change nothing; with quad layer smoothing enabled, quad layer vertices keep their distance to the nearest boundary edge.",
  ["inputs", "histories"], "all enumerated meshes (triangles, mixed, refined, quad layers, incomplete) and all smoother sequences of length one and two",
  "Each vertex move depends on the positions its neighbours have reached; inversion needs particular configurations.",
  [A+"SmoothingStrategy.h", A+"MeshCleanup.h"],
  [("smoothing iteration and roll back", A+"SmoothingStrategy.h"), ("vertex coordinate update", A+"MeshCleanup.h")],
  ["vertex coordinates before and after", "element orientation"],
  mesh(), RULE, "bounded exhaustive on the real code")

prop("C06", "Refinement splits every element into quads and nothing else changes",
  "Refining a mesh replaces every triangle by three and every quad by four quads of the same colour inside it, splits every edge at its mid point, adds one vertex at the centre of each element, keeps "
  "all old vertices in place and halves each boundary edge with its marker preserved, so the mesh stays conforming and covers the same area per colour; this "
  "can be repeated. A mesh that is connected to a neighbouring mesh is left unchanged and the refinement reports failure.",
  ["inputs", "histories"], "all enumerated complete, partial, mixed, layered and merged meshes, refined once and twice after every bounded history",
  "Mixed elements, boundary markers, colours and the neighbour refusal interact; tests refine a few meshes.",
  [A+"RefinementStrategy.h", A+"Mesh.h"],
  [("quad refinement", A+"RefinementStrategy.h")],
  ["entity counts", "coordinates", "colours and markers", "return value"],
  mesh(), RULE, "bounded exhaustive on the real code")

prop("C07", "Merging and cleaning up elements preserves area, colours and boundary",
  "Converting pairs of triangles to quads and removing degenerate element configurations never creates a concave, inverted or overlapping element, "
  "never mixes elements of different colours, leaves the boundary edges, the covered area per colour, and all remaining vertex positions "
  "unchanged, and never increases the number of elements. After conversion no two adjacent triangles of one colour that form a clearly convex quad remain.",
  ["inputs", "histories"], "all enumerated meshes including merged two-colour meshes and all modification sequences up to the depth bound",
  "The greedy merging order depends on edge lengths over the entire mesh; concave and multi-colour pairs occur only for particular outlines.",
  [A+"ModificationStrategy.h", A+"MeshCleanup.h"],
  [("triangle to quad modification", A+"ModificationStrategy.h"), ("cleanup of degenerate configurations", A+"MeshCleanup.h")],
  ["elements before and after", "boundary edges"],
  mesh(), RULE, "bounded exhaustive on the real code")

prop("C08", "Quad layers are valid, stay inside the domain and have the prescribed heights",
  "Generating quad layers from any corner to any corner of an outline produces only convex, counter-clockwise, non-overlapping elements inside "
  "the domain, leaves the outline and its markers intact, and the rest of the domain can still be meshed completely, also when several layers follow each other or a partial triangulation. "
  "Along the middle of a straight side, the i-th layer has the first height times the growth rate to the power i-1, as long as this is not larger than the boundary edges.",
  ["inputs", "configurations", "histories"], "all enumerated outlines, start and end corners, layer counts, heights, growth rates and subsequent operations",
  "Layers interact with corners, with each other and with the opposite side in ways that depend on all parameters.",
  [A+"QuadLayering.h", A+"Front.h"],
  [("quad layer projection and placement", A+"QuadLayering.h"), ("front edge splitting", A+"Front.h")],
  ["elements after the layer step", "boundary edges", "completion of the mesh"],
  mesh(), RULE, "bounded exhaustive on the real code; completion is required for the rectangle and lattice polygon families, layers around holes are only required to be valid")

prop("C09", "Neighbouring meshes are conforming and can be merged without loss",
  "When domains share whole outline sides, a mesh created after its neighbour uses exactly the neighbour's vertices along the common boundary, the edges of both sides refer to each other and keep their own markers, and meshing one never "
  "changes the other. Merging two such meshes in either direction succeeds, removes the donor and yields one conforming mesh holding the elements "
  "of both with their colours, no boundary edges along the former interface and all outer boundary edges and markers unchanged; a refused merge, such as of meshes without a common side, changes nothing.",
  ["inputs", "histories"], "all pairs of adjacent lattice polygons with matching sides, islands in holes, three meshes in every meshing and merging order",
  "Vertex identification and twin edges depend on the shape of the interface and on the order of operations.",
  [A+"FrontInitData.h", A+"MeshBuilder.h", A+"MeshMerger.h", A+"MeshGenerator.h"],
  [("neighbour edge collection", A+"FrontInitData.h"), ("twin edges", A+"MeshBuilder.h"), ("mesh merging", A+"MeshMerger.h")],
  ["boundary edges of both meshes", "merged mesh", "return values"],
  mesh(), RULE, "bounded exhaustive on the real code; only interfaces where whole sides match")

prop("C18", "Limited mesh generation is incremental and can always be resumed",
  "A generation run limited to n elements adds at least one and at most n elements to an unfinished mesh, and every intermediate mesh is valid: its elements do not overlap, "
  "are conforming, respect a given maximum angle, and its boundary is that of the domain. However the generation is divided into limited runs of either kind, a final unlimited run completes the mesh.",
  ["histories", "inputs"], "all sequences of limited runs up to the depth bound for the enumerated domains, and element-by-element generation",
  "Resuming rebuilds the advancing front from the unfinished mesh; the possible interruption points are as many as there are elements.",
  [A+"Triangulation.h", A+"MeshingStrategy.h", A+"Front.h", A+"Mesh.h"],
  [("front reconstruction", A+"MeshingStrategy.h"), ("element limit", A+"Triangulation.h")],
  ["element lists after each run", "return value"],
  mesh(), RULE, "bounded exhaustive on the real code (all interruption sequences within the bound)")

prop("C19", "Success and completeness reports are truthful",
  "Unlimited generation reports success if and only if the mesh then is a complete, valid mesh of its domain, and the mesh completeness check answers "
  "yes exactly for such meshes, after any history including interrupted, layered, refined or impossible ones.",
  ["inputs", "histories"], "all enumerated domains including ones where generation legitimately fails, and histories",
  "A wrong verdict needs a mesh that is almost complete; tests check the verdict on good meshes.",
  [A+"MeshChecker.h", A+"Triangulation.h", A+"MeshingStrategy.h"],
  [("completeness check", A+"MeshChecker.h"), ("generation result", A+"Triangulation.h")],
  ["return values", "completeness verdict"],
  mesh(), RULE, "bounded exhaustive on the real code")

APP_ASAN = dict(src="app.cpp", app="asan", args={"family": "small"})
prop("C24", "No operation history corrupts memory or crashes",
  "Whatever valid sequence of meshing, modification, refinement, smoothing, cleanup and merging operations a program performs on valid domains, the "
  "library never reads or writes memory it does not own, never executes undefined arithmetic, never crashes and always terminates.",
  ["histories", "inputs"], "all bounded histories of the enumerated domains, executed in an address and undefined behaviour sanitizer build",
  "Use-after-free only shows for particular orders of removals and later accesses and is often invisible without instrumentation.",
  [U+"Container.h", U+"QuadTree.h", A+"Mesh.h", A+"Front.h", A+"QuadLayering.h", A+"MeshCleanup.h", A+"MeshMerger.h", A+"MeshGenerator.h"],
  [("deferred deletion", U+"Container.h"), ("mesh entity removal", A+"Mesh.h"), ("mesh merging", A+"MeshMerger.h")],
  ["process outcome under the sanitizers"],
  {"quick": [dict(src="mesh.cpp", variant="asan"), APP_ASAN], "thorough": [dict(src="mesh.cpp", variant="asan"), APP_ASAN]}, RULE,
  "bounded exhaustive on the real code with address and undefined behaviour sanitizers as monitors",
  assumptions=["g++ -O1 -fsanitize=address,undefined build", "leaks are not tracked"])

def geom(src="geom.cpp"):
    return {"quick": [dict(src=src)], "thorough": [dict(src=src)]}

EX = ("bounded exhaustive model checking of the implementation: every %s of the stated bounds is executed on the real code in a "
      "forked process and compared with an independent exact model")
CASES = "every enumerated case is executed on the real code and compared with the model; a case is non-trivial when it reaches the judged behaviour; states are distinct inputs / model states"

prop("C10", "Spatial container and quad tree always agree with a plain list",
  "After any sequence of insertions, removals, moves, sorts and garbage collections, iteration, indexed access, size, rectangle queries, circle queries and nearest-item queries "
  "of the entity container return exactly what a plain list of the stored items would return, removed items are finalised exactly once and stay readable until the "
  "garbage is cleared, and a move is accepted exactly when the target lies in the covered region.",
  ["histories", "configurations"], "all operation sequences up to the depth bound over lattice positions, for several leaf capacities and tree depths, and long fill, move and drain histories",
  "Tree splits and merges depend on insertion order, coinciding items, item capacity and depth; every other part of the library relies on these queries.",
  [U+"Container.h", U+"QuadTree.h"],
  [("split and merge of leaves", U+"QuadTree.h"), ("deferred deletion and iteration", U+"Container.h")],
  ["container contents and query results"],
  geom("cont.cpp"), "every operation sequence is executed on the real container and compared with a list model after each step", 
  "bounded exhaustive on the real code", technique=EX % "operation sequence (depth 4 quick, 5 thorough)",
  assumptions=["items are inserted inside the region the container was created for"])

prop("C11", "Exactly the well-formed domains are accepted",
  "A closed outline of straight edges is accepted for meshing exactly if it does not cross or touch itself, at any scale and position, and whatever order its edges were given in; outlines "
  "with a missing or reversed edge, missing or empty boundaries, and pairs of boundaries whose edges cross or touch are refused. For a refused domain no mesh is "
  "generated: the mesh stays empty and generation reports failure.",
  ["inputs"], "all closed lattice sequences up to the bound, all pairs of enumerated outlines, all edge orders and edge defects, under scalings and translations",
  "Whether an outline crosses itself depends on all edge pairs; rejecting a valid or accepting an invalid outline shows up only for particular shapes.",
  [A+"Domain.h", A+"Boundary.h", A+"EdgeList.h", A+"MeshBuilder.h", U+"Geometry.h"],
  [("domain validity", A+"Domain.h"), ("boundary traversal", A+"Boundary.h"), ("mesh creation", A+"MeshBuilder.h")],
  ["result of mesh creation and generation"],
  geom(), CASES, "bounded exhaustive on the real code", technique=EX % "outline, outline pair and outline defect",
  assumptions=["coordinates up to about 1e3 and edge lengths above 1e-2", "contact of boundaries in common vertices only is not judged"])

prop("C12", "Geometric predicates and measures agree with exact arithmetic",
  "Orientation, segment intersection, point-in-triangle, point-in-quad and rectangle overlap tests, distances, areas, edge lengths and angles of elements, boundary and domain "
  "areas, domain extents and the inside test for points agree with exact integer arithmetic for all lattice configurations at any position and moderate scale.",
  ["inputs"], "all point tuples of a lattice window, under scalings and translations",
  "The predicates decide every element insertion; errors show only for special relative positions such as collinear or touching configurations.",
  [U+"Geometry.h", A+"Triangle.h", A+"Quad.h", A+"EdgeList.h", A+"Domain.h"],
  [("predicates", U+"Geometry.h"), ("element measures", A+"Triangle.h"), ("point location", A+"Domain.h")],
  ["return values of the geometric functions"],
  geom(), CASES, "bounded exhaustive on the real code", technique=EX % "tuple of lattice points",
  assumptions=["coordinates of order one to one hundred (absolute tolerances)"])

prop("C16", "Boundary definitions create exactly the described outline",
  "Rectangles, squares, triangles, circles, coordinate lists and CSV files define exactly the described closed outline, in the direction required for exterior or interior boundaries, "
  "with the given marker and size at each vertex, sharing existing domain vertices where they coincide, whatever direction or CSV layout is used. Malformed or missing CSV files raise an error and define nothing.",
  ["inputs"], "all enumerated shapes, positions, sizes, directions, marker assignments and CSV layouts including malformed cells at every position",
  "Orientation, markers and vertex sharing depend on the combination of shape, boundary kind, listing direction and existing vertices.",
  [A+"Boundary.h", A+"Domain.h", U+"Helpers.h"],
  [("boundary shapes", A+"Boundary.h"), ("vertex reuse", A+"Domain.h")],
  ["edges, markers and vertices of the boundary", "exceptions"],
  geom(), CASES, "bounded exhaustive on the real code", technique=EX % "shape, listing direction and CSV layout")

prop("C17", "The element size function honours all prescribed sizes",
  "At every point of the domain the resulting element size is positive, not larger than the user's size function, and not smaller than the smallest prescribed value; close to corners "
  "and fixed vertices it does not exceed the size prescribed there, and their influence fades within the given range. Boundary edges are subdivided and elements are sized accordingly.",
  ["inputs", "configurations"], "all enumerated outlines, vertex and edge sizes, ranges and user size functions, evaluated on grids of points",
  "Sizes from several vertices, edges and the user function combine at every point; tests evaluate a few points.",
  [A+"Domain.h", A+"Front.h"],
  [("vertex and edge influence", A+"Domain.h"), ("front refinement", A+"Front.h")],
  ["size function values", "lengths of boundary edges", "element areas"],
  geom(), CASES, "bounded exhaustive on the real code", technique=EX % "outline and size prescription")

prop("C13", "Exported files describe the mesh faithfully",
  "At any stage of meshing, the text and VTU exports contain exactly the vertices (to five decimals), elements with colours, edges with their adjacent elements and boundary markers, interface edges, "
  "neighbour tables, sizes, flags and cell measures of the mesh, and are self-consistent. Standard output carries the same text, file suffixes are added when missing, and exporting never changes the mesh.",
  ["histories", "inputs"], "all bounded histories of the enumerated domains, including unfinished, layered, merged and neighbouring meshes, exported after every transition in every format",
  "Indices, neighbours and interface entries are only right when all tables are up to date after the particular history that led to the export.",
  [A+"MeshWriter.h", A+"Mesh.h", U+"VtkIO.h"],
  [("text export", A+"Mesh.h"), ("VTU export", A+"MeshWriter.h"), ("VTU file format", U+"VtkIO.h")],
  ["content of the exported files", "return value"],
  mesh(), RULE, "bounded exhaustive on the real code, exports read back by an independent reader",
  assumptions=BASE_ASSUME + ["entries for elements of a neighbouring mesh are judged once that neighbour is finished"])

prop("C14", "An export reports success only if the complete file was written",
  "Whatever goes wrong while a mesh is exported (missing directory, target is a directory, full device, size limit or a failing write at any byte or system call), the export reports failure, does not crash "
  "and leaves the mesh usable so that a later export succeeds; whenever it reports success, the file holds the complete export, replacing any older content.",
  ["crash points", "faults"], "every byte position at which the file system stops accepting data, every write system call failing temporarily or permanently or accepting part of the data, for several meshes and formats",
  "Tests write to a healthy file system; a lost write shows only for a fault at a particular call.",
  [A+"MeshWriter.h", U+"VtkIO.h", A+"MeshGenerator.h"],
  [("text export", A+"MeshWriter.h"), ("VTU export", U+"VtkIO.h")],
  ["return value of the export", "file content"],
  {"quick": [dict(src="io.cpp")], "thorough": [dict(src="io.cpp")]},
  "every fault position of every export is executed on the real writers; non-trivial: a fault was injected",
  "exhaustive over all fault positions of the enumerated exports", technique=EX % "fault position (byte limit, failing or partial write call)",
  assumptions=["faults appear as failing or partial write calls", "failures of the final close are not injected"])

prop("C15", "Parameter files are read exactly as written",
  "For every parameter file, each query of a scalar, vector, matrix or block parameter finds the next occurrence of its key within its block and returns exactly the values written there: comments, blank lines, brackets, "
  "surplus values and line endings do not matter, missing values are refused or filled with the default, repeated queries advance through the file, and a failed query leaves earlier values untouched.",
  ["inputs", "histories"], "all files of up to four lines (five in the thorough tier) over an alphabet of line kinds, plus files with matrices and blocks around such lines, each with repeated queries of every parameter kind",
  "The result of a query depends on all lines before it and on earlier queries.",
  [U+"ParaReader.h"],
  [("parameter queries", U+"ParaReader.h"), ("file content and comments", U+"ParaReader.h")],
  ["query results and values"],
  {"quick": [dict(src="para.cpp")], "thorough": [dict(src="para.cpp")]},
  "every file of the bounded alphabet is parsed by the library and by a reference reader and all query results are compared; non-trivial: at least one parameter was found",
  "exhaustive over the bounded files", technique=EX % "parameter file (sequence of line kinds)",
  assumptions=["cells are well-formed numbers or contain no number"])

prop("C20", "The application creates exactly the meshes its parameter file describes",
  "For every parameter file the command line application writes, for each described mesh in order, exactly the mesh that the library creates for this description (boundaries of every kind, sizes, size expression, fixed vertices and edges, "
  "quad layers, algorithm, refinements, smoothing, colour, merging with the previous meshes), in the requested format and file. It ends with success if and only if all meshes are complete and written; "
  "invalid descriptions, expressions, indices or missing files end with a failure status, never with a crash, a hang or a success.",
  ["inputs", "histories"], "all parameter files that deviate from a base description in up to three (four) options, invalid ones included, and sequences of two and three meshes",
  "Parameters of one file interact (order of queries, defaults, shared state between successive meshes); tests do not run the application.",
  ["src/app/TQMeshApp.h", "src/app/main.cpp", "src/app/size_function.cpp", U+"ParaReader.h", A+"MeshGenerator.h"],
  [("parameter file to mesh", "src/app/TQMeshApp.h"), ("size expressions", "src/app/size_function.cpp"), ("exit status", "src/app/main.cpp")],
  ["files and standard output of the application", "exit status"],
  {"quick": [dict(src="app.cpp", app="opt")], "thorough": [dict(src="app.cpp", app="opt")]},
  "every enumerated parameter file is executed by the real application in a scratch directory and compared with the mesh made directly with the library; non-trivial: the description is valid",
  "exhaustive over the bounded descriptions", technique=EX % "parameter file (combination of options, sequence of meshes)",
  assumptions=["every block is terminated by its end key", "the library itself is judged by the other properties", "the expression parser is third party code"])

prop("C21", "Conversion to OpenFOAM preserves the mesh",
  "The OpenFOAM converter turns every finished text export into the extrusion of that mesh: one closed cell per element with the element's index, points at height zero and at the extrusion height, "
  "outward oriented faces, owner smaller than neighbour in upper triangular order, one patch per boundary marker holding exactly the faces with this marker, and one patch each for the bottom and the top.",
  ["inputs", "histories"], "all exports of the enumerated domains and histories (triangles, quads, mixed, refined, layered, merged meshes, many marker assignments), with different extrusions and comments in the file",
  "Face order, orientation and patches depend on the element numbering and markers that a particular history produces.",
  ["scripts/convert2foam.py", A+"Mesh.h"],
  [("face, owner and patch construction", "scripts/convert2foam.py")],
  ["files written by the converter"],
  {"quick": [dict(py="foam.py", vt=True, helper="dump.cpp")], "thorough": [dict(py="foam.py", vt=True, helper="dump.cpp")]},
  "every exported mesh is converted by the script and the result is checked face by face; states are distinct exports",
  "exhaustive over the bounded meshes", technique=EX % "exported mesh and converter option",
  assumptions=["point coordinates are compared to six significant digits", "only finished meshes are converted"])

prop("C22", "A mesh depends on nothing but its own description",
  "Running the same meshing session (domain, size function, operations and settings) again always yields bit for bit the same mesh, with the same return values: whatever other sessions ran before or run in between, "
  "whatever other, distant meshes and settings the same generator holds, whether fixed vertices, edges, vertices or boundaries were added to the domain and removed again beforehand, and whether the "
  "meshes were inspected, checked or printed in between.",
  ["histories", "inputs"], "all enumerated sessions (outlines, holes, layers, fixed vertices, merged neighbours) under every enumerated foreign history",
  "Hidden shared state only shows for particular pairs of sessions; tests run each session once.",
  [A+"MeshGenerator.h", A+"MeshBuilder.h", A+"Domain.h", A+"FrontInitData.h", A+"MeshingStrategy.h", U+"Container.h"],
  [("algorithm objects and settings", A+"MeshGenerator.h"), ("removal of domain entities", A+"Domain.h"), ("mesh creation among other meshes", A+"MeshBuilder.h")],
  ["complete mesh after every operation", "return values"],
  {"quick": [dict(src="hist.cpp")], "thorough": [dict(src="hist.cpp")]},
  "every session is executed alone and under every foreign history and compared bit for bit after each operation; states are distinct meshes",
  "exhaustive over the bounded sessions and foreign histories", technique=EX % "pair of session and foreign history (run before, alive, interleaved, same generator, detours, inspections)",
  assumptions=["distant means no common outline", "bounds: see DESIGN.md"])

prop("C23", "Edge lists and the advancing front mirror a plain list of edges",
  "After any sequence of adding, inserting, removing, splitting, sorting, clearing and moving operations, an edge list (and the advancing front built on it) holds exactly the expected edges in the expected order with their end points, "
  "markers, lengths, directions and mid points; look-ups by vertex, by vertex pair, by distance, to the next and previous edge and along chains return exactly what a plain list would, every vertex knows exactly the edges it belongs "
  "to, and other lists sharing the vertices are not affected. Splitting divides an edge in the requested ratio with interpolated sizes; impossible splits are refused and change nothing.",
  ["histories"], "all operation sequences up to the depth bound over four vertices and two lists, in three vertex configurations, starting from all pairs of first edges and from closed chains",
  "The links between vertices, edges and lists are updated by every operation; an error shows only after particular sequences.",
  [A+"EdgeList.h", A+"Edge.h", A+"Front.h", A+"Vertex.h", U+"Container.h"],
  [("edge insertion, removal and splitting", A+"EdgeList.h"), ("traversal", A+"Edge.h"), ("front order and base edge", A+"Front.h")],
  ["edges, look-ups and vertex links"],
  geom("edge.cpp"), "every operation sequence is executed on the real edge list and compared with a list model after its last step (all prefixes are sequences, too)",
  "bounded exhaustive on the real code", technique=EX % "operation sequence (two to five given edges, then all sequences of 2 to 3 further operations; 3 to 4 thorough)",
  assumptions=["no two edges of one list run between the same vertices in the same direction", "the orientation of the split ratio is not judged"])
