"""Texts of the properties (properties.jsonl and MANIFEST.json are generated from here)."""
TEXT, NOTE, NA = {}, {}, {}
def P(pid, **k): TEXT[pid] = k

P("T01", title="A parallel loop runs every index exactly once, whatever the schedule",
  statement="A parallel loop over one or two index ranges executes the given task exactly once for every index (or index pair) and for no other, for any index type, count, number of requested threads and reported hardware concurrency. All tasks have ended, and their results are visible to the caller, when the call returns. Loops run from different threads, nested or in sequence do not affect each other.",
  over=["schedules", "inputs", "configurations"], qtext="all interleavings of the worker threads, all index counts, types and thread counts (including unknown hardware concurrency)",
  why="The tests run a few fixed loops under whatever schedule the OS gives; a lost, repeated or late index needs a particular preemption point or a narrow index type.",
  files=["include/delfem2/thread.h"], mech=[("shared index counter", "include/delfem2/thread.h parallel_for"), ("futures joined before return", "include/delfem2/thread.h parallel_for")],
  observe=["per-index execution counters", "live simulated threads at return"], search="thread schedules")
NOTE["T01"] = "The real parallel loop runs on a seeded scheduler that decides every preemption, under a vector-clock race detector."
P("T02", title="A failing task ends a parallel loop with its error and no stray work",
  statement="If a task of a parallel loop throws, the call ends by throwing that task's error (one of them when several fail) only after every worker has stopped, no index is executed twice, and workers stop drawing new work once the failure is visible to them. If worker threads cannot be created or memory runs out, the call either completes every index or reports an error, with no thread left running. A later loop is unaffected.",
  over=["schedules", "fault_sequences"], qtext="all interleavings, all sets of failing indices, failure of the k-th thread creation or the k-th allocation",
  why="No test makes a task throw, a thread creation fail or an allocation fail inside the loop.",
  files=["include/delfem2/thread.h"], mech=[("error flag checked per drawn index", "include/delfem2/thread.h parallel_for"), ("future::get rethrows", "include/delfem2/thread.h parallel_for")],
  observe=["exception received by the caller", "per-index counters", "live simulated threads"], search="thread schedules with task, thread-creation and allocation failures")
NOTE["T02"] = "Exceptions, EAGAIN from thread creation and bad_alloc are injected at drawn points while the seeded scheduler interleaves the workers."

P("T03", title="Image ray casting equals an exhaustive search, parallel or not",
  statement="Casting one ray per pixel of an image of any size against a triangle mesh reports for every pixel the first triangle hit along that pixel's ray, exactly as an exhaustive search over all triangles would, and no hit where there is none. The parallel and the serial cast give identical images under every schedule. The output never depends on what the caller's buffer held before, nor on other casts running at the same time.",
  over=["schedules", "inputs", "histories"], qtext="all interleavings, meshes, cameras, image widths and heights, and previous buffer contents",
  why="No test calls the image cast at all; a schedule-dependent or non-square-image error needs particular interleavings and shapes.",
  files=["include/delfem2/srch_trimesh3_class.h", "include/delfem2/srch_bvh.h", "include/delfem2/srch_bv3_sphere.h", "include/delfem2/thread.h"],
  mech=[("one task per pixel, private hit record", "include/delfem2/srch_trimesh3_class.h Intersection_ImageRay_TriMesh3"), ("bounding volume hierarchy pruning", "include/delfem2/srch_bvh.h")],
  observe=["output image"], search="thread schedules, scenes and image shapes")
NOTE["T03"] = "The real cast runs on the seeded scheduler; every pixel is compared with an independent exhaustive ray-triangle search and with the serial cast bit for bit."

P("T04", title="Any number of threads may read one finished structure at the same time",
  statement="Queries put at the same time by several threads, through the const interface, to one finished library structure (spatial trees, grids and neighbour tables over a mesh or points, a CAD sketch, a dynamic mesh, a sparse system, a distance field, a rig) give every thread, under every schedule, exactly the answer the query gives alone. No query changes the structure or any state shared between threads.",
  over=["schedules", "inputs"], qtext="all interleavings of two to four threads putting queries to one of seven kinds of structure",
  why="Tests query from one thread: a cache, a visited mark or a scratch buffer inside the structure only fails when two queries overlap.",
  files=["include/delfem2/srch_kdtree.h", "include/delfem2/srch_bvh.h", "include/delfem2/srchgrid.h", "include/delfem2/srch_trimesh3_class.h", "include/delfem2/cad2.h", "include/delfem2/dtri_topology.h", "include/delfem2/ls_block_sparse.h", "include/delfem2/isrf_adf.h", "include/delfem2/rig_geo3.h"],
  mech=[("queries are const and keep their state on the stack", "include/delfem2/srch_bvh.h"), ("solver work vectors are owned by the caller", "include/delfem2/ls_block_sparse.h")],
  observe=["answers of every query", "digest of the structure before and after", "race detector reports"], search="thread schedules over sets of queries")
NOTE["T04"] = "Real queries run on the seeded scheduler against one structure, under a vector-clock race detector; answers are compared with those given alone. Deformers and rigopt keep work buffers inside the object and are not claimed."
P("T05", title="Operations on separate objects do not disturb each other in parallel",
  statement="Library operations running at the same time in different threads, each on objects of its own, give bit for bit the results they give alone, under every schedule. They share no writable state and no thread waits for another one. This covers mesh construction and topology, spatial search, geometry processing, dynamic meshes, CAD sketches, sparse solvers, deformers, rigid bodies, cloth and formula evaluation.",
  over=["schedules", "inputs"], qtext="all interleavings of two to four threads running catalogue operations on private objects",
  why="Tests are single-threaded: a static scratch buffer, a lazily built table or a shared counter inside a function can only fail when two calls overlap.",
  files=["include/delfem2/msh_topology_uniform.cpp", "include/delfem2/srch_bvh.h", "include/delfem2/ls_block_sparse.cpp", "include/delfem2/dtri_topology.cpp", "include/delfem2/cad2.cpp", "include/delfem2/parse_math_expression.cpp"],
  mech=[("no mutable statics: scratch is local or a member", "include/delfem2/msh_topology_uniform.cpp"), ("constant tables for element faces and edges", "include/delfem2/mshelm.h")],
  observe=["hash of every output", "race detector reports"], search="thread schedules over pairs and triples of operations")
NOTE["T05"] = "Catalogue operations run concurrently on the seeded scheduler with a vector-clock race detector; results are compared with a serial run."
P("M01", title="Running out of memory at any point is reported and costs nothing else",
  statement="If any single memory request made inside a library operation fails, or memory runs out from some point on, the operation either reports std::bad_alloc or still delivers the complete correct result. It never crashes, never returns normally with a wrong or partial result and never leaks what it had allocated. Later operations behave as if the failed one had not been attempted.",
  over=["fault_sequences", "inputs"], qtext="every allocation index of every catalogue operation on drawn inputs; every memory limit",
  why="No test makes an allocation fail; raw new and half-built structures only leak or dangle when the k-th request fails.",
  files=["include/delfem2/srch_kdtree.h", "include/delfem2/msh_topology_uniform.cpp", "include/delfem2/srch_bvh.h", "include/delfem2/ls_ilu_block_sparse.cpp", "include/delfem2/dtri2_v2dtri.cpp", "include/delfem2/cad2.cpp"],
  mech=[("ownership through containers", "include/delfem2/msh_topology_uniform.cpp"), ("tree construction releases its nodes when it fails", "include/delfem2/srch_kdtree.h")],
  observe=["exception type", "result hash", "live blocks before and after"], search="allocation failure points")
NOTE["M01"] = "operator new is the seam: the k-th request of a real operation fails (k drawn), or a limit is set; result, leaks and the following call are checked."
P("H04", title="Results depend on the inputs alone, not on what happened before",
  statement="The result of a library operation is a function of its inputs: it does not depend on what the output arrays or the reused object held before the call, on the contents of fresh heap or stack memory, or on which other operations ran, or failed, earlier in the process. A reused object that is initialised again behaves like a new one.",
  over=["histories", "inputs"], qtext="all earlier contents of outputs and memory, and all sequences of earlier calls, over the operation catalogue",
  why="Tests call each function once with fresh outputs, so stale elements, uninitialised reads and sticky caches stay invisible.",
  files=["include/delfem2/msh_topology_uniform.cpp", "include/delfem2/msh_topology_mix.cpp", "include/delfem2/jagarray.cpp", "include/delfem2/msh_primitive.cpp", "include/delfem2/lp.cpp", "include/delfem2/rig_geo3.cpp", "include/delfem2/parse_math_expression.cpp", "include/delfem2/ls_solver_block_sparse.h"],
  mech=[("outputs are cleared or assigned first", "include/delfem2/msh_topology_uniform.cpp"), ("Initialize resets every member", "include/delfem2/ls_solver_block_sparse.h")],
  observe=["hash of every output"], search="call histories, output contents and memory contents")
NOTE["H04"] = "Each operation is executed with fresh and with reused outputs, with two different memory patterns, and within drawn histories of other calls and failures; the results must be identical."

P("F01", title="Mesh readers survive any file and never invent data",
  statement="Reading an OBJ, PLY, VTK, Nastran, TetGen or raw triangle mesh that is missing, cut off, damaged, or fails with a read error terminates, never touches foreign memory, never leaks memory or file handles, and returns or throws a std::exception; what it returns depends only on the bytes delivered, not on earlier contents of the outputs or of memory. Formats with element counts give the complete mesh or an empty one; line formats give exactly what their complete lines describe, of any line length and with either line ending. An intact file can always be read, also afterwards.",
  over=["fault_sequences", "inputs"], qtext="all cut and damage positions, read errors at every byte, and previous contents of outputs, over generated files of eleven readers",
  why="The tests read a few good files; a cut, a long line or a read error has to fall on a particular byte to expose a partial or uninitialised mesh.",
  files=["include/delfem2/msh_io_obj.cpp", "include/delfem2/msh_io_ply.cpp", "include/delfem2/msh_io_misc.cpp"],
  mech=[("lines are read into strings and checked", "include/delfem2/msh_io_obj.cpp"), ("counts checked against the stream", "include/delfem2/msh_io_ply.cpp")],
  observe=["returned arrays", "live blocks and open handles", "AddressSanitizer"], search="truncations, byte damage, read errors and missing files")
NOTE["F01"] = "The real readers run on a simulated disk that cuts, damages or fails at drawn bytes; an independent generator knows what every prefix of the file means."
P("F02", title="Data, image, text and motion readers report short files",
  statement="Reading a NumPy array, a PPM image, a parameter or text file, a material, motion (BVH) or camera file that is missing, cut off, damaged, or fails with a read error terminates, never touches foreign memory and never leaks. Readers with a status report failure for a missing file and for one that ends before its declared contents do, and success with exactly the file's contents otherwise; readers without one return nothing or what the complete lines describe. What is returned depends only on the bytes delivered.",
  over=["fault_sequences", "inputs"], qtext="all cut and damage positions and read errors at every byte, over generated files of eleven readers",
  why="No test reads a short or damaged file; false success needs the file to end at a particular byte.",
  files=["include/delfem2/filenpy_str.cpp", "include/delfem2/img_ioppm.cpp", "include/delfem2/file.cpp", "include/delfem2/rig_bvh.cpp", "include/delfem2/cvcamera.h", "include/delfem2/msh_io_obj.cpp"],
  mech=[("declared size compared with bytes read", "include/delfem2/filenpy_str.cpp"), ("broken motion file clears every member", "include/delfem2/rig_bvh.cpp")],
  observe=["status", "returned arrays", "live blocks and open handles"], search="truncations, byte damage, read errors and missing files")
NOTE["F02"] = "The real readers run on a simulated disk that cuts, damages or fails at drawn bytes."
P("F03", title="How the disk delivers a file does not change what is read",
  statement="Every mesh and data reader returns the complete and same contents of an intact file however the operating system delivers it: in pieces of any size, with reads interrupted by signals, and with line endings of either kind.",
  over=["schedules", "inputs"], qtext="all ways of splitting the reads and all interrupted calls, over generated files of 22 readers",
  why="Real disks answer test reads in one piece; short reads need a pipe, a network disk or a signal at the right moment.",
  files=["include/delfem2/msh_io_obj.cpp", "include/delfem2/msh_io_ply.cpp", "include/delfem2/msh_io_misc.cpp", "include/delfem2/filenpy_str.cpp", "include/delfem2/img_ioppm.cpp", "include/delfem2/file.cpp", "include/delfem2/rig_bvh.cpp"],
  mech=[("buffered streams", "include/delfem2/msh_io_ply.cpp"), ("exact reads of binary blocks", "include/delfem2/filenpy_str.cpp")],
  observe=["returned arrays and status"], search="read splittings and interruptions")
NOTE["F03"] = "The simulated disk delivers files in drawn pieces with EINTR in between; results are compared with what the generator wrote."
P("F04", title="A writer that reports success has stored every byte",
  statement="Writing parameters (WriteParam, in either precision) or a CAD sketch (WriteCAD_DXF) returns success exactly when the complete file is on the disk: if opening, writing or closing fails at any byte, or the disk is full, it returns failure. Writing again once the fault is gone stores the same complete file, whatever the file held before. No file stays open.",
  over=["fault_sequences", "inputs"], qtext="all positions of disk-full and write errors, open and close failures, over generated data",
  why="Tests write to a healthy disk and most discard the status.",
  files=["include/delfem2/file.h", "include/delfem2/cad2_io_dxf.cpp"], mech=[("stream state after close is the status", "include/delfem2/file.h WriteParam"), ("ferror and fclose decide the status", "include/delfem2/cad2_io_dxf.cpp")],
  observe=["returned status", "contents of the simulated disk"], search="disk-full, write, open and close failures")
NOTE["F04"] = "The real writers run on a simulated disk that fails at a drawn byte; the status is compared with what the disk holds."
P("F05", title="Saved files load back, and a power cut never yields a wrong mesh",
  statement="What the mesh, VTK, motion, parameter, DXF and 3D CAD writers save loads back equal up to the printed precision, also when the file replaced a longer one and when the disk works in pieces. If power is lost while saving, loading the remains gives the complete data, a part made only of entries that were saved (line formats), nothing, or an error, but never other data; saving again then works.",
  over=["crash_points", "inputs"], qtext="all crash positions and generated data over 14 writer and reader pairs",
  why="Tests have few round trips and no crash.",
  files=["include/delfem2/msh_io_obj.cpp", "include/delfem2/msh_io_ply.cpp", "include/delfem2/msh_io_misc.cpp", "include/delfem2/rig_bvh.cpp", "include/delfem2/cad3d.cpp", "include/delfem2/file.h"],
  mech=[("counts written before the data", "include/delfem2/msh_io_ply.cpp Write_Ply"), ("readers reject incomplete data", "include/delfem2/cad3d.cpp ReadFile")],
  observe=["loaded arrays"], search="crash points and data")
NOTE["F05"] = "The real writers run on a simulated disk that loses power after a drawn byte; the remains are read by the real readers and compared with what was saved."

P("H01", title="Every history of mesh edits keeps the dynamic triangle mesh exact",
  statement="After any sequence of point insertions, edge flips, edge collapses, deletions by flag and restarts from the exported triangles, the dynamic mesh holds exactly the triangles those edits define, neighbours name each other across the right edge, and every used point is linked to a triangle that contains it. A refused edit, or one that fails for lack of memory, changes nothing. Looking up edges, holes, or the triangles and points around an interior point finds exactly what is there.",
  over=["histories", "fault_sequences"], qtext="all histories of edits, restarts and allocation failures on open and closed manifold meshes",
  why="Tests do a few fixed edits; wrong links show only after later edits.",
  files=["include/delfem2/dtri_topology.cpp", "include/delfem2/dtri_topology.h", "include/delfem2/dtri3_v3dtri.h", "include/delfem2/dtri2_v2dtri.cpp"],
  mech=[("neighbour and point links rewritten by every edit", "include/delfem2/dtri_topology.cpp"), ("renumbering on deletion", "include/delfem2/dtri2_v2dtri.cpp DeletePointsFlag")],
  observe=["triangles", "neighbours", "point links", "query answers", "live blocks"], search="histories of edits with restarts and failing allocations")
NOTE["H01"] = "Model-based simulation: after every edit the real mesh is compared with a set of oriented triangles kept by the simulator, with restarts and failing allocations in between."
P("H02", title="2D and 3D Delaunay meshing stays valid after every step",
  statement="Adding points one at a time keeps a 2D or 3D Delaunay mesh free of inverted elements, covering exactly its region, with every point in use and no point inside the circle or sphere of a neighbouring element; an insertion that runs out of memory changes nothing and can be repeated. A polygon with holes is meshed with positively oriented triangles covering exactly its inside, its corners kept and boundary edges no longer than asked for, and inserting, refining and collapsing afterwards keep that region and boundary. Refinement plans exactly the edges longer than asked for and puts the midpoint of every inner one into the mesh.",
  over=["histories", "fault_sequences", "inputs"], qtext="all sequences of insertions, refinements, collapses, restarts and allocation failures on drawn points and polygons",
  why="Tests mesh a few fixed outlines; degenerate positions and long histories are not met.",
  files=["include/delfem2/dtri2_v2dtri.cpp", "include/delfem2/geo_polygon2.cpp", "include/delfem2/dtet_v3.cpp"],
  mech=[("search for the triangle that contains the point", "include/delfem2/dtri2_v2dtri.cpp AddPointsMesh"), ("flips around the new point", "include/delfem2/dtri2_v2dtri.cpp DelaunayAroundPoint"), ("edge enforcement", "include/delfem2/dtri2_v2dtri.cpp EnforceEdge"), ("cavity retriangulation", "include/delfem2/dtet_v3.cpp AddPointTetDelaunay")],
  observe=["triangles and tetrahedra", "areas and volumes", "neighbours", "boundary"], search="histories of insertions and refinements over drawn geometry")
NOTE["H02"] = "Model-based simulation of meshing sessions, with restarts and failing allocations, checked after every step against area, boundary, adjacency and empty-circle conditions."
P("H03", title="A CAD sketch stays whole through any editing session",
  statement="After any sequence of adding polygons, curved faces and vertices, moving and dragging vertices, edges, handles and faces, changing the kind of an edge, clearing and copying, a 2D CAD sketch has exactly the faces, loops, edges, curves and vertex positions the edits give: loops are closed, edges start and end at their vertices, and lookups, picking, length, area, inversion and sampling answer for the present sketch. Meshing a sketch with simple outlines gives each face a valid triangulation of exactly its sampled outline, at the asked edge length or division, with every mesh point and triangle assigned to its vertex, edge or face. The mesh depends on the sketch and the meshing parameters alone, also after a failed allocation or earlier meshing.",
  over=["histories", "fault_sequences", "inputs"], qtext="all editing sessions with picking, dragging, meshing, restarts and failing allocations on drawn sketches",
  why="Tests build one sketch and mesh it once; wrong indices, stale tables and lost curve parameters show in later edits, with several faces, or with isolated vertices.",
  files=["include/delfem2/cad2.h", "include/delfem2/cad2.cpp", "include/delfem2/cadtopo.h", "include/delfem2/cad2_mesher.cpp", "include/delfem2/geo_curve_cubic.h", "include/delfem2/geo_curve_quadratic.h"],
  mech=[("a new edge is inserted behind the split one in every loop", "include/delfem2/cadtopo.h AddVtx_Edge"), ("edge ends copied from the vertices after each edit", "include/delfem2/cad2.h CopyVertexPositionsToEdges"), ("mesh points and triangles flagged by CAD part", "include/delfem2/cad2_mesher.cpp")],
  observe=["topology and geometry of the sketch", "answers of lookups, picks and curve functions", "mesh, flags and point lists"], search="sequences of edits, drags, meshings, restarts and failures")
NOTE["H03"] = "Editing sessions on the real sketch, picker and mesher; after every step topology, curves, lookups and meshes are compared with a reference model."
P("H05", title="Search structures answer for the geometry as it is now",
  statement="However often a mesh or point set moves, and whatever refits, rebuilds and failed allocations happened before, bounding volume hierarchies, point trees and search grids answer nearest-point, signed-distance, line, ray, point, range, neighbour, self-contact, collision and intersection queries exactly as an exhaustive pass over the present geometry does. Refitted volumes depend on the present geometry alone.",
  over=["histories", "fault_sequences", "inputs"], qtext="all sequences of motions, refits, rebuilds, restarts and allocation failures on drawn geometry",
  why="Tests build a tree once and query it; stale volumes and wrongly pruned branches show after motion and on particular shapes.",
  files=["include/delfem2/srch_bvh.h", "include/delfem2/srch_bvh.cpp", "include/delfem2/srch_bv3_sphere.h", "include/delfem2/srch_bv3_aabb.h", "include/delfem2/srch_trimesh3_class.h", "include/delfem2/srch_selfintersection_bvh.h", "include/delfem2/srchgrid.h"],
  mech=[("volumes recomputed from the leaves up", "include/delfem2/srch_bvh.h BVH_BuildBVHGeometry"), ("branches pruned by their volume", "include/delfem2/srch_bvh.h"), ("cells sorted and bracketed", "include/delfem2/srchgrid.h")],
  observe=["query answers", "volumes"], search="sequences of motions, refits and failures over drawn geometry")
NOTE["H05"] = "Moving-geometry sessions: after every motion, refit, rebuild or failed allocation the real structure's answers are compared with an exhaustive pass."
P("S01", title="Fluid steps stay in range and keep walls for any time step",
  statement="For any grid, velocity field and sequence of time steps, however large or uneven, semi-Lagrangian advection gives every component the value at its traced-back position and so never leaves the range it had before. The pressure projection never adds kinetic energy, never moves the walls, and makes the flow divergence-free when the iteration has converged; divergence and pressure gradient are exact on linear fields. A step depends on the current fields alone: repeating it from a saved state gives bit-identical fields.",
  over=["schedules", "histories", "inputs"], qtext="all sequences of time steps, iteration counts and restarts on drawn grids and fields",
  why="No test runs a fluid step; instability needs a large time step near the border of the grid.",
  files=["include/delfem2/fdm_stablefluids.h", "include/delfem2/fdm_array2.h"], mech=[("backtraced position clamped to the grid", "include/delfem2/fdm_array2.h LinearInterpolationOnGrid2"), ("Gauss-Seidel pressure iteration", "include/delfem2/fdm_stablefluids.h")],
  observe=["velocity and pressure fields"], search="clock jumps, restarts and iteration counts")
NOTE["S01"] = "Real fluid steps run under a simulated clock that jumps between 1e-6 and 1e3, with restarts and poisoned work buffers; range, energy and wall invariants are checked after every step."
P("S02", title="Position-based steps keep pinned points and the centre of mass",
  statement="In a position-based session with any time steps, pinned points never move, and prediction and commit follow the given velocities and positions exactly. Strain, bending, seam, shape and general three-constraint projections never move the centre of mass of the points they act on, touch no other point, and leave shapes alone that already satisfy them; a fully stiff shape projection leaves an exact rotated copy, a bending projection removes just its share of a lone hinge's bending, and within a bounded number of steps strain projections return a lone triangle to rest and seams close. The kinetic damper stops the motion exactly when the kinetic energy passes a peak, and running out of memory in a projection or the damper changes nothing it should not.",
  over=["schedules", "histories", "fault_sequences", "inputs"], qtext="all sequences of time steps, projections and allocation failures on drawn cloths and shapes",
  why="No test runs these projections; conservation has to hold for every shape and step.",
  files=["include/delfem2/pbd_geo3.cpp", "include/delfem2/pbd_stvk.h", "include/delfem2/pbd_bending_for_dtri.cpp", "include/delfem2/kinetic_damping.h", "include/delfem2/mat2.cpp"], mech=[("constraint gradients sum to zero", "include/delfem2/pbd_geo3.cpp PBD_Update_Const3"), ("polar decomposition of the cluster", "include/delfem2/pbd_geo3.cpp PBD_ConstProj_Rigid3D")],
  observe=["positions and velocities"], search="clock jumps, projection orders and failing allocations")
NOTE["S02"] = "Real projections run in drawn sessions under a jumping clock with failing allocations; conservation, rigidity and a reference model of prediction, commit and damping are checked at every step."
P("S03", title="2D rigid bodies keep momentum, fixed bodies and free flight",
  statement="In a time step of any size from a few microseconds up, on any set of polygonal bodies, fixed bodies never move, bodies that touch nothing fly freely and exactly, and without fixed bodies the total linear momentum changes by gravity alone and no contact correction adds angular momentum. Contacts never pull, a single contact is corrected by the mass-weighted rule, its friction stops the slip or is as strong as the push, and no body sinks. A step depends only on the bodies' state: repeated from a saved state it gives bit-identical bodies, also after a step that ran out of memory.",
  over=["schedules", "histories", "fault_sequences", "inputs"], qtext="all sequences of time steps, gravities, restarts and allocation failures on drawn bodies",
  why="No test steps more than one fixed scene; order-dependent contact errors need particular configurations.",
  files=["include/delfem2/rgd_v2m3.cpp", "include/delfem2/rgd_v2m3.h"], mech=[("equal and opposite contact corrections", "include/delfem2/rgd_v2m3.cpp ResolveContact"), ("friction impulses", "include/delfem2/rgd_v2m3.cpp AddFriction")],
  observe=["positions, angles and velocities"], search="clock jumps, restarts and failing allocations over drawn scenes")
NOTE["S03"] = "Real steps run in drawn sessions under a jumping clock with restarts and failing allocations; momentum, fixed bodies and free flight are checked after every step."
P("S04", title="Implicit steps solve their equation, hold fixed values, restart exactly",
  statement="For every body, set of supports and sequence of time steps, each implicit step of heat flow (backward Euler to trapezoidal), linear solids (Newmark, backward Euler, stiffness warping), static problems with or without tied unknowns, and cloth solves the finite-element equation it stands for to the accuracy asked for, updates exactly by its formula, and never moves a fixed value. Insulated heat and free momentum change by sources and loads alone, energy is kept by average acceleration and never grows under backward Euler, rest shapes rotated as a whole stay at rest, and a body held at one temperature reaches it. A step depends only on the saved state: repeated with fresh or reused matrices, or after memory ran out, it gives the same result.",
  over=["schedules", "histories", "fault_sequences", "inputs"], qtext="all bodies, supports, time-step sequences, solvers, restarts and allocation failures drawn by the simulation",
  why="Tests solve single systems and differentiate single elements; no test takes two implicit steps, changes supports or time step on the way, or compares a step with its equation.",
  files=["include/delfem2/fem_poisson.cpp", "include/delfem2/fem_solidlinear.cpp", "include/delfem2/femcloth.h", "include/delfem2/fem_stvk.cpp", "include/delfem2/fem_quadratic_bending.cpp", "include/delfem2/cloth_internal.h", "include/delfem2/ls_masterslave.cpp", "include/delfem2/ls_block_sparse.cpp", "include/delfem2/ls_ilu_block_sparse.cpp", "include/delfem2/lsitrsol.h", "include/delfem2/vecxitrsol.h"], mech=[("element matrices and residuals of one step", "include/delfem2/fem_solidlinear.cpp EMat_*, include/delfem2/fem_poisson.cpp EMat_*"), ("assembly and boundary conditions", "include/delfem2/ls_block_sparse.cpp SetFixedBC, Merge"), ("tied unknowns", "include/delfem2/ls_masterslave.cpp SetMasterSlave"), ("cloth steps", "include/delfem2/cloth_internal.h StepTime_InternalDynamics*")],
  observe=["solutions, positions and velocities after every step"], search="clock jumps, changing supports, solver choices, restarts and failing allocations over drawn bodies")
NOTE["S04"] = "Real assembly, boundary conditions and solvers run in drawn sessions under a jumping clock with restarts and failing allocations; every step is compared with a dense textbook equation, the update formulas and the conservation laws."
P("S05", title="Cloth contact response keeps momentum and leaves no contact",
  statement="Resolving the contacts of moving triangle sheets never changes their total linear or angular momentum, whatever the time step, clearance, stiffness and velocities, and even if memory runs out on the way. When the response reports that all collisions are resolved, an exhaustive pass with the same element tests finds none, and for sheets that start apart it always gets there within its iteration limit. The result depends neither on the search tree used nor on what the volume buffer held before.",
  over=["schedules", "histories", "fault_sequences", "inputs"], qtext="all sheets, velocities, time steps and allocation failures drawn by the simulation",
  why="No test runs the contact response; pruning, inertia and time-step errors show only in particular collisions.",
  files=["include/delfem2/cloth_selfcollision.cpp", "include/delfem2/srch_selfintersection_bvh.h", "include/delfem2/srch_bvh.h"], mech=[("equal and opposite impulses at the contact points", "include/delfem2/cloth_selfcollision.cpp SelfCollisionImpulse_Proximity"), ("rigid impact zones", "include/delfem2/cloth_selfcollision.cpp ApplyRigidImpactZone")],
  observe=["velocities", "remaining contacts"], search="collisions, clock jumps and failing allocations")
NOTE["S05"] = "The real contact response runs on drawn collisions with failing allocations and rebuilt trees; momentum and an exhaustive contact pass decide."
P("S07", title="Flow and wave steps solve their equation and leave known flows alone",
  statement="For every domain, numbering, set of walls and sequence of time steps, each step of the Stokes and Navier-Stokes solvers in the plane and in space, and each Helmholtz solve with or without an open side, assembles and solves the finite-element equation it stands for (viscosity, inertia, advection, pressure, incompressibility, gravity and residual-based stabilisation) to the accuracy asked for, and never moves a fixed value. Flows known in closed form - linear Stokes flow, wind, shear, uniform acceleration - satisfy the assembled equations as they are, a closed box never gains energy from nothing, and the stabilisation is positive and depends on neither the frame nor the numbering. A step depends only on the saved state: repeated with a fresh matrix and factorisation, or after a reported failed allocation, it gives the same result, bit by bit.",
  over=["schedules", "histories", "fault_sequences", "inputs"], qtext="all domains, walls, time-step sequences, solvers, restarts and allocation failures drawn by the simulation",
  why="The tests call no flow solver at all and the examples only draw their results; a wrong term, sign or weight in one element matrix still looks like flow.",
  files=["include/delfem2/fem_stokes.cpp", "include/delfem2/fem_stokes.h", "include/delfem2/fem_navierstokes.cpp", "include/delfem2/fem_navierstokes.h", "include/delfem2/fem_helmholtz.cpp", "include/delfem2/fem_helmholtz.h", "include/delfem2/femutil.cpp", "include/delfem2/vecxitrsol.h"], mech=[("element matrices and residuals of one step", "include/delfem2/fem_navierstokes.cpp MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1, include/delfem2/fem_stokes.cpp MakeMat_Stokes3D_Dynamic_P1"), ("assembly", "include/delfem2/fem_stokes.h MergeLinSys_*"), ("complex conjugate gradients", "include/delfem2/vecxitrsol.h Solve_PCOCG")],
  observe=["assembled systems, velocities, pressures and their rates after every step"], search="clock jumps, moving and changing walls, solver choices, restarts and failing allocations over drawn domains")
NOTE["S07"] = "Real assembly, boundary conditions and solvers run in drawn sessions under a jumping clock with restarts and failing allocations; every assembled step is compared with a dense textbook equation, and flows known in closed form are put in."
P("V01", title="Viewers keep the scene under the user's control for any event history",
  statement="For any order, duplication, loss or delay of window, mouse, keyboard and scroll events, including zero-sized windows and several viewers at once, a viewer's transform stays finite and its rotation rigid, panning keeps the scene point under the cursor, trackball dragging turns the view by the dragged amount, and zooming multiplies the scale. Rays handed to press and drag callbacks pass through the cursor under the very matrices that are drawn, callbacks fire exactly when a button is held and no view navigation is in progress, camera-change callbacks fire whenever an event changes the view, and dragging a handle of a rig changes only that handle's rotation or translation and by the dragged amount. What happens to one window never affects another, and drawing frames at any moment changes neither the view nor the edited pose.",
  over=["schedules", "histories", "inputs"], qtext="all event histories of up to three windows and all interleavings with frames, drawn by the simulation",
  why="No test opens a window; lost releases, minimised windows, a second viewer and frames skipped between events need a window system that can be scripted.",
  files=["include/delfem2/glfw/viewer3.cpp", "include/delfem2/glfw/viewer2.cpp", "include/delfem2/glfw/mouseinput.h", "include/delfem2/glfw/ViewRig.h", "include/delfem2/gizmo_geo3.cpp", "include/delfem2/cam_modelview.h", "include/delfem2/cam_projection.h", "include/delfem2/mat4.cpp"], mech=[("event callbacks of the viewers", "include/delfem2/glfw/viewer3.cpp callback_cursor_position"), ("model view and projection matrices", "include/delfem2/cam_projection.h Projection_LookOriginFromZplus"), ("rig gizmo", "include/delfem2/glfw/ViewRig.h CGizmo_Rig")],
  observe=["view matrices", "callback arguments", "bone poses"], search="event order, loss, duplication and delay, minimised windows, frames at any moment")
NOTE["V01"] = "The real viewers and rig editor run on a simulated window system and graphics driver; every delivered event is judged against the view before and after and against what the callbacks were told."
P("R01", title="Randomised operations stay valid for every source of randomness",
  statement="Whatever the entropy source and the random engines return, zeros, largest values, repeats and refusals included, every randomised operation stays inside its support: surface samples lie on selected triangles of positive area in proportion to area, draws are finite and in range, shuffles are permutations, noise is bounded, continuous and periodic, clusters are complete and none is empty while elements remain, and cross fields stay unit and tangent while a smoothing sweep really smooths them. Draws come from the entropy source, so what is made under other entropy differs, and the seeded 48-bit stream follows its defining recurrence exactly. A source that is unavailable is reported as an exception and leaves a field being smoothed as it was.",
  over=["inputs", "histories"], qtext="all values a source of randomness may return, rare and extreme ones included, drawn by the simulation",
  why="A test sees the handful of draws its seed happens to give; a zero draw, a draw exactly on a boundary, or a source that fails never comes up.",
  files=["include/delfem2/sampling.h", "include/delfem2/sampler_trimesh.h", "include/delfem2/dijkstra.h", "include/delfem2/4rotsym.h", "include/delfem2/noise.h", "include/delfem2/vec2.cpp", "include/delfem2/msh_affine_transformation.cpp"], mech=[("area-weighted search", "include/delfem2/sampler_trimesh.h Sample"), ("normal draws", "include/delfem2/sampling.h RandGaussVec3"), ("farthest-point clustering", "include/delfem2/dijkstra.h MeshClustering")],
  observe=["samples", "draws", "cluster flags", "cross fields"], search="states of the entropy source and outputs of the random engines, zero, largest, repeated and refused")
NOTE["R01"] = "std::random_device and rand() are answered by the simulator and engines are given chosen next outputs; results are judged against independent references (area shares, the 48-bit recurrence, farthest-point kernels, permutation and tangency)."
P("S06", title="Rods, hair and dragged polylines step by their energy and stay rods",
  statement="For any hair, supports, contacts and sequence of time steps, every step solves the linear system of the elastic energy it stands for, moves exactly the unfixed coordinates by that solution, and leaves each director of unit length, perpendicular to its edge and carried along with it. Rest shapes moved as a whole stay at rest, disturbed hairs come back to the shape their roots give them, a dragged point is exactly at the pointer, and a polyline under a resting pointer comes to rest at its own edge length. A step depends only on the saved state: it is the same with a fresh or a used solver and after polylines were exchanged, and one that runs out of memory reports it and changes nothing.",
  over=["schedules", "histories", "fault_sequences", "inputs"], qtext="all rods, supports, drags, contacts, time-step sequences, restarts and allocation failures drawn by the simulation",
  why="Tests compare derivatives of single elements with finite differences; no test assembles a hair, takes a step, touches a support or drags twice.",
  files=["include/delfem2/hair_darboux_solver.h", "include/delfem2/hair_darboux_util.cpp", "include/delfem2/hair_darboux_util.h", "include/delfem2/hair_darboux_collision.cpp", "include/delfem2/fem_rod3_darboux.cpp", "include/delfem2/fem_distance3.cpp", "include/delfem2/fem_rod2.cpp", "include/delfem2/fem_beam2.h", "include/delfem2/polyline_elastic_rod2.h", "include/delfem2/polyline_elastic_beam2.h", "include/delfem2/ls_pentadiagonal.h", "include/delfem2/ls_tridiagonal.h", "include/delfem2/ls_solver_block_sparse.h"], mech=[("assembly and solution of a hair step", "include/delfem2/hair_darboux_solver.h Solve_RodHair"), ("transport of directors", "include/delfem2/hair_darboux_util.cpp UpdateSolutionHair"), ("contacts as penalty springs", "include/delfem2/hair_darboux_collision.cpp Solve_RodHairContact"), ("dragged polylines", "include/delfem2/polyline_elastic_rod2.h DragPolylineElastic_Rod2, include/delfem2/polyline_elastic_beam2.h PolylineElasticEdit2")],
  observe=["points and directors after every step", "assembled energy, forces and stiffness"], search="clock jumps, dragged roots and points, changing supports, contacts at supports, solver choices, restarts and failing allocations over drawn rods")
NOTE["S06"] = "Real assembly, solvers and updates run in drawn sessions under a jumping clock with drags, contacts, restarts and failing allocations; every step is compared with an own derivation of the same energy by automatic differentiation."

P("H06", title="A posed skeleton depends on its pose alone, whatever the history of edits",
  statement="After any sequence of seeks, edits, bakes, drags and re-initialisations, every bone is where the chain of its own and its ancestors' scalings, rotations and shifts puts it, every form of skinning puts each point at the weighted mean of its bones, and seeking a frame shows the same pose on every visit. Baking a pose moves neither joints nor skin, a new skeleton starts at rest, each step of the inverse kinematics solves its least-squares problem and repeated steps bring the dragged joint to its target. A dragged handle moves along or turns about the axis that was picked and nothing else, and an operation that runs out of memory reports it and leaves the pose as it was.",
  over=["histories", "fault_sequences", "inputs"], qtext="all skeletons, motions, skins, edit and seek histories, drags, restarts and allocation failures drawn by the simulation",
  why="Tests read sample files and apply one pose; none seeks backwards, edits, bakes, re-uses a skeleton, drags a bone or compares skinning forms.",
  files=["include/delfem2/rig_geo3.cpp", "include/delfem2/rig_geo3.h", "include/delfem2/rig_bvh.cpp", "include/delfem2/rig_bvh.h", "include/delfem2/rigopt.h", "include/delfem2/gizmo_geo3.cpp", "include/delfem2/gizmo_geo3.h"], mech=[("forward kinematics", "include/delfem2/rig_geo3.cpp UpdateBoneRotTrans, SetCurrentBoneRotationAsDefault, InitBones_JointPosition"), ("playing a motion", "include/delfem2/rig_bvh.cpp SetPose_BioVisionHierarchy, include/delfem2/rig_bvh.h BioVisionHierarchy"), ("skinning", "include/delfem2/rig_geo3.cpp Skinning_LBS, SkinningSparse_LBS, Skinning_LBS_LocalWeight"), ("inverse kinematics", "include/delfem2/rigopt.h Solve_MinRigging"), ("handles", "include/delfem2/gizmo_geo3.cpp CGizmo_Rotation, CGizmo_Transl")],
  observe=["local and global transforms of every bone", "skinned positions", "handle positions"], search="seeks in any order, edits left pending, bakes, skeletons replaced in place, drags, restarts and failing allocations")
NOTE["H06"] = "Real skeletons, motions, skins, handles and the inverse-kinematics solver run drawn edit histories with failing allocations and restarts; after each operation everything is compared with an own forward kinematics."

# ---- stated, and outside this family
P("N01", title="Sparse solvers solve the assembled linear system",
  statement="The direct, preconditioned and Krylov solvers return a vector whose residual against the assembled system is within the requested tolerance whenever they report convergence.",
  over=["inputs"], qtext="all well-conditioned systems", why="Tests use a handful of fixed systems.",
  files=["include/delfem2/lsitrsol.h", "include/delfem2/ls_block_sparse.h", "include/delfem2/ls_ilu_block_sparse.h"], mech=[("CG/PCG/BiCGStab loops", "include/delfem2/lsitrsol.h")], observe=["returned vector, residual history"], search="")
NA["N01"] = "Sequential pure numeric function of its arguments: no schedule, time, I/O, randomness or fault for a simulator to control; sampling inputs alone would be property-based testing, another technique."
P("N02", title="Geometric predicates and distances are exact up to rounding",
  statement="Nearest-point, intersection, area, volume and solid-angle functions agree with their mathematical definition up to rounding for every input.",
  over=["inputs"], qtext="all finite inputs", why="Tests sample a few random inputs.",
  files=["include/delfem2/geo_plane.cpp", "include/delfem2/geo_tri.cpp"], mech=[("closed-form formulas", "include/delfem2/geo_tri.cpp")], observe=["return values"], search="")
NA["N02"] = "Pure stateless functions; nothing nondeterministic to schedule and no fault to inject."
P("N03", title="Elastic energies, gradients and Hessians are mutually consistent",
  statement="For every element type the returned residual is the gradient, and the returned stiffness the Hessian, of the returned energy.",
  over=["inputs"], qtext="all admissible element states", why="Tests use finite differences at a few random states.",
  files=["include/delfem2/femcloth.cpp", "include/delfem2/fem_rod3_straight.cpp", "include/delfem2/fem_mitc3.cpp"], mech=[("hand-derived derivatives", "include/delfem2/femcloth.cpp")], observe=["energy, residual, stiffness"], search="")
NA["N03"] = "Pure stateless functions of one element; no environment for a simulation to vary."
P("N04", title="Formula evaluation and root finding follow arithmetic rules",
  statement="The expression evaluator follows the usual precedence rules and the polynomial solvers enclose every real root in the interval exactly once.",
  over=["inputs"], qtext="all expressions and polynomials", why="Tests use a few formulas.",
  files=["include/delfem2/parse_math_expression.h", "include/delfem2/polynomial_root.h"], mech=[("recursive parser, Sturm sequence", "include/delfem2/parse_math_expression.h")], observe=["values"], search="")
NA["N04"] = "Pure functions of a string or coefficients; no schedule, clock, I/O or fault involved."
P("N05", title="Isosurface and convex hull extraction yield closed correct surfaces",
  statement="The isosurface mesher and the convex hull produce closed, consistently oriented surfaces that enclose the given field or points.",
  over=["inputs"], qtext="all fields and point sets in general position", why="Tests sample few inputs.",
  files=["include/delfem2/isrf_iss.cpp", "include/delfem2/geo_convhull3.h"], mech=[("case tables", "include/delfem2/isrf_iss.cpp")], observe=["output mesh"], search="")
NA["N05"] = "One-shot pure function of the input geometry: a single call with no history, schedule or environment."
