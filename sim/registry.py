"""What each check builds and runs."""
COMMON = ["-std=c++17", "-g1", "-w", "-no-pie", "-include", "cstdint", "-include", "cmath"]
MODES = {
  # seeded scheduler behind gcc's thread instrumentation (libtsan is not linked)
  "thread": dict(core=["sim.cpp", "seam_thread.cpp"], coreflags=["-std=c++17", "-O2", "-g1", "-w", "-no-pie", "-fno-threadsafe-statics"],
                 flags=COMMON + ["-O1", "-fsanitize=thread", "-include", "atomic", "-include", "random"], ldflags=["-no-pie", "-Wl,--wrap=__cxa_allocate_exception"], libs=["-ldl", "-lpthread"]),
  # disk / allocator / entropy seams under AddressSanitizer, deterministic step counter
  "asan": dict(core=["sim.cpp", "seam_alloc.cpp", "seam_entropy.cpp", "seam_disk.cpp"], coreflags=["-std=c++17", "-O2", "-g1", "-w", "-no-pie"],
               flags=COMMON + ["-O1", "-fsanitize=address", "-fsanitize-coverage=trace-pc", "-D_GLIBCXX_ASSERTIONS", "-include", "simseam.h"],
               ldflags=["-no-pie", "-fsanitize=address"], libs=["-ldl", "-lpthread"]),
}
CAT = ["cat_main.cpp", "cat_mesh.cpp", "cat_mesh2.cpp", "cat_geo.cpp", "cat_geo2.cpp", "cat_search.cpp", "cat_sim.cpp", "cat_dyn.cpp", "cat_fem.cpp", "cat_small.cpp", "cat_more.cpp"]
CATX = CAT + ["cat_reuse.cpp"]
HARNESS = {
  "parfor": dict(mode="thread", src=["parfor.cpp"]),
  "catthread": dict(mode="thread", src=["cat_thread.cpp"] + CATX, lflags=["-Wl,--allow-multiple-definition"]),
  "catfault": dict(mode="asan", src=["cat_fault.cpp"] + CATX, lflags=["-Wl,--allow-multiple-definition"]),
  "shared": dict(mode="thread", src=["shared.cpp"]),
  "hist": dict(mode="asan", src=["hist.cpp"]),
  "move": dict(mode="asan", src=["move.cpp"]),
  "cad": dict(mode="asan", src=["cad.cpp"]),
  "fem": dict(mode="asan", src=["fem.cpp"]),
  "flow": dict(mode="asan", src=["flow.cpp"]),
  "dyn": dict(mode="asan", src=["dyn.cpp"]),
  "view": dict(mode="asan", src=["view.cpp"], libs=["-Wl,--as-needed", "-lglfw", "-lGLU", "-lGL"]),
  "rnd": dict(mode="asan", src=["rnd.cpp"]),
  "rod": dict(mode="asan", src=["rod.cpp"]),
  "pose": dict(mode="asan", src=["pose.cpp"]),
  "imgray": dict(mode="thread", src=["imgray.cpp"]),
  "diskio": dict(mode="asan", src=["diskio.cpp"], lflags=["-Wl,--allow-multiple-definition"]),
}
SCHED_REAL = "the library code named by the anchors, libstdc++ async/future/thread/mutex, real pthreads"
SCHED_STUB = "the choice of which thread runs, futex/mutex/condition waits, thread creation outcome, hardware_concurrency, clocks"
SEQ = "sequentially consistent memory: weak-memory reorderings are covered only through the vector-clock race detector"
PROPS = {}
def prop(id, **k): PROPS[id] = k
prop("T01", harness="parfor", level="exploration", quick=dict(runs=12000, time=22),
     rule="one run = one seeded schedule (preemption at every instrumented memory access / atomic / lock) of one loop workload drawn by the seed; non-trivial: at least two worker threads were created and more than one index existed; distinct by event-log hash, which includes the interleaving",
     measure="hash of the sequence of (thread, synchronisation operation, context switch)", real=[SCHED_REAL], stub=[SCHED_STUB], assumptions=[SEQ])
prop("T02", harness="parfor", level="exploration", quick=dict(runs=12000, time=22),
     rule="one run = one seeded schedule of a loop in which a task throws, a thread cannot be created or an allocation fails at a drawn point; non-trivial: the drawn fault fired; distinct by event-log hash including the interleaving",
     measure="hash of the sequence of (thread, synchronisation operation, context switch)", real=[SCHED_REAL], stub=[SCHED_STUB], assumptions=[SEQ])

SCHED_MEASURE = "hash of the sequence of (thread, synchronisation operation, context switch)"
prop("T03", harness="imgray", level="exploration", quick=dict(runs=8000, time=22),
     rule="one run = one seeded schedule of one or more image casts over a drawn mesh, camera and (non-square) image size; non-trivial: at least two worker threads were created and some pixel is hit; distinct by event-log hash including interleaving and image",
     measure=SCHED_MEASURE, real=[SCHED_REAL], stub=[SCHED_STUB], assumptions=[SEQ, "pixels whose ray passes within about 1e-6 of an edge are compared between parallel and serial only"])

prop("T04", harness="shared", level="exploration", quick=dict(runs=8000, time=28),
     rule="one run = one structure built by the library and 2-4 threads putting 1-3 queries each to it under one seeded schedule; non-trivial: the schedule interleaved the threads; distinct by event-log hash including interleaving and answers",
     measure=SCHED_MEASURE, real=[SCHED_REAL, "36 queries on 7 kinds of structure (sim/harness/shared.cpp)"], stub=[SCHED_STUB], assumptions=[SEQ])
prop("T05", harness="catthread", level="exploration", quick=dict(runs=8000, time=28),
     rule="one run = one seeded schedule of 2-4 threads, each running one or two catalogue operations (see DESIGN.md) on objects of its own; non-trivial: the schedule interleaved the threads; distinct by event-log hash including interleaving and results",
     measure=SCHED_MEASURE, real=[SCHED_REAL, "170 catalogue operations over the library (sim/harness/cat_*.cpp)"], stub=[SCHED_STUB], assumptions=[SEQ])

prop("M01", harness="catfault", level="exploration", quick=dict(runs=50000, time=26),
     rule="one run = one catalogue operation on drawn inputs, executed up to 14 times with one allocation failing at a drawn index (or memory limited to a drawn size); non-trivial: at least one failure fired; distinct by event-log hash",
     measure="distinct (operation, input, failing allocation) triples", real=["catalogue operations over the library (sim/harness/cat_*.cpp), libstdc++ containers", "AddressSanitizer"], stub=["operator new/delete: the seeded allocator decides which request fails"],
     assumptions=["allocations made by Eigen through malloc are not failed"])
prop("H04", harness="catfault", level="exploration", quick=dict(runs=45000, time=28),
     rule="one run = one or more catalogue operations on drawn inputs, repeated with reused outputs, other heap/stack contents or other calls in between; distinct by event-log hash",
     measure="distinct (result, disturbance) pairs", real=["catalogue operations over the library (sim/harness/cat_*.cpp)", "AddressSanitizer"], stub=["contents of fresh heap and stack memory, contents of output containers, call history"],
     assumptions=["memory obtained through malloc directly (Eigen) is not patterned"])

DISK_REAL = "the library's readers and writers, libstdc++ file streams, AddressSanitizer"
DISK_STUB = "the disk: open/read/write/lseek/close of files under /sim are answered by the simulator; contents of fresh heap and stack memory"
def disk(id, runs, rule, measure, assumptions=[]): prop(id, harness="diskio", level="exploration", quick=dict(runs=runs, time=20), rule=rule, measure=measure, real=[DISK_REAL], stub=[DISK_STUB], assumptions=list(assumptions))
disk("F01", 12000, "one run = one generated mesh file, read twice (other memory contents, used outputs) while missing, cut, damaged, or failing with a read error at a drawn byte; non-trivial: always, the fault or damage is part of every run but one in eight, which reads the intact file; distinct by event-log hash", "distinct results returned by readers")
disk("F02", 12000, "one run = one generated array, image, text, material, motion or camera file, read twice while missing, cut, damaged, or failing with a read error at a drawn byte; distinct by event-log hash", "distinct results returned by readers")
disk("F03", 12000, "one run = one intact generated file delivered in drawn pieces with interrupted calls in between; distinct by event-log hash", "distinct (number of disk operations, result) pairs")
disk("F04", 8000, "one run = one write of drawn data to a disk that fails to open, to close, is full or fails at a drawn byte, three times; distinct by event-log hash", "distinct (fault, byte, data) triples")
disk("F05", 12000, "one run = one save and load of drawn data, half of them with a power cut at a drawn byte, then saved again; distinct by event-log hash", "distinct results of loading")

HIST_STUB = "the order of the operations, the points where memory runs out, restarts"
prop("H01", harness="hist", level="exploration", quick=dict(runs=12000, time=20),
     rule="one run = one start mesh (grid, tetrahedron, sphere, annulus, torus or fan) and a drawn history of up to 42 edits, restarts from the exported triangles and allocation failures, compared with the model after every step; distinct by event-log hash",
     measure="distinct final triangulations", real=["dtri_topology.cpp, CMeshDynTri2D/3D, libstdc++, AddressSanitizer"], stub=[HIST_STUB], assumptions=["edits are applied where the mesh stays manifold: no flip onto an existing edge"])
prop("H02", harness="hist", level="exploration", quick=dict(runs=9000, time=22),
     rule="one run = one drawn sequence of insertions, refinements, collapses, restarts and allocation failures on a 2D mesh of drawn points, of polygons with holes, or on a 3D Delaunay mesh, checked after every step; distinct by event-log hash",
     measure="distinct final meshes", real=["dtri2_v2dtri.cpp, geo_polygon2.cpp, dtet_v3.cpp, libstdc++, AddressSanitizer"], stub=[HIST_STUB], assumptions=["points at least 0.03 apart in a unit box; circle test with relative tolerance 1e-9"])
prop("H03", harness="cad", level="exploration", quick=dict(runs=12000, time=22),
     rule="one run = one editing session of up to 27 steps on a sketch (edits, picking, dragging, meshing, lookups, restarts, failing allocations), compared with the model after every step; distinct by event-log hash",
     measure="distinct meshes", real=["cad2.cpp, cadtopo.h, cad2_mesher.cpp, dtri2_v2dtri.cpp, geo_curve_*.h, libstdc++, AddressSanitizer"], stub=[HIST_STUB], assumptions=["faces are meshed when their sampled outline is simple, counter-clockwise and nowhere narrower than 0.02"])
prop("H05", harness="move", level="exploration", quick=dict(runs=12000, time=20),
     rule="one run = one structure (sphere or box tree, point tree, search grid) over drawn geometry that moves for up to 9 steps with restarts and failing allocations; every answer is compared with an exhaustive pass; distinct by event-log hash",
     measure="distinct (step, answer) pairs", real=["srch_bvh.h/.cpp, srch_bv3_*.h, srch_trimesh3_class.h, srchgrid.h, srch_selfintersection_bvh.h and the element tests, AddressSanitizer"], stub=["the motion, the order of refits, rebuilds and queries, the points where memory runs out"], assumptions=["elements within about 1e-6 of a threshold are not judged"])

DYN_STUB = "the clock (time steps jump, stall and shrink), restarts from saved states, contents of work buffers, the points where memory runs out"
def dyn(id, runs, rule, measure, real, assumptions=[]): prop(id, harness="dyn", level="exploration", quick=dict(runs=runs, time=20), rule=rule, measure=measure, real=[real + ", AddressSanitizer"], stub=[DYN_STUB], assumptions=list(assumptions))
dyn("S01", 20000, "one run = one fluid session of up to 8 steps on a drawn grid, velocity field and sequence of time steps from 1e-6 to 1e3; distinct by event-log hash", "distinct (step, field) pairs", "fdm_stablefluids.h, fdm_array2.h", ["incompressibility is judged on grids up to 6x6 after at least 400 iterations from zero pressure"])
dyn("S02", 20000, "one run = one position-based session (cloth, single projection, 2D or 3D shape clusters) of up to 8 steps; distinct by event-log hash", "distinct (step, positions) pairs", "pbd_geo3.cpp, pbd_stvk.h, pbd_bending_for_dtri.cpp, kinetic_damping.h", ["rigidity is judged where the deformed cluster spans the space and is not mirrored", "sessions end when a non-linear projection diverges beyond 1e3"])
dyn("S03", 20000, "one run = one session of up to 20 steps with up to 7 rigid polygons; distinct by event-log hash", "distinct (step, positions) pairs", "rgd_v2m3.cpp")
FEM = "one run = one session of up to 8 implicit steps (heat, Newmark solid, backward Euler with or without stiffness warping, tied or plain statics, cloth) on a drawn body, supports and sequence of time steps; distinct by event-log hash"
VIEW = "one run = one session with one to three windows: user actions, the window system's delivery of them (duplicated, coalesced, lost, reordered, delayed) and frames interleaved by the seed; non-trivial: a press, drag, pan or turn was judged; distinct by the event log"
prop("V01", harness="view", level="exploration", quick=dict(runs=20000, time=26), rule=VIEW, measure="distinct (event kind, button, modifiers, viewer) states", real=["glfw/viewer2.*, glfw/viewer3.*, glfw/mouseinput.h, glfw/ViewRig.h, cam_projection.h, cam_modelview.h, gizmo_geo3.*, opengl/old/rigv3.*, opengl/old/mshuni.*, AddressSanitizer"], stub=["the window system (GLFW) and the graphics driver (OpenGL 1.x), both answered inside the process"], assumptions=["single precision leaves a fraction of a pixel of freedom"])
prop("R01", harness="rnd", level="exploration", quick=dict(runs=16000, time=24), rule="one run = one randomised operation under a drawn entropy source (seeded, constant, counting, extreme, unavailable) or an engine whose next outputs are chosen; non-trivial: its results were judged; distinct by the event log", measure="distinct results", real=["sampling.h, sampler_trimesh.h, dijkstra.h, 4rotsym.h, noise.h, color.h, quat.h, mat3.cpp, vec2.cpp, msh_affine_transformation.cpp, libstdc++ distributions and engines, AddressSanitizer"], stub=["std::random_device and rand()"], assumptions=["libstdc++'s mt19937 state format, used to choose its next outputs"])
prop("H06", harness="pose", level="exploration", quick=dict(runs=20000, time=20), rule="one run = one session with one skeleton or handle; non-trivial: the session reached its end; distinct by the event log", measure="distinct poses", real=["rig_geo3.*, rig_bvh.*, rigopt.h, gizmo_geo3.*, quat.*, mat4.*, lsitrsol.h, AddressSanitizer"], stub=[DYN_STUB, "files: simulated disk"], assumptions=["rotations given by hand are unit quaternions and parents come before their children, as the headers demand"])
prop("S06", harness="rod", level="exploration", quick=dict(runs=24000, time=26), rule="one run = one session of up to 8 steps of one set of rods; non-trivial: the session reached its end; distinct by the event log", measure="distinct shapes", real=["hair_darboux_solver.h, hair_darboux_util.*, hair_darboux_collision.*, fem_rod3_darboux.cpp, fem_distance3.cpp, fem_rod2.cpp, fem_beam2.h, polyline_elastic_rod2.h, polyline_elastic_beam2.h, ls_pentadiagonal.h, ls_tridiagonal.h, ls_solver_block_sparse.h, AddressSanitizer"], stub=[DYN_STUB], assumptions=["a step is judged when the system it solves is positive definite and the solver reports convergence"])
prop("S04", harness="fem", level="exploration", quick=dict(runs=20000, time=24), rule=FEM, measure="distinct (step, positions) pairs", real=["fem_poisson.*, fem_solidlinear.*, femutil.*, femcloth.h, fem_stvk.cpp, fem_quadratic_bending.cpp, cloth_internal.h, ls_block_sparse.*, ls_ilu_block_sparse.*, ls_masterslave.cpp, lsitrsol.h, vecxitrsol.h, AddressSanitizer"], stub=[DYN_STUB], assumptions=["a step is judged when the solver reports convergence"])
prop("S07", harness="flow", level="exploration", quick=dict(runs=20000, time=24), rule="one run = one session of up to 6 implicit steps of Stokes or Navier-Stokes flow on a drawn domain, walls and sequence of time steps, or one known flow, or one wave problem; distinct by event-log hash", measure="distinct (step, velocities and pressures) pairs", real=["fem_stokes.*, fem_navierstokes.*, fem_helmholtz.*, femutil.*, ls_block_sparse.*, ls_ilu_block_sparse.*, vecxitrsol.*, AddressSanitizer"], stub=[DYN_STUB], assumptions=["the weight of the stabilisation is read from one entry per element and only checked for sign, frame and units", "a step is judged when the solver reports convergence"])
dyn("S05", 8000, "one run = two or three sheets thrown at each other for up to 3 steps; non-trivial: the response changed a velocity; distinct by event-log hash", "distinct (step, positions) pairs", "cloth_selfcollision.cpp, srch_selfintersection_bvh.h, srch_bvh.h", ["contacts are those the library's element tests report", "resolution is demanded when the sheets start apart"])
