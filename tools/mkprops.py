#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the statements).
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

SRC = ["src/r3d.c", "src/v3d.c", "src/r2d.c", "src/v2d.c", "src/rNd.c", "src/vNd.c"]
DEP = ["deprecated/r3d.c", "deprecated/r2d.c"]

add("P01", "Concurrent callers on separate objects never influence each other",
 "Any number of threads may call any function of the library at the same time as long as no two of them modify the same object; every call then returns exactly (bit for bit) the value and leaves exactly the object contents it would have produced had it run alone. This holds for the 2D, 3D and N-D clippers, integrators, transforms, validators, boundary extraction and voxelizers, and for the deprecated clip/voxelize routines.",
 ["schedules", "inputs"], "every interleaving of the callers' instructions, for every workload of calls on distinct objects",
 "A unit test runs one call at a time; interference needs a preemption inside one particular window of one call while another call runs.",
 SRC + DEP, [("no shared mutable state: scratch lives on the caller's stack or in the caller's objects", "all functions in src/*.c"), ("explicit per-call work stack", "src/v3d.c r3d_voxelize")])

add("P02", "A call interrupted by another call on the same thread is unaffected",
 "The library is re-entrant: when a call is interrupted at any instruction and a complete call on other objects runs on the same thread (signal handler, coroutine, callback), both calls produce exactly what they would have produced alone. No per-thread scratch, cache or lock is shared between the interrupted and the interrupting call, so neither is corrupted or blocked.",
 ["schedules", "inputs"], "every instruction at which the outer call can be interrupted, every nesting depth, every pair of calls on distinct objects",
 "Nested calls at arbitrary instructions cannot be produced by calling the API from a test.",
 SRC + DEP, [("stack-only scratch buffers", "src/r3d.c r3d_clip, r3d_split, r3d_init_poly, r3d_init_brep"), ("recursion-free work stacks", "src/v2d.c, src/v3d.c, src/vNd.c")])

add("P03", "Input arguments are never written, so callers may share them",
 "Arguments that are documented as inputs - clip and split planes, vertex/face/bounds arrays, transformation matrices, index boxes passed to voxelization, and the polytope or boundary being measured, validated, printed, converted or voxelized - are not written at any moment of the call, not even temporarily. They may therefore be shared between concurrent calls or live in read-only memory (the polyhedra given to a split are the documented exception and may be used as scratch).",
 ["schedules", "inputs"], "every instant of every call, for every input object shared by concurrent readers",
 "A value that is modified and restored before the call returns is invisible to a test that looks only afterwards.",
 SRC, [("voxelization works on a copy of the polytope", "src/v3d.c r3d_voxelize"), ("centroid shift applied to local copies of vertices", "src/r3d.c r3d_reduce"), ("boundary walk marks vertices in local arrays", "src/r3d.c r3d_init_brep")])

add("P04", "A full vertex buffer is reported, contained and never taken for success",
 "When an initialisation, clip, split or voxelization needs more vertices than the fixed buffer holds, at whatever point of the operation this happens, the call stops and reports failure (status 0), and no memory outside the caller's objects is read or written. Whenever a call reports success its results are complete: a well-formed polytope within the capacity, with exactly the measure of the requested region; and a call whose intermediate vertices all fit in the buffer does succeed. After a failure the library stays usable: re-initialising the object works, other objects (including earlier elements of the same split) are intact.",
 ["fault_sequences", "configurations", "histories"], "every capacity the library can be configured with and every point of an operation at which the buffer fills up",
 "The tests use one capacity and never fill it; overflow at the k-th inserted vertex of a later plane needs a prepared history.",
 SRC, [("capacity check before each inserted vertex", "src/r3d.c r3d_clip, r3d_split"), ("duplicate-vertex budget", "src/r3d.c r3d_init_poly"), ("status results", "src/r2d.c r2d_clip, r2d_split; src/rNd.c rNd_clip; src/v3d.c r3d_voxelize")])

add("P05", "The configured vertex capacity never changes a result",
 "The compile-time vertex capacity only decides when an operation runs out of room. For any sequence of operations that fits, the results - statuses, vertex positions, connectivity, moments, grids, boundary descriptions - are identical whatever capacity the library was built with, and whether or not diagnostics are compiled in.",
 ["configurations", "histories"], "every pair of builds that differ in capacity or diagnostics, over every history that fits in both",
 "The suite is built once, with one capacity.",
 SRC + ["config/r3d-config.h.in"], [("capacity used as buffer size and as the 'no neighbour yet' marker", "src/r3d.c r3d_init_poly"), ("whole-array clearing", "src/r3d.c r3d_clip, r3d_split, r3d_init_brep")])

add("P06", "Allocation failure during boundary extraction is atomic and leak-free",
 "If any memory allocation made while converting a polyhedron to boundary representations fails, the conversion does not crash, leaves the polyhedron untouched, hands back no components (count zero) and keeps no memory; calling it again when memory is available succeeds. When it succeeds, the release function frees every block exactly once and nothing else, whatever the number of components.",
 ["fault_sequences", "histories"], "every subset of allocations failing, over every sequence of conversions and releases",
 "malloc does not fail in a test run, and leaks do not change results.",
 ["src/r3d.c"], [("component array growth", "src/r3d.c r3d_init_brep"), ("release", "src/r3d.c r3d_free_brep")])

add("P07", "Extracted boundaries describe the polyhedron exactly, whatever the allocator",
 "Converting any valid polyhedron reached by initialisation, clips, splits and transforms yields one closed, consistently outward-oriented boundary per connected component, using only vertices of the polyhedron (a run of coincident ones merged into one) and each face once; together they enclose exactly the polyhedron's moments and rebuild an equivalent polyhedron. This does not depend on how many components there are, on whether the allocator moves blocks or hands out dirty memory, or on other conversions in progress.",
 ["histories", "fault_sequences", "schedules"], "every history producing the polyhedron, every allocator behaviour and every interleaving with other conversions",
 "Tests convert a handful of shapes with at most a few components and a benign allocator.",
 ["src/r3d.c"], [("face walk with edge marks", "src/r3d.c r3d_init_brep"), ("component array growth by reallocation", "src/r3d.c r3d_init_brep"), ("coincident-vertex merge", "src/r3d.c r3d_init_brep")])

add("P08", "Results depend only on the arguments, never on history or leftover memory",
 "Each call is a function of its documented inputs: earlier calls (successful, failed or on other sizes), the order in which independent calls are made, leftover stack or heap bytes, unused buffer slots and the previous contents of output arguments never influence its results. Repeating a call on equal inputs at any later point of any history gives identical results.",
 ["histories", "inputs"], "every preceding history and every content of memory the call does not own as input",
 "A test process has one history and mostly zeroed memory, so stale-state and uninitialised-read bugs agree with the expected value.",
 SRC + DEP, [("output arrays zeroed before accumulation", "src/r3d.c r3d_reduce"), ("work arrays cleared per plane / per component", "src/r3d.c r3d_clip, r3d_init_brep"), ("empty outputs marked explicitly", "src/r3d.c r3d_split")])

add("P09", "An abandoned call harms nothing but its own output objects",
 "If a call is abandoned at an arbitrary instruction and never resumed (the thread is cancelled or a handler jumps out of it), no other object is affected, every later call on any object behaves as if the abandoned call had never been made, and re-initialising the objects it was writing makes them fully usable again.",
 ["crash_points", "histories"], "every instruction at which a call can be abandoned and every continuation afterwards",
 "Tests always let calls return.",
 SRC + DEP, [("no state outside arguments and stack", "all functions in src/*.c"), ("initialisers overwrite the whole used part of the object", "src/r3d.c r3d_init_tet, r3d_init_box, r3d_init_poly")])

add("P10", "Every acknowledged step of a history denotes exactly the region it should",
 "Over any history of initialisations, copies, clips, splits and affine transforms on any number of polygons, polyhedra (convex, non-convex, multiply connected) and 4-D polytopes, interleaved between clients and with steps failing for lack of capacity or being abandoned and retried, the moments measured for each live object equal, to rounding, those of the exact region its acknowledged steps denote. In particular the two halves of a split are the parts on the documented sides, conserve every moment of the original, and no vertex ends up on the wrong side of a plane it was clipped against.",
 ["histories", "fault_sequences", "schedules"], "every finite history of acknowledged and failed operations",
 "Tests apply short fixed recipes to random tetrahedra; errors that need a particular sequence (degenerate cut after non-convex split after failure) stay unseen.",
 SRC, [("edge bisection and relinking", "src/r3d.c r3d_clip, r3d_split; src/r2d.c r2d_clip, r2d_split; src/rNd.c rNd_clip"), ("moment recursion", "src/r3d.c r3d_reduce; src/r2d.c r2d_reduce; src/rNd.c rNd_reduce"), ("vertex transforms", "src/r3d.c r3d_affine etc.")])

add("P11", "Voxelization in pieces, with crashes and retries, equals voxelization at once",
 "A grid computed by any number of workers, each clamping a private copy of the polytope to its own index range and voxelizing it into its own patch, with workers crashing at arbitrary points and their tiles being redone and delivered in any order, is the same as that computed in one call: every cell holds the moments of exactly the part of the polytope inside that cell, cells outside hold zero, and the total is conserved. Tiles that do not meet the polytope come back empty.",
 ["crash_points", "schedules", "histories"], "every decomposition into tiles, crash point, retry and delivery order, grid spacing, polynomial order and dimension (2, 3, 4)",
 "Tests voxelize whole shapes once and compare only totals.",
 ["src/v2d.c", "src/v3d.c", "src/vNd.c"], [("index box and clamping", "src/v3d.c r3d_get_ibox, r3d_clamp_ibox"), ("recursive bisection", "src/v3d.c r3d_voxelize"), ("grid indexing", "src/v3d.c r3d_voxelize")])

add("P12", "Grid deposits only add, stay inside the patch and commute",
 "Voxelizing or rasterizing adds the polytope's cell moments to what the destination grid already holds: contents of untouched cells and everything outside the patch keep their value, repeated and interleaved deposits of any polytopes sum up in any order, and depositing the fragments of a subdivided polytope gives the same grid as depositing the whole.",
 ["histories", "schedules"], "every history of deposits, deposit order and fragment set",
 "Tests deposit once into a zeroed grid.",
 ["src/v2d.c", "src/v3d.c", "src/vNd.c"], [("accumulating writes", "src/v3d.c r3d_voxelize"), ("row-major patch indexing", "src/v2d.c r2d_rasterize; src/vNd.c rNd_voxelize")])

add("P13", "Broken output streams affect nothing but the text that is lost",
 "Printing functions and diagnostics work when standard output or error is slow, full, closed or failing at any write: they terminate, never change the printed object, and never change the result of the call that emitted them. Whenever the stream accepts the data (also after earlier failures), a printout lists every vertex (and for boundaries every component and face) exactly once, in order, with the object's actual coordinates and indices.",
 ["fault_sequences", "histories"], "every sequence of short, failing and refused writes and every buffering mode",
 "Tests print to a healthy terminal or file and never read the text back.",
 ["src/r3d.c", "src/r2d.c", "src/rNd.c"], [("listings", "src/r3d.c r3d_print, r3d_print_brep; src/r2d.c r2d_print; src/rNd.c rNd_print"), ("diagnostics", "src/r3d.c r3d_is_good, r3d_clip")])

add("P14", "Every call returns within a bounded number of steps",
 "Every call on well-formed arguments terminates within a number of steps bounded by the size of its arguments - also for degenerate geometry (planes through vertices, edges or faces, coincident vertices, zero-volume and empty polytopes), with full buffers, failing allocations or failing output, and under every schedule; no call ever waits for another call to make progress.",
 ["schedules", "inputs", "fault_sequences"], "every schedule, every well-formed argument including degenerate ones, every fault sequence",
 "A hang in a rare configuration is only seen by the test that happens to hit it.",
 SRC + DEP, [("face-walk loops that end at a new vertex", "src/r3d.c r3d_clip, r3d_split; src/r2d.c r2d_clip"), ("boundary walk", "src/r3d.c r3d_init_brep"), ("subset enumeration", "src/rNd.c rNd_is_good")])

add("P15", "Deprecated voxelizers are restartable, conservative and reuse buffers safely",
 "With the deprecated interface, voxelizing a tetrahedron or rasterizing a convex quadrilateral resets the destination grid and writes into it exactly the per-cell moments of the part of the shape inside each cell; a run that is interrupted at any instruction and simply repeated, into the same or other buffers with any leftover contents and with any number of other runs interleaved, gives the same grid. Nothing beyond the declared buffers is written.",
 ["crash_points", "histories", "schedules"], "every crash point of a voxelization, every buffer content and every interleaving",
 "The deprecated code has no tests at all.",
 DEP, [("grid reset and gridpoint orientation pass", "deprecated/r3d.c r3d_voxelize_tet; deprecated/r2d.c r2d_rasterize_quad"), ("bit-flag clipping", "deprecated/r3d.c r3d_clip_tet; deprecated/r2d.c r2d_clip_quad")])

add("P16", "The validity check tells intact objects from torn, damaged or half-written ones",
 "The validity check may be applied to anything found in a vertex buffer: what a clip, split, transform or initialisation that was abandoned or ran out of room left behind, a torn or stale copy, an object damaged in storage. It terminates, reads nothing outside the object, writes nothing, and returns 1 exactly when the graph is a disjoint union of valid polytope graphs for its dimension: every vertex has the right number of distinct neighbours other than itself, every edge leads both ways and, in 3D and above, every component has the required vertex connectivity (removing any two, in 4D any three, vertices leaves it connected).",
 ["crash_points", "fault_sequences", "inputs"], "every instruction at which a writer can be cut short, every torn copy and every damaged neighbour entry, in every graph that fits in the buffer", "The tests only pass it graphs the library has just built successfully.",
 ["src/r3d.c", "src/r2d.c", "src/rNd.c"], [("edge counts and range checks", "src/r3d.c r3d_is_good; src/r2d.c r2d_is_good; src/rNd.c rNd_is_good"), ("connectivity by flood fill with vertices masked", "src/r3d.c r3d_is_good; src/rNd.c rNd_is_good")])
add("P21", "Objects are plain values: save, crash, restart elsewhere and continue",
 "A polytope is completely described by its counts and that many vertex records, a grid by its cells. A client that saves those bytes at any point, crashes at any instruction of any later call and restarts - in a new process, with the objects reloaded at other addresses and anything at all in the unused part of their buffers - and repeats the calls made since gets exactly the results it would have had without the crash, for every kind of operation and any number of crashes. Addresses, hidden caches and unused slots are never part of an object's state.",
 ["crash_points", "histories"], "every save point, every instruction at which the process can die, and every continuation", "A test process never dies half-way and its objects never move.",
 SRC + DEP, [("position-independent objects: neighbours are indices, not pointers", "src/r3d.h r3d_poly, src/r2d.h r2d_poly, src/rNd.h rNd_poly"), ("no state outside the arguments", "all functions in src/*.c")])

add("P22", "Calls neither trap nor disturb the caller's floating-point or process state",
 "A host may run each of its threads with its own floating-point environment: any rounding mode, denormals flushed or not, and traps on invalid operations and divisions by zero enabled. Over any history of calls on valid objects (empty and degenerate ones included; only the centre of an object without volume, and the N-dimensional moments of objects or cell pieces with coincident vertices, are undefined) no call performs an invalid operation or divides by zero. At every instant at which a call can be interrupted, abandoned or returns, the rounding mode, the trap masks and the other control bits are those the calling thread had set, so no other call, on this or another thread, ever sees different ones. Calls never alter process-wide state either: locale, signal handlers and masks, timers, the random sequence, environment variables, the working directory, or the buffering of the standard streams.",
 ["schedules", "crash_points", "inputs"], "every floating-point setting of every caller, every history, and every instant at which a call is interrupted, preempted or abandoned",
 "Tests run with the default environment, in which traps are masked, and look at results only; a setting changed and restored within a call is visible only to whoever interrupts it.",
 SRC + DEP, [("no division without a nonzero denominator: cuts are made only between vertices strictly on different sides", "src/r3d.c r3d_clip, r3d_split; src/r2d.c r2d_clip; src/rNd.c rNd_clip"), ("integer rounding by floor/ceil, not by rounding modes", "src/v3d.c r3d_get_ibox"), ("plain formatted output", "src/r3d.c r3d_print, r3d_print_brep")])

add("P23", "Stack use is bounded by the object type, however much a call is asked to do",
 "Every call, at every point, gets by with an amount of stack fixed by the compiled vertex capacity (of the order of some dozen objects of its kind: well under a megabyte in 2D and 3D and a few megabytes in N-D as shipped), whatever the number of planes, objects, cells, moments, components or nested subdivisions it is asked for. Calls therefore run on ordinary and small thread stacks, and no input, however large, makes the process overflow its stack.",
 ["inputs", "histories", "configurations"], "every size of request (planes, split objects, grid cells, polynomial order, components) and every object reached by a history, at the shipped and at larger capacities",
 "A test's small requests on a large main-thread stack cannot run out of it.",
 SRC + DEP, [("explicit fixed-depth work stacks instead of recursion", "src/v3d.c r3d_voxelize, src/v2d.c r2d_rasterize, src/vNd.c rNd_voxelize"), ("work arrays of the buffer's capacity", "src/r3d.c r3d_clip, r3d_split, r3d_is_good")])

add("P17", "Intersections built from helper-made faces are exact in any delivery order",
 "Clients describe convex regions by boxes, simplices or convex boundaries in their documented vertex order and turn them into clipping planes with the face helpers; the orientation helpers, which return the signed measure of a simplex, tell them that order. Several workers each hold one of the regions and receive requests to intersect it with the others. Whatever the order in which requests arrive, whether a request is split into batches of faces, delivered twice, abandoned at any instruction and delivered again, or interleaved with those of other workers, every worker's polytope is after each request exactly the intersection of the regions received so far: the planes have unit inward normals and pass through the corners of their face, whichever way the object being clipped was built.",
 ["histories", "schedules", "crash_points"], "every set of convex regions, every order, batching, repetition and abandonment of the clip requests, every interleaving of workers",
 "Tests feed the planes of one helper to one clip, mostly of simplices, and the faces made from a general boundary are used by none.",
 ["src/r3d.c", "src/r2d.c", "src/rNd.c"], [("face construction", "src/r3d.c r3d_tet_faces_from_verts, r3d_box_faces_from_verts, r3d_poly_faces_from_verts; src/r2d.c r2d_box_faces_from_verts, r2d_poly_faces_from_verts"), ("orientation", "src/r3d.c r3d_orient; src/r2d.c r2d_orient; src/rNd.c rNd_orient"), ("clipping against several planes", "src/r3d.c r3d_clip; src/r2d.c r2d_clip")])
add("P18", "Moments keep the accuracy of the object's own size wherever it was carried",
 "Clients carry objects about: they translate them far away and back, clip, split, copy and voxelize them there, scale them down, and measure them at every stop, under any interleaving of clients and with calls abandoned and repeated. At every moment the measured moments of every order (the volume included) are those of the polyhedron described by the object's present vertices to within a small multiple of machine precision, the number of faces and the order, relative to the object's own size and its distance raised to the moment's degree: the error of the volume never grows with the distance from the origin. The moments of grid cells are as good as the coordinates of the cut allow, and the centre lies within the object's extent.",
 ["histories", "schedules", "crash_points"], "every history of moves and cuts, every size, distance and polynomial order",
 "Tests stay near the origin, where an integrator that loses digits with the cube of the distance looks perfect.",
 ["src/r3d.c", "src/r2d.c", "src/v3d.c"], [("moments about the centre, shifted back", "src/r3d.c r3d_reduce, r3d_shift_moments, r3d_poly_center; src/r2d.c r2d_reduce, r2d_shift_moments (with SHIFT_POLY)"), ("moments of cells", "src/v3d.c r3d_voxelize")])
add("P19", "Index boxes handed to tile workers always cover the object and are minimal",
 "A client computes the index box of an object after any history of clips, splits, maps, clamps and copies, under any interleaving and with calls abandoned and repeated, and hands it to tile workers. The box contains every vertex of the object, and moving any of its sides inwards by one cell would lose one, for every spacing and however far from the origin. Clamping an index box and an object together leaves the object cut exactly to the clamping box, the index box clamped to it, and never an index box that misses part of the object; objects lying elsewhere are left empty.",
 ["histories", "schedules", "crash_points"], "every history of the object, spacing, clamping box and interleaving",
 "Tests use the box of a few fresh objects as voxelization input; a box one cell too wide costs only time and one too narrow only a sliver, so neither shows.",
 ["src/v2d.c", "src/v3d.c", "src/vNd.c"], [("bounding box to indices", "src/v3d.c r3d_get_ibox; src/v2d.c r2d_get_ibox; src/vNd.c rNd_get_ibox"), ("clamping", "src/v3d.c r3d_clamp_ibox; src/v2d.c r2d_clamp_ibox; src/vNd.c rNd_clamp_ibox")])

# --- pure functions of their input: listed, not claimed -----------------------------------------
add("P20", "Orientation helpers return the signed measure of the simplex",
 "For every simplex the orientation helpers return its signed area, volume or 4-volume, positive for the documented vertex order.",
 ["inputs"], "every simplex", "Tests use them on random simplices to fix the orientation only.",
 ["src/r3d.c", "src/r2d.c", "src/rNd.c"], [("determinants", "src/r3d.c r3d_orient; src/r2d.c r2d_orient; src/rNd.c rNd_orient")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
