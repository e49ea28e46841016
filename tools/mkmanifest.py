#!/usr/bin/env python3
# Writes /verif/MANIFEST.json (one place to edit the notes).
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C
T = "deterministic simulation with fault injection: "
N = {
"P01": (T + "seeded preemptive scheduling of caller fibers at every edge/load/store, bitwise comparison with solo runs",
  "Every call in an interleaved run is compared bit for bit with the same call run alone; writes by a call outside its own objects and the heap blocks it owns, and to library statics, are trapped. Seeded search, not exhaustive; a single load or store is taken as atomic."),
"P02": (T + "complete calls nested inside other calls at seeded instructions",
  "Both the interrupted and the nested call are compared bit for bit with solo runs; nesting up to depth 4. Seeded search."),
"P03": (T + "inputs placed on write-protected pages while calls are interleaved",
  "Any store to a documented input, even one later undone, faults at the instruction. Covers the inputs generated; seeded search."),
"P04": (T + "vertex-buffer exhaustion at every point of init/clip/split/voxelize in builds with small buffers",
  "Capacity faults injected by small-capacity builds and buffer-filling workloads; canaries, array-bound traps and ASAN find overruns; acknowledged results are compared with an exact-region reference; refusals with a peak-vertex reference."),
"P05": (T + "the same plans run in builds of five capacities/diagnostic settings, results compared bit for bit",
  "Differential between builds of the same sources; every operation that fits in both builds must agree bitwise."),
"P06": (T + "simulated heap failing at seeded allocation points, with block moves and abandonment",
  "Each conversion is hit at allocation k (single or sticky failures) for many k; leaks, double frees, foreign frees, dereferences of failed blocks and lost retries are detected by the simulated heap."),
"P07": (T + "conversions under seeded heap behaviour and interleavings, checked against the vertex graph and a reference model",
  "Boundaries are compared with faces traced independently from the polyhedron's graph, with its moments, and by rebuilding."),
"P08": (T + "each history executed several times with different leftover memory, noise calls and order; digests compared",
  "Two executions of the same calls in different environments must agree bit for bit."),
"P09": (T + "calls abandoned at seeded instructions; every other object and later call compared with an undisturbed execution",
  "Crash points are drawn over all instrumented points of the call; later calls must agree bitwise with a run without the abandoned one."),
"P10": (T + "interleaved histories with capacity faults, abandonment and retries; refinement against an exact-region reference model",
  "The reference keeps each object as a list of extended-precision simplices; moments compared to a tolerance scaled by conditioning. Errors below that tolerance are not seen."),
"P11": (T + "simulated voxelization cluster: workers crash, stall, duplicate and reorder tiles; assembled grid compared with one call and with the reference",
  "Tiles redone after crashes; every cell compared with the reference model and the single-call grid."),
"P12": (T + "interleaved deposits into shared patches with guard zones, compared with a reference accumulation",
  "Deposits of whole, split and nested objects; guard cells around each patch are checked bitwise."),
"P13": (T + "cookie streams that fail, stall, shorten or refuse writes at seeded points",
  "Results with faulty streams compared bitwise with those on perfect streams; the text on perfect streams is parsed and compared with the object."),
"P14": (T + "logical step budget per call under degenerate geometry, full buffers, failing heap and streams, and stalls",
  "Steps are instrumented edges; the budget is a generous polynomial of argument size, at least two orders of magnitude above what correct code used. A call exceeding it, or waiting for another call, is reported."),
"P15": (T + "deprecated voxelizers interrupted, nested, abandoned and repeated into dirty buffers; compared with a reference",
  "Plain and USE_TREE builds of the deprecated code; grids compared with the exact reference and bitwise with undisturbed runs."),
"P16": (T + "objects left behind by calls cut short at seeded instructions or by full buffers, and torn, stale or damaged copies, handed to the validity check",
  "The verdict is compared with an independent brute-force judgement of the graph (ranges, mutual distinct edges, connectivity after removing every subset). 2D graphs whose edges are mutual but whose successor/predecessor disagree are not judged. Sizes up to 400/130/34 vertices in 2/3/4 dimensions."),
"P17": (T + "replicas of an intersection receiving clip requests in seeded orders, batches and repetitions, abandoned at seeded instructions and delivered again; refinement against an exact-region reference model",
  "Every plane a helper returns is compared with the corners it came from, every state with the exact region to a tolerance scaled by conditioning. Convex, non-degenerate shapes only."),
"P18": (T + "clients carrying objects far away and back, cutting and measuring them under seeded interleavings with abandoned and repeated calls; every measurement judged against the object's own vertices",
  "The judge integrates the object's present faces in extended precision about its centre, independent of its history; the bound is 16 eps times faces, order and the object's own size. Faces bent by rounding are allowed for. The 2-D library is held to this only when built with SHIFT_POLY, as r2d.c never sees r3d-config.h; otherwise to precision relative to the distance. N-D is not covered."),
"P19": (T + "interleaved histories with abandoned and repeated calls; every index box and clamp judged against the object's vertices and an exact-region reference model",
  "Coverage and minimality are judged in extended precision with a slack of a few rounding errors of the quotient; boxes whose sides fall within that slack of a grid line are accepted either way."),
"P22": (T + "callers with seeded floating-point environments (rounding, flushing, traps on) interleaved, nested and abandoned at seeded instructions",
  "Control words are compared at every instant the simulator interrupts a call and when it returns, exception flags and traps are violations, results are compared bit for bit with solo runs, and calls that alter process state are redirected to recorders. The library is compiled with -ffp-exception-behavior=maytrap so that the compiler introduces no exception of its own."),
"P23": (T + "requests of every size interleaved on simulated thread stacks of limited depth",
  "The depth of each call is measured at every basic block of the real code, at the shipped and larger capacities; the limit is 256 KiB plus 40 objects of the kind, some three times what the unchanged code uses in 3D."),
"P21": (T + "process crashes at seeded instructions; only saved bytes survive, everything is reloaded at other addresses into dirty buffers and the calls since the save are repeated",
  "Library statics, heap and locks are reset at each restart; all results and the final objects are compared bit for bit with a crash-free execution. Boundary descriptions (pointers) are rebuilt, not saved."),
}
NA = {
"P20": "A pure function of the simplex coordinates; no schedule, fault or history enters it. (Its values are nevertheless compared wherever P17's workloads call it.)",
}
m = dict(version=1, setup_cmd="python3 tools/build.py",
  checks=[dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + p,
    evidence_file="evidence/%s.json" % p, technique=N[p][0], level=C.LEVEL[p], level_note=N[p][1]) for p in sorted(N)],
  not_applicable=[dict(property=p, reason=NA[p]) for p in sorted(NA)],
  notes="One process per run: the library is compiled from /repo's working tree with coverage callbacks as yield points and its heap and stream symbols redirected by objcopy, so no hook in /repo is needed. `python3 tools/check.py replay FILE` rebuilds and replays a violation. known-findings.txt lists repaired defects.")
json.dump(m, open(os.path.join(C.VERIF, "MANIFEST.json"), "w"), indent=1); open(os.path.join(C.VERIF, "MANIFEST.json"), "a").write("\n")
