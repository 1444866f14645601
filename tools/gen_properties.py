"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O, CR, U, R, CM, L, P, I, B = ("src/nvector/objects.py", "src/nvector/core.py", "src/nvector/util.py",
                               "src/nvector/rotation.py", "src/nvector/_common.py", "src/nvector/license.py",
                               "src/nvector/plot.py", "src/nvector/__init__.py", "build_package.py")
props = []


def P_(id_, title, statement, over, text, why, files, mech, state=(), observe=()):
    props.append(dict(id=id_, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=list(files),
                                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   mechanism=[dict(name=a, where=b) for a, b in mech],
                                   observe_at=list(observe), hook_needed=None)))


P_("C01", "Concurrent calls on shared positions, frames and arrays do not interfere",
   "When several threads use the library at the same time, on the same or on different frames, positions, paths and "
   "arrays, and none of them assigns to those objects, every call returns exactly what it returns when it is made alone "
   "in a fresh process (the same values, the same exception type, the same warning categories). "
   "This holds however the threads are interleaved, down to a switch between any two steps inside a call.",
   ["schedules", "inputs"],
   "all interleavings of 2-4 threads, each making 1-4 calls of any public function, constructor, method, property or operator on a shared world",
   "The test suite is single threaded: not one of its 111 tests starts a thread, so no interleaving is ever sampled.",
   [O, CR, U, R],
   [("no shared mutable scratch state: every intermediate is a fresh array", U), ("all queries computed from attributes on each call", O)],
   [("E_ROTATION_MATRIX", "the module-level axis matrices shared by all frames", R), ("ELLIPSOID/ELLIPSOID_IX", "module-level ellipsoid tables", U)],
   ["return value, exception type and warnings of each call"])

P_("C02", "In-place normalisation of an n-vector object is atomic",
   "Nvector.unit() switches the object from its old normal to the unit normal in one step: a thread that uses the object concurrently "
   "gets an answer for the complete old or the complete new normal, in an order consistent with the calls' real-time order, and an "
   "interrupted or failed unit() leaves one of the two. "
   "The array the object was built from, and every other object built from that array, keep their values.",
   ["schedules", "fault_sequences"],
   "all interleavings of 1-2 normalising threads and 1-3 reading threads; all interrupt points and allocation failures inside unit()",
   "The one test that reaches Nvector.unit() calls it alone and looks only at the final value.",
   [O, U], [("unit() computes a fresh array and rebinds the attribute once", O)],
   [("Nvector.normal", "the stored n-vector", O)], ["Nvector.normal and every query on the object"])

P_("C03", "A failed or interrupted call leaves nothing behind and is never silently wrong",
   "If a call is cut short at any point - an interrupt, a timeout raised by a signal handler, a failed memory allocation, a failing dependency, "
   "an exhausted stack, floating-point errors or warnings turned into exceptions - it either raises or returns the correct answer, and an interrupt always reaches the caller. "
   "Afterwards the caller's objects and arrays are unchanged (an in-place normalisation is either fully done or not done) and "
   "repeating that call, or making any other call, at once or concurrently in another thread, gives the answer a fresh process gives.",
   ["fault_sequences", "crash_points", "inputs"],
   "every public call, every legal interruption point inside it, every allocation it makes, every dependency call it makes, alone or while other threads are in calls",
   "No test injects a fault; the failing paths the tests reach are two ValueErrors and two NotImplementedErrors.",
   [O, CR, U, R], [("compute-then-assign style; no partially updated state", O), ("no try/except that hides failures apart from AttributeError in ==", O)],
   observe=["outcome of the failed call, of the retry and of follow-up calls; state of objects and arguments"])

P_("C04", "Calls neither disturb nor depend on ambient process state",
   "A call leaves the process as it found it, not even changing it temporarily in a way another thread can see: floating-point error handling, warning filters, print options, "
   "random-number state, recursion limit, decimal context, locale, environment, working directory, signal handlers, garbage-collector settings, files and standard streams. "
   "Its value is the same whatever those settings are (short of settings that turn warnings or floating-point errors into exceptions) and whatever the clock, the thread, the hash seed or the optimisation mode.",
   ["configurations", "schedules", "inputs"],
   "every public call, in every sampled ambient configuration, observed at every step and after the call",
   "The tests run in one ambient configuration (pytest's) and never compare the process state before and after.",
   [O, CR, U, R, CM, L], [("pure computation; warnings issued through the warnings module only", U)],
   observe=["process-wide settings at every scheduling point; value of each call"])

P_("C05", "An answer depends only on current values, never on the history of the process",
   "After any history of building, using, failing, garbage-collecting, copying and editing objects (assigning their public attributes or editing their arrays in place), "
   "every query on an object or function returns what a freshly started process returns for the current public values of its operands. "
   "In particular no answer is stale after an edit, and no answer is shared between different frames, ellipsoids, axes orientations or equal-looking arguments.",
   ["histories", "inputs"],
   "all histories of up to about 25 steps over a pool of deliberately similar frames, positions, paths and arrays",
   "Each test builds its objects afresh and asks once or twice; edit-then-ask-again histories and look-alike operands are not sampled.",
   [O, CR, U, R], [("every query is computed from the public attributes at the time of the call; nothing is memoised", O)],
   [("public attributes of FrameE, GeoPoint, Nvector, Pvector, ECEFvector, FrameN/L/B, GeoPath", "the whole state of an object", O)],
   ["return value of every query"])

P_("C06", "Calls leave their arguments alone and hand out results that are the caller's own",
   "No function, constructor, property, operator or method other than Nvector.unit() changes the value, shape, type or writability of an array, list or object passed to it. "
   "An array returned by a function of the functional interface shares no memory with its arguments or with the library: writing into any returned array or into a frame's rotation matrix "
   "never changes an argument of such a function, nor any later answer the library gives to anyone for other objects.",
   ["histories", "inputs", "schedules"],
   "every public call, every argument layout (contiguous, strided, read-only, list, scalar), followed by writes into everything the caller received",
   "The tests compare returned numbers only; none checks its inputs after the call or writes into a result and asks again.",
   [O, CR, U, R], [("functions build fresh arrays", CR), ("E_rotation hands out the axis matrix", R)],
   [("E_ROTATION_MATRIX", "the axis matrices behind every frame", R)],
   ["argument bytes and flags; numpy.shares_memory; later answers"])

P_("C07", "Every call makes progress by itself",
   "A call finishes within a bounded number of its own steps whatever the rest of the process does: other threads stalled forever inside calls, killed by an exception inside a call, "
   "the call being re-entered from a signal handler at any point, or the process being forked while other threads are inside calls. "
   "No call ever waits for another call, and re-entered, forked and surviving calls return the right answers.",
   ["schedules", "crash_points"],
   "all points at which other calls can be stalled, killed, re-entered or forked",
   "Tests have no threads, no signal handlers and no forks.",
   [O, CR, U, R], [("lock-free: the library holds no locks and keeps no shared mutable state", O)],
   observe=["completion and value of each call under stalled, re-entered and forked peers"])

P_("C08", "Checkpointed objects survive a crash and restart, and copies are independent",
   "Every frame, position, vector, path and local frame can be pickled with any protocol, copied and deep-copied at any point of its history, and what is restored in a new process "
   "(with another hash seed) has the same type and public values, compares equal, and answers every query the same. "
   "A restored or deep-copied object shares nothing with its original: editing one never changes the other, and checkpointing never changes the object or disturbs calls in progress.",
   ["crash_points", "histories", "inputs"],
   "any history, a checkpoint at any point of it (also inside concurrent calls), pickle protocols 0-5, copy and deepcopy",
   "No test pickles or copies an object, and no test spans two processes.",
   [O], [("objects are plain attribute holders with no unpicklable or identity-keyed state", O)],
   observe=["restored objects' attributes, equality and query results in the restarted process"])

P_("C09", "Importing the package is all-or-nothing, repeatable and correctly dated",
   "If importing the package fails part-way (an interrupt, a dependency that cannot be loaded or an import that another thread is making), the failure reaches the importer and a later import "
   "that meets no fault gives the complete, working public interface, identical to that of an undisturbed import and the same for every importing thread. "
   "The copyright range shown in the documentation ends with the year of the system clock at import; importing changes no ambient process state, emits no warning and works under any optimisation level, warning filter and other setting of the program.",
   ["fault_sequences", "crash_points", "schedules", "configurations"],
   "every interruption point and every dependency load during import, every clock value, optimisation levels 0-2, import from several threads",
   "The tests import once, undisturbed, under the real clock and without -OO.",
   [I, L, CM, O, CR, U, R], [("module-level code computes docstrings and summaries on import", CM), ("licence year is read from the clock", L)],
   observe=["public names, docstrings and sample answers after the import; import exception"])

P_("C10", "The plotting helper works without the optional mapping library",
   "When the optional mapping library is missing or fails to load (at whatever point of its own import), the plotting module still imports, computes and prints the same mean position and draws the same points, "
   "in its own new figure and without touching other figures or other global plotting state; when the library loads it is used. "
   "A failed attempt does not stop a later attempt in the same process from working.",
   ["fault_sequences", "configurations"],
   "every failure point of the optional import, and figure/backends state left by other code",
   "Tests run with the library installed; the fallback is never executed.",
   [P], [("try/except around the optional import", P)], observe=["printed text, drawn artists, figure numbers"])

P_("C11", "Release tooling updates files all-or-nothing",
   "Setting the version, refreshing the licence and regenerating the readme leave each file they touch either exactly as it was or completely updated, at every instant and "
   "however they are cut short: killed, out of disk space, or failing writes. "
   "Running the tool again after the fault gives the same files as an undisturbed run (a scratch file of a run that was killed or interrupted may remain beside them).",
   ["crash_points", "fault_sequences"],
   "every write, flush, close, replace and kill point in the tool's file updates",
   "The tool has no tests; a crash or full disk is not something a unit test samples.",
   [B], [("in-place rewrite of source files", B)], observe=["bytes of each file after the fault and after the re-run"])

P_("C12", "Release tooling stays inside its own build products",
   "Building a release deletes the project's own dist, build, egg-info and documentation build folders (never anything a symbolic link of that name leads to) and nothing else, changes no other file but the readme, the licence and the version, "
   "starts its sub-commands inside the project, writes nothing outside it, and always returns to the working directory it started from, "
   "whichever of its sub-commands, deletions or file updates fail.",
   ["fault_sequences", "crash_points"],
   "every state of the build folders, every start directory, and every failure or interruption of a sub-command, deletion, directory change or file update during the tool's run",
   "The tool has no tests, and running it for real deletes folders and calls external programs.",
   [B], [("chdir/rmtree/subprocess calls with fixed targets", B)], observe=["set of files, current directory, recorded calls"])

P_("C13", "A reconstructed track depends on the fixes received, not on how they arrived",
   "For time stamps that differ by more than rounding errors, the interpolated track (n-vector and depth) is the same for every arrival order of the same fixes (smoothed or not), passes exactly through the received fixes at their times, "
   "lies on the normalised straight line between the two neighbouring fixes for linear interpolation, follows the documented spline, step or nearest-neighbour rule and Savitzky-Golay filter applied to the fixes in order of time for the other kinds and with smoothing, is unit length, and is NaN, never a guess, outside the received time span. "
   "Losing, delaying or reordering fixes changes the linear track only between the fixes next to the lost ones, a corrupted (NaN) fix spoils only the linear track between its neighbours, and without smoothing a duplicated fix never yields a value that differs from the track without the duplicate (it may give NaN at the duplicated time, or an error).",
   ["fault_sequences", "inputs"],
   "all loss, duplication, delay, reordering and corruption patterns of a feed of 2-25 fixes, all interpolation kinds and smoothing settings",
   "Tests interpolate one sorted, complete, equidistant track.",
   [CR, O], [("interp1d with bounds_error=False, then normalisation with NaN for zero vectors", CR)],
   observe=["interpolated normals and depths"])

P_("C14", "A corrupted sample spoils only its own result",
   "In a batch of positions, vectors, angles, distances or depths, replacing some entries by corrupted ones (NaN, infinite, zero or out-of-range values) leaves the results for all the other entries as they were (to rounding: as if each were computed alone), "
   "and the batch still yields one result per entry, in order. "
   "A corrupted (NaN) entry never yields a number that could be mistaken for a valid position.",
   ["fault_sequences", "inputs"],
   "all placements and kinds of corruption in batches of 2-40 entries, for every function and method that maps entries to entries",
   "Tests use clean batches, at most one special entry, and mostly batches of one.",
   [CR, O, U, R], [("elementwise numpy expressions along the last axis", CR)],
   observe=["per-entry results with and without the corruption"])

# ----------------------------------------------------------------- not applicable to this technique
NA = "A pure function of its input with no schedule, clock, fault, I/O or history in it."


def N_(id_, title, statement, text, why, files, mech):
    P_(id_, title, statement, ["inputs"], text, why, files, mech)


N_("C15", "Latitude/longitude and n-vector are inverse to each other",
   "For every latitude in [-90, 90] deg and longitude, converting to n-vector and back returns the same position (longitude modulo 360 deg, free at the poles), for every E-frame axes orientation, and the n-vector has unit length.",
   "all latitudes, longitudes and axes", "Tests sample a handful of points.", [CR, R], [("lat_lon2n_E / n_E2lat_lon", CR)])
N_("C16", "n-vector with depth and Cartesian position are inverse to each other",
   "For every ellipsoid and every position not near the centre of the Earth, converting n-vector and depth to the Cartesian ECEF vector and back returns the same n-vector and depth to sub-micrometre accuracy.",
   "all positions, depths, ellipsoids, axes", "Tests sample a handful of points.", [CR, O], [("n_EB_E2p_EB_E / p_EB_E2n_EB_E", CR)])
N_("C17", "Surface distances are metrics and mutually consistent",
   "Great-circle and Euclidean distances are non-negative, symmetric, zero only for equal positions, satisfy the triangle inequality, scale with the radius, and chord <= arc; they are accurate for tiny and nearly antipodal separations.",
   "all pairs and triples of positions", "Tests sample a handful of pairs.", [CR, O], [("great_circle_distance, euclidean_distance", CR)])
N_("C18", "Direct and inverse geodesic solutions agree",
   "Displacing a position by the distance and azimuth computed to another position reaches that position, on the ellipsoid and on the great circle, in degrees or radians, at any depth.",
   "all pairs of positions, ellipsoids, depths", "Tests sample a handful of pairs.", [O, CR], [("FrameE.direct/inverse, displace, distance_and_azimuth", O)])
N_("C19", "Rotation matrices are proper rotations and round trip with angles",
   "Every rotation matrix produced is orthonormal with determinant +1, and converting Euler angles or n-vector and wander azimuth to a matrix and back returns the same orientation, including at the poles and at gimbal lock.",
   "all angles and n-vectors", "Tests sample a handful of angles.", [R], [("xyz2R, zyx2R, R2xyz, R2zyx, n_E2R_EN, n_E_and_wa2R_EL", R)])
N_("C20", "Delta vectors between positions are consistent across frames",
   "The delta vector between two positions has the same length in the E, N, L and B frames, negates when the positions are exchanged, adds up along a chain, and changing frame and back is the identity.",
   "all pairs of positions and all local frames", "Tests sample a handful of pairs.", [O, CR], [("delta_E/N/L, change_frame", O)])
N_("C21", "Great-circle geometry is coherent",
   "The closest point on a great circle lies on it at the reported cross-track distance, intersections lie on both circles, and a point reported to be on a path lies on its circle between its ends.",
   "all paths and points", "Tests sample a handful of paths.", [CR, O], [("cross_track_distance, closest_point_on_great_circle, intersect, on_great_circle_path", CR)])
N_("C22", "Equality compares positions and frames by value",
   "Equality is reflexive and symmetric, ignores whole turns of longitude, distinguishes positions on different ellipsoids or axes, and inequality is its negation.",
   "all pairs of objects", "Tests sample a handful of pairs.", [O, U], [("_is_equal_to, isclose", O)])
N_("C23", "Results do not depend on the axes orientation chosen for E",
   "Latitudes, longitudes, distances and azimuths of the same physical positions are the same for both orientations of the E-frame axes.",
   "all positions, both axes", "Tests sample a handful of points.", [R, CR, O], [("R_Ee handling", R)])
N_("C24", "Horizontal mean position",
   "The mean position of a set of positions is independent of their order and of rotating the whole set, has unit length, and is the position itself for a single one.",
   "all sets of positions", "Tests sample two sets.", [CR, O], [("mean_horizontal_position, Nvector.mean", CR)])
N_("C25", "Reference ellipsoids are looked up correctly",
   "Every documented ellipsoid name or number, in any case and spacing, yields that ellipsoid's published semi-major axis and flattening, and unknown names are rejected.",
   "all names", "Tests look up one ellipsoid.", [U], [("get_ellipsoid", U)])
N_("C26", "Vectorised calls equal the entry-by-entry calls on clean data",
   "For clean data every vectorised function or method returns, entry by entry, what the same call on the single entry returns (how batches behave when entries are corrupted is C14).",
   "all batches", "Tests sample a handful of batches.", [CR, O, R, U], [("broadcasting along the last axis", CR)])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
