"""Which cases decide which property: PLAN[id] = jobs of (harness, variant, suite)."""


def J(harness, variant, suite, quick, thorough, **kw):
    return dict(harness=harness, variant=variant, suite=suite, n=(quick, thorough), **kw)


PLAN = {
    "K01": [J("unit", "rel", "k01", 20000, 1000000, limit=10), J("unit", "rel", "k01s", 3000, 60000, limit=10)],
    "K02": [J("unit", "rel", "k02", 20000, 1000000, limit=10)],
    "K03": [J("unit", "rel", "k03", 8000, 400000, limit=10)],
    "K04": [J("unit", "rel", "k04", 10000, 300000, limit=20),
            J("unit", "asan", "k04few", 252, 4000, limit=30)],
    "K05": [J("unit", "rel", "k05", 20000, 500000, limit=10),
            J("unit", "asan", "k05few", 60, 600, limit=30)],
    "K06": [J("unit", "rel", "k06", 800, 40000, limit=30), J("unit", "rel", "k06fb", 80, 2000, limit=30),
            J("unit", "asan", "k06few", 90, 2000, limit=60)],
}


def PIPE(rig, nonov, **kw):
    """Whole calibrations on synthetic scenes, watched stage by stage."""
    out = []
    if rig:
        out.append(J("pipe", "hook", "rig", rig, rig * 60, limit=120, **kw))
    if nonov:
        out.append(J("pipe", "hook", "nonov", nonov, nonov * 60, limit=120, **kw))
    return out


PLAN.update({
    "R01": PIPE(140, 0), "R02": PIPE(0, 90), "R03": PIPE(70, 40), "R04": PIPE(70, 40),
    "S01": PIPE(70, 60), "S02": PIPE(70, 40), "S03": PIPE(70, 60),
    "O01": PIPE(70, 40), "O02": PIPE(70, 40),
    "F01": PIPE(70, 30), "F02": PIPE(70, 40), "F03": PIPE(70, 40),
})
PLAN.update({
    "O03": [J("o03", "rel", "o03", 8000, 400000, limit=20)],
    "D01": [J("detect", "rel", "img", 96, 12000, limit=120)],
    "D02": [J("detect", "tsan", "img", 48, 3000, limit=240), J("detect", "rel", "img", 48, 6000, limit=120)],
    "D03": [J("line", "rel", "d03line", 20000, 1000000, limit=10), J("detect", "rel", "img", 96, 12000, limit=120)],
    "D04": [J("saddle", "rel", "d04", 4000, 200000, limit=20), J("saddle", "pat", "d04", 400, 20000, limit=20),
            J("saddle", "asan", "d04", 200, 4000, limit=60), J("detect", "rel", "img", 64, 8000, limit=120)],
})
for _k, _q in (("S01", 40), ("S02", 24), ("S03", 24), ("R03", 24), ("R04", 60), ("O01", 24), ("O02", 16)):
    PLAN[_k].append(J("pipe", "hook", "thin", _q, _q * 60, limit=120))
for _k, _q in (("S01", 48), ("S02", 32), ("S03", 48), ("O01", 16), ("O02", 16), ("F01", 16), ("F02", 24), ("F03", 16)):
    PLAN[_k].append(J("pipe", "hook", "sparse", _q, _q * 60, limit=120))
PLAN["S02"] += [J("detect", "rel", "img", 48, 6000, limit=120)]
PLAN["F01"] += [J("detect", "rel", "img", 64, 6000, limit=120)]
_APPS = [("rel", "app:calibrate"), ("rel", "app:create_charuco_boards")]
PLAN["C01"] = [J("conf", "rel", "conf", 4000, 200000, limit=20), J("conf", "rel", "refuse", 36, 360, limit=60, needs=_APPS),
               J("pipe", "hook", "rig", 49, 3000, limit=120), J("pipe", "hook", "nonov", 49, 3000, limit=120),
               J("pipe", "hook", "sparse", 48, 3000, limit=120)]
PLAN["B01"] = [J("conf", "rel", "boards", 800, 20000, limit=30), J("conf", "rel", "conf", 2000, 50000, limit=20),
               J("conf", "asan", "boards", 80, 2000, limit=120)]
PLAN["E01"] = [J("pipe", "hook", "spoil", 126, 12000, limit=120), J("pipe", "hook", "outweigh", 16, 800, limit=240)]
PLAN["F04"] = [J("pipe", "hook", "shots", 96, 6000, limit=120)]
PLAN["R01"].append(J("photo", "rel", "album", 24, 1500, limit=120))
PLAN["R03"].append(J("photo", "rel", "album", 18, 1500, limit=120))
PLAN["F01"].append(J("photo", "rel", "album", 27, 1500, limit=120))
_TWINS = [("zero", "run"), ("pat", "run")]
PLAN["M02"] = [J("twin", "rel", "twin", 66, 6000, limit=400, needs=_TWINS), J("twin", "rel", "twinpic", 32, 2000, limit=400, needs=_TWINS)]
_ASAN = [("asan", "run"), ("asan", "app:create_charuco_boards")]
PLAN["M01"] = [J("hostile", "rel", "hostile", 136, 12000, limit=300, needs=_ASAN), J("hostile", "rel", "hostilepic", 64, 6000, limit=300, needs=_ASAN),
               J("hostile", "rel", "hostileshots", 24, 2000, limit=300, needs=_ASAN), J("hostile", "rel", "hostileboards", 40, 4000, limit=300, needs=_ASAN),
               J("unit", "asan", "k04few", 126, 2000, limit=30), J("unit", "asan", "k05few", 40, 400, limit=30), J("unit", "asan", "k06few", 60, 1000, limit=60),
               J("saddle", "asan", "d04", 200, 4000, limit=60)]
ASSUME = [
    "OpenCV, Ceres, Eigen and libstdc++ are taken as correct; they are not instrumented",
    "the reference mathematics in harness/ref.hpp is the specification of the camera models and of rigid poses",
]
RULES = {
    "K01": "random poses (angles from 0 over tiny to nearly a half turn, translations over 7 decades, row and column vectors) through every conversion, and random write histories over every pose setter/getter with a model of the store; distinct = conversion class or (store, form, rotation class) seen",
    "K02": "random rotation sets (identical, tight, wide, around a half turn, mixed representations) against an independent eigenvector mean; distinct = (kind, count, base angle) seen",
    "K03": "random weighted multigraphs with up to 24 vertices (integer, 1/n, real, tiny, huge, equal weights; parallel edges, loops, isolated vertices, cleared graphs), all pairs queried against Floyd-Warshall; distinct = (weights, components, edges, vertices, reachability) seen",
    "K04": "random boards, poses, visible subsets and outliers through BoardObs::estimatePose; distinct = (model, points, outliers) class seen",
    "K05": "random points, 2 to 10 viewpoints, a minority of wrong views; distinct = (estimator, views, wrong views, scale) seen",
    "K06": "random rigid links and motions of 4 to 50 poses, exact, noisy, partly corrupted or wholly inconsistent; distinct = (method, size, angle, noise, corruption) class seen",
}
_SC = ("whole calibrations (the calibrate application, in process) of synthetic scenes with known truth: rows, trees and rings of "
       "perspective, fisheye and mixed cameras, one or many boards of different sizes, shuffled numbering, exact and noisy corners; links measured only once or twice, upside-down neighbours, gaps and jumps in the frame numbers; "
       "and non-overlapping groups moving rigidly, some linked by chains, too few frames or not at all; ")
RULES.update({
    "R01": _SC + "final poses and intrinsics against the truth; distinct = (scene kind, sizes, settings, final structure) seen",
    "R02": _SC + "merged and unmerged groups and their poses against the truth; distinct = (scene kind, sizes, settings, final structure) seen",
    "R03": _SC + "board poses, shapes and point indices of every object after each stage; distinct = (scene kind, sizes, settings, structure) seen",
    "R04": _SC + "object, camera and group poses right after they are composed, within the measured error of the pairs; distinct = (scene kind, sizes, settings, structure) seen",
    "S01": _SC + "partitions after each stage against a union-find over the detections; distinct = partition shapes and settings seen",
    "S02": _SC + "every list of detections, frames and images against the fed detections; distinct = (scene kind, sizes, settings) seen",
    "S03": _SC + "every list of object and group observations after each build and merge; distinct = (scene kind, sizes, settings, structure) seen",
    "O01": _SC + "robust cost recomputed by reference formulas before and after every solver call; distinct = (stage, size, improved or not) seen",
    "O02": _SC + "gauge poses and supplied intrinsics after every solver call and in the files; distinct = (scene kind, sizes, settings) seen",
    "F01": _SC + "the saved keypoint file, read back and saved again, against the detections; distinct = (scene kind, sizes, settings) seen",
    "F02": _SC + "every field of the saved camera and object files against the final state, reprojection of the detections from the files alone, intrinsics fed back; distinct = (scene kind, sizes, settings) seen",
    "F03": _SC + "every logged error recomputed by reference formulas, per group, frame and camera, and the average; distinct = (scene kind, sizes, settings) seen",
})
RULES.update({
    "O03": "random poses, boards, cameras and intrinsics through every residual functor, value and each derivative against a reference model and its Richardson-extrapolated difference; distinct = (functor, model, pose class) seen",
    "D01": "folders of rendered pictures (1-3 cameras, boards of mixed sizes, selections, occlusions, noise, damaged and foreign files, several file types) through folder scan and detection, against a detection of our own and the rendered truth; distinct = (verdict, board size, corners, share) seen",
    "D02": "the same folders on eight threads with random delays in reading, under ThreadSanitizer, against each picture on its own and against other schedules; distinct = orders of registration seen",
    "D04": "rendered saddles (any angle, blur, noise, contrast, window), flat and other patches, corners at the border, in lists and alone; and detections in rendered pictures against each corner refined alone; distinct = (saddle class, outcome) and (verdict) seen",
    "D03": "folders of rendered pictures with hidden squares at random shares against the selection rule, and random point sets (lines, noisy lines, blobs, grid subsets) through the line fit against the total-least-squares optimum; distinct = (kind, count, scale) seen",
})
RULES.update({
    "C01": "random configuration files (settings in any order, lists absent, empty or given on their own, selections of boards in any order) against the settings of the calibration they produce, whole calibrations against the effect of the settings (iterations, averaging, hand-eye method), and refused command lines; distinct = (cameras, boards, lists) and refusals seen",
    "B01": "random configurations through the board generator, its pictures in random order through the detection of a calibration with the same configuration; distinct = (boards, selection, lists) seen",
})
RULES["E01"] = _SC + "with up to 15 % of the corners of a view displaced by 20 to 400 pixels (at least four thresholds), and batches of scenes with up to 5 % of the views wholly wrong (mixed-up numbers, random places, another moment); distinct = (scene kind, sizes, settings, structure) seen"
RULES["F04"] = _SC + "each detection backed by a picture of its own, some missing or damaged, any combination of the two image options; every block of every written picture away from marks against its input, every corner and reprojection against its mark; distinct = (option, marks, scene kind) seen"
RULES["M02"] = "random scenes (also sparse, with cameras that saw little, views of few or of random corners) and rendered picture folders, calibrated in builds with zeroed and with patterned stack and heap and after another calibration in the same process, random draws fixed, every output file compared byte for byte; distinct = (scene kind, sizes, settings) seen"
RULES["M01"] = "the calibrate application and the board generator, built with AddressSanitizer, UBSan and container preconditions, in processes of their own on damaged input: keypoint files (missing, short, unequal, repeated, unsorted, out-of-range, non-finite, collapsed), settings (lists too short, missing, odd), intrinsics (missing, cut, other types and models), files cut off or scrambled, picture folders (missing, empty, unreadable, tiny, cut, other formats and boards), annotated pictures of other sizes; and the geometry and refinement functions on tiny inputs; distinct = (what was damaged) seen"
TECH = {
    "K01": "runtime monitor: differential oracle and store model over random pose histories",
    "K02": "runtime monitor: independent chordal-mean oracle on random rotation sets",
    "K03": "runtime monitor: Floyd-Warshall reference oracle on random multigraphs, hang watchdog",
    "K04": "runtime monitor with known truth on contaminated views; ASan/UBSan on small inputs",
    "K05": "runtime monitor with known truth on contaminated tracks; ASan/UBSan on few views",
    "K06": "runtime monitor with known truth on random motions; ASan/UBSan on few poses",
}
TECH.update({k: "runtime monitor on whole calibrations of scenes with known truth" for k in ("R01", "R02", "R03", "R04")})
TECH.update({k: "runtime monitor: reference model of the bookkeeping checked after every stage" for k in ("S01", "S02", "S03")})
TECH.update({k: "runtime monitor on every solver call: state and independently recomputed cost" for k in ("O01", "O02")})
TECH.update({k: "runtime monitor: saved files against the observed final state and reference formulas" for k in ("F01", "F02", "F03")})
TECH.update({
    "O03": "runtime monitor: reference camera model as differential oracle for residuals and derivatives",
    "D01": "runtime monitor: own detection plus rendered truth as oracle",
    "D02": "ThreadSanitizer and schedule perturbation; one-by-one run of the same code as oracle",
    "D04": "runtime monitor on rendered saddles and pictures; pattern-initialised stack and ASan/UBSan builds",
    "D03": "runtime monitor: selection rule on own detections, total-least-squares oracle on random point sets",
})
TECH.update({
    "C01": "runtime monitor: a model of the documented settings against what the running calibration uses",
    "B01": "runtime monitor: print with the generator, read back with the detection; ASan/UBSan build",
})
TECH["F04"] = "runtime monitor: coded pictures, written pictures against inputs and observed final state"
TECH["M02"] = "differential execution: stack and heap initialisation varied by the compiler and allocator, byte comparison of all outputs"
TECH["M01"] = "AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ and OpenCV precondition checks on whole applications under hostile input"
TECH["E01"] = "runtime monitor: known truth and known outliers in whole calibrations"
_N = "Holds on every execution explored (seeded random workloads, counts in the evidence); trusts OpenCV, Ceres and the reference formulas of harness/ref.hpp. "
NOTE = {k: _N for k in PLAN}
NA = {}
