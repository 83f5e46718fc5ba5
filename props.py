"""Per-property parameters of check.py."""
PROPS = {}


def P(pid, sources, rule, bounds, bounds_thorough=None, level="model_checking", assumptions=(), **kw):
    d = dict(sources=[sources] if isinstance(sources, str) else list(sources), rule=rule, bounds=bounds, level=level,
             assumptions=list(assumptions), **kw)
    if kw.get("flavour") != "sched":
        d["sources"].append("mc_main.cpp")
    if bounds_thorough:
        d["bounds_thorough"] = bounds_thorough
    PROPS[pid] = d


P("C01", "C01.cpp",
  "every knot vector of the bounded alphabet is one state; every query on it is compared with the definition",
  "clamped vectors degree 1-4, <=3 interior values from two grids, every multiplicity; all non-decreasing sequences of length 1-10 "
  "over 5 values; arbitrary sequences of length 0-5 over 6 values incl. NaN",
  "degree 1-5, <=4 interior values")
P("C02", "C02.cpp",
  "every candidate value sequence / pair list / uniform request, and every edit sequence of insert and reverse (states: distinct knot vectors)",
  "sequences of length 0-6 over 7 values incl. NaN; 0-4 pairs x multiplicity 0-3; uniform degree 0-12 x 0-40 interior knots; up to 300 copies; edit histories of depth 3 (7 values, 0-3 copies)",
  "sequences of length 0-7, 0-5 pairs, edit depth 4")
P("C03", "C03.cpp",
  "every clamped knot vector of the alphabet is a state; all basis entry points at knots, both sides of knots and inside every span are compared with the recursive definition in long double",
  "degree 1-6, <=3 interior values (2 at degree 6) with every multiplicity from three grids, orders 0..degree+2; degree 6-12 with <=3 simple knots",
  "degree 1-7, <=3 interior values; degree 6-12 with <=3 simple knots")
P("C04", "C04.cpp",
  "every (degree, knot vector, weight style, point style) and every weight assignment on small curves is a state; evaluated at knots, both sides of knots and inside spans against the long double definition",
  "degree 1-5, <=3 interior values with every multiplicity, 2 grids, 7 weight styles x 6 point styles; all weight assignments from 4 values on <=6 points",
  "degree 1-6, <=3 interior values at every degree")
P("C05", "C05.cpp",
  "as C04; all derivative orders 0..degree+2 by both entry points against power-series division of the exact homogeneous derivatives",
  "degree 1-4, <=2 interior values with every multiplicity, 2 grids, 7 weight styles x 6 point styles; degree 5-8 single knots; orders up to 36",
  "degree 1-6, <=3 interior values; degree 5-11")
P("C06", "C06.cpp",
  "every (degrees, knot vectors, style) and every weight assignment on small grids is a state; evaluated over the product of parameter sets against the long double definition",
  "degrees 1-3 x 1-3, <=2 interior values with every multiplicity in u, <=1 in v, 7 styles; neighbours of one interior knot of every multiplicity for degrees 1-4; all weight assignments from 3 values on 2x2..3x3 grids",
  "<=2 interior values in both directions")
P("C07", "C07.cpp",
  "as C06; all partials up to (degree+1, degree+1) in tables of every shape and singly, against two-variable power-series division",
  "degrees 1-3 x 1-3, <=1 interior value (every multiplicity) per direction, 7 styles; orders up to degree+2 for degrees 1-4, and 35x1, 1x35, 18x18; all weight assignments from 3 values on 2x2 and 3x2 grids",
  "<=2 interior values per direction; degrees up to 5")
P("C08", "C08.cpp",
  "every (curve, inserted value, times) and (curve, ordered insertion list) is executed on the real code in all forms; knots, counts and the long double evaluation of the result are compared with the operand",
  "degree 1-5, <=3 interior values with every multiplicity, 7 styles, every existing knot and 4 new values, times 0..room; all ordered lists of length <=4 over 5 values for degree 1-3",
  "degree 1-6; lists of length <=5 for degree 1-4")
P("C09", "C09.cpp",
  "as C08, per direction, with the other direction required unchanged",
  "degrees 1-3 x 1-3, <=2 interior u values and <=1 v value with every multiplicity, 5 styles, 5 values, times 0..room, both directions; all ordered lists of length <=3 over 4 values for degrees 1-2",
  "degrees 1-4; lists of length <=4")
P("C12", "C12.cpp",
  "every (curve, times) is executed; degree, exact knot vector and long double evaluation of the result compared with the operand",
  "degree 1-5, <=3 interior values with every multiplicity, 2 grids, 7 styles, elevation by 1-4, and by up to 36; up to 8 spans with every simple/full multiplicity pattern, degree 1-3",
  "degree 1-6, elevation by 1-5, up to 10 spans")
P("C13", "C13.cpp",
  "every (surface, direction, times) is executed; degrees, exact knot vectors, grid size and long double evaluation compared with the operand",
  "degrees 1-3 x 1-3, <=2 interior values with every multiplicity in both directions, 5 styles, both directions, elevation by 1-3, and by up to 34",
  "degrees 1-4")
P("C10", "C10.cpp",
  "every (curve, knot, request, tolerance); three families: knots inserted by the reference model (must come out), original knots and non-knots (honesty), inserted knots with one control point disturbed (borderline tolerance)",
  "degree 1-4, <=3 interior values with every multiplicity, 7 styles, requests 1..multiplicity+2, 4-6 tolerances, 5 disturbances at every control point; disturbed weights (3 sizes at every control point) of 25 styles with tolerances 0.5 to 1000 times the disturbance",
  "degree 1-5",
  assumptions=["distinct knots are more than 1e-6 apart (the library's own tolerance)", "interior multiplicity <= degree", "deviation allowed: the tolerance per removal, plus rounding"])
P("C11", "C11.cpp",
  "as C10, per direction, with the other direction required unchanged and removal all-or-nothing over the rows",
  "degrees 1-3 x 1-3, <=1 interior value per direction with every multiplicity, 5 styles, requests 1..multiplicity+2, 3-4 tolerances, 3 disturbances at every control point; disturbed weights or coordinates of 25 styles with tolerances 0.5 to 1000 times the disturbance",
  "<=2 interior values per direction",
  assumptions=["distinct knots are more than 1e-6 apart (the library's own tolerance)", "interior multiplicity <= degree", "deviation allowed: the tolerance per removal, plus rounding"])
P("C14", "C14.cpp",
  "depth-first search over all edit sequences from every start object; a state is the complete object, states already expanded with the same remaining depth are not expanded again; invariants and shape checked in every state",
  "curves: degree 1-3, <=2 interior values, 3 styles, all sequences of <=4 of 6 operations with arguments; surfaces: degrees 1-2 x 1-3, all sequences of <=3",
  "curve depth 5, surface depth 4", technique="explicit-state search over operation histories of the real objects")
P("C15", "C15.cpp",
  "every (object, format, medium, prior state of the receiver) is saved and loaded by the real code and compared bit for bit; all load histories",
  "curves degree 1-3 and surfaces 1-2 x 1-3 with <=2 interior values, 6-42 styles; every coordinate position x 13 extreme values (and pairs); 8x8 awkward knot values; receivers: fresh, larger, smaller, inconsistent, after a failed load; load histories of length <=4; unfinished objects (no points, no knots, no degree); 17 degrees up to the largest int",
  "curves degree 1-5, surfaces 1-3 x 1-3, histories of length 5", technique="exhaustive enumeration of objects and load histories on the real code")
P("C16", "C16.cpp",
  "one fault per execution at every possible byte position; a case is (object, format, fault kind, position), all distinct by construction",
  "3 curves and 3 surfaces; write failure after every byte count 0..size on a direct and on a buffered device, text and binary; truncation of binary files at every length, stream and file, fresh and used receiver; full device, missing and unsuitable paths; streams with and without exceptions enabled; real files limited to every size from 0 bytes up, 4 curves and 3 surfaces of up to 24 KB; single knot vectors and points, written and read with every cut",
  level="fault_enumeration", technique="exhaustive fault-point enumeration on the real code")
P("C17", "C17.cpp",
  "every layout of a document (product of all layout options) is loaded and compared bit for bit; every single defect at every position, in several layouts, must be refused; a state is a distinct document",
  "3 curves and 3 surfaces; all section orders (3!, 5!) x blank lines x indentation x line ends x inline x line breaks x trailing commas x final newline x number form x key spacing; breaks before commas; blanks and tabs of any length; defects: 21 headers, section lines without star or colon, leading content, unknown/renamed sections, 12 junk words at every token, incomplete points, degree lines, grid dimensions -4..6 and overflowing, negative binary counts",
  "defects in all 120 surface section orders", technique="exhaustive enumeration of documents and defect positions on the real parser")
P("C18", "C18.cpp",
  "every (degree, knot vector, style) is executed; segment count, degrees, knots and the long double evaluation of each segment compared with the curve on the mapped span",
  "degree 1-5, <=3 interior values with every multiplicity, 2 grids, 8 styles; up to 9 spans even and uneven with every simple/full multiplicity pattern, degree 1-4",
  "degree 1-6, up to 12 spans")
P("C19", "C19.cpp",
  "every curve of the alphabet x 5 tolerances is boxed by the real code and compared with the extrema of the long double reference (dense sampling per span and golden section refinement of every local extremum)",
  "degree 1-5, <=2 interior values with every multiplicity, 8 styles; every assignment of 4 lattice points to the control points of single-span curves of degree 1-3 with 4 weight patterns; arcs of 1-4 quadrants in 3 planes, 3 radii",
  "degree 1-6")
P("C20", "C20.cpp",
  "explicit-state search over all expansion sequences, state = the six bounds; every query compared with the set in every state",
  "49 corner pairs, all sequences of <=3 of 57 expansions (7 points, 49 boxes, itself)",
  "sequences of <=4", technique="explicit-state search over operation histories of the real object")
P("C21", "C21.cpp",
  "every (curve, target, start, tolerance, limit) of the alphabet is searched by the real code; the point of the returned parameter is compared with the target in long double",
  "straight curves of degree 1-5 with 1-5 spans, 5 directions, sizes 1-100; arches of 4 kinds x 6 heights x 3 apexes; 12 targets x 8 starts x 3 tolerances; rational arcs and segments (bisection); any curve of degree 1-4 with <=2 interior values x 42 styles x 5 points in space x limits 0-512 for termination and range",
  "degree 1-6, 6 spans", flavour="fast")
P("C22", "C22.cpp",
  "every (surface, target, start, direction, tolerance, limit) of the alphabet is searched by the real code; the point of the returned parameters is compared with the target in long double",
  "rectangles (sizes 1 and 100) and a unit parallelogram of degrees 1-3 x 1-3 with 1-3 spans, 4 frames; bulging patches of degrees 2-3, 3 heights; 36 targets x 25 starts (5 for the isoparametric searches) x 3 tolerances, both fixed directions; any surface of degrees 1-2 x 1-3, 6 styles x 4 points in space x limits 0-512 for termination and range",
  "sizes 1, 10, 100; every start with every tolerance", flavour="fast")
P("C23", "C23.cpp",
  "every (surface, pair of axes) is aligned by the real code; the result must equal one of the eight swap/flip images of the operand, and for axis-directed patches run along the requested axes",
  "degrees 1-2 x 1-3 with <=1 interior value per direction (every multiplicity), 6 direction pairs x 4 orientations x 3 tilts x 2 lengths x 2 origins x 3 weight styles, all 9 axis pairs; evenly spaced and nearly symmetric knots with every multiplicity pattern (<=3 interior values, degree 1-3); arbitrary and collapsed surfaces of 6 styles",
  "degrees 1-3, <=2 interior values")
P("C24", "C24.cpp",
  "explicit-state search over all operation sequences on the real grid against a two-dimensional model; a state is the complete model content; every read compared in every state; four element types",
  "start shapes up to 3x3 (2x2 for class types), all sequences of <=3 operations (writes, row/column set and get, row/column insertion at every position with a new, omitted or aliased fill value, self-copies); grids up to 7x7 with every single insertion and aliased fill; 10 larger sizes up to 260x260",
  "start shapes up to 4x4 (3x3), sequences of <=4; grids up to 10x10", technique="explicit-state search over operation histories of the real object against a model run in lock step")
P("C25", "C25.cpp",
  "every (degree, count, end points) and (degrees, counts, frame) is built by the real code and compared with the exact shape",
  "segments: degree 1-9, 1-14 spans, 49 end point pairs; rectangles: degrees 1-4 x 1-4, 1-4 spans each, 5 frames",
  "segments: degree 1-12, 1-30 spans; rectangles: degrees 1-5")
P("C26", "C26.cpp",
  "every (object, matrix) and pair of matrices is applied by the real code; control points, weights and long double evaluation compared",
  "curves of degree 1-3 with <=2 interior values, 143 styles; surfaces of degrees 1-2 x 1-3, 22 styles; 48 matrices (identity, rotations, reflection, shear, singular, nearly the identity down to 1e-12, 1e-20 and 1e20, all single-entry ones), compositions with 5",
  "compositions of all pairs")
P("C28", "C28.cpp",
  "every argument of the finite domain (factorial, binomial) and of the value alphabets (comparison, homogeneous conversion)",
  "Factorial 0-9; Binomial n<=50, k<=55; 19x19 scalar pairs x 6 tolerances; 9 differences in every component of 3- and 4-vectors; 343 points x 8 weights")
P("C30", "C30.cpp",
  "every object of the alphabet is saved and compared byte for byte with an independent binary encoder and read by an independent text reader; files of an independent writer are loaded and compared bit for bit",
  "curves of degree 1-4 with <=2 interior values x 42 styles; surfaces of degrees 1-3 x 1-3, 6 styles; 13 extreme values in every coordinate; counts up to 1000; streams and files, overwriting longer and shorter files",
  "curves of degree 1-5, surfaces of degrees 1-4 x 1-3", technique="exhaustive enumeration of objects against an independent codec (the format model)")
P("C29", "C29.cpp",
  "all sequences of actions on two objects; each history runs in a process of its own and every result is compared bit for bit with what a fresh process returns for the same contents; a state is the contents of both objects",
  "two curves, two surfaces, and a curve with a surface; 18 curve and 20 surface operations, in-place changes of points, weights and knots, exchange of points, 6 look-alike contents, destruction and rebuilding, copies, derived objects; all sequences of length 3 ending in a call; every pair of an action and a call repeated 40 times; walks through the whole alphabet with every stride (about 340 actions); 9 call groups with 257 arguments forwards and backwards",
  "sequences of length 4 for equal kinds; pairs repeated 150 times; 1025 arguments", technique="exhaustive enumeration of call histories on the real code, one process per history", flavour="fast")
P("C27", ["C27.cpp", "C27_rt.cpp", "mc_main.cpp"],
  "each combination of thread programs is executed on the real code under a controlled scheduler, every schedule in a process of its own; scheduling points are all synchronisation operations, call boundaries and thread ends; all memory accesses of the library (compiler instrumentation) are checked for happens-before races, so that a race free execution stands for every interleaving of its plain accesses; results compared bit for bit with the call run alone; a state is a distinct synchronisation trace",
  "2 objects (rational and not), 18 curve and 20 surface operations: every pair of operations (two calls per thread, equal and different arguments) with <=2 preemptions, every two calls against every third with <=1, every triple on three threads with <=1; at most 60 / 8 / 10 schedules per combination (reached only if the code synchronises)",
  "<=3 preemptions for pairs, <=2 for mixes and triples; at most 2000 / 200 / 300 schedules per combination",
  technique="stateless schedule exploration of the real code with preemption bound and happens-before race detection",
  instrumented=["C27_ops.cpp"], flavour="sched",
  assumptions=["memory touched only inside precompiled libc++/libc code is not watched", "sequential consistency between synchronisation operations (a race free program cannot tell)"])
P("C31", "C31.cpp",
  "every (object, operation, argument) of the bounded alphabet is executed four times on the real code, with fresh heap and stack memory holding different garbage, under ASan, UBSan, hardened containers and live assertions",
  "curves of degree 1-4 with <=2 interior values (every multiplicity), 3 styles, 12 operation groups with every argument (all insertions up to full multiplicity, removals of every knot and of non-knots with 3 tolerances and up to 1000 times, elevation by 1-6, derivative orders up to degree+3, searches with limits 0-50); surfaces of degrees 1-3 x 1-3, 2 styles, 12 operation groups, both directions; collapsed objects; builders",
  "degree 1-5, <=2 interior values in both directions", technique="exhaustive enumeration of calls on the real code under sanitizers, differential over memory contents", wrap=["malloc"], asan="detect_stack_use_after_return=0")
P("C32", "C32.cpp", "every sequence of items is written to one stream and read back from it by the real code; a state is the sequence with its medium and surroundings",
  "all sequences of <=5 of 8 items (2 curves, 2 surfaces, 2 knot vectors, 2 points); up to length 3 on string streams, output/input files and one read-write file, after 0, 1 or 13 foreign bytes, receivers new or reused; pairs of items of 15 x 15 sizes; all schedules of 7 writes and reads of one stream (memory, and pipes that deliver 1, 7 or 4096 bytes); the text form after every sequence of <=3 text objects and other data",
  "sequences of <=6", technique="exhaustive enumeration of item sequences on the real code against an independent encoder")
P("C33", "C33.cpp", "every (object, global locale, stream locale, stream formatting, form, direction) is saved or loaded by the real code; bytes, object and formatting left on the stream are compared with those of a plain stream in the classic locale",
  "20 curves (degree 1-12, 2-53 points) and 30 surfaces (up to 1012 points in one direction); 6 global locales x 6 stream locales (decimal comma, digit grouping of three kinds) x 20 stream formattings (base, sign, case, width up to 100000, fill, adjustment, precision, float form, whitespace, buffering, exceptions), text and binary, streams and files",
  "as quick, up to 1202 points in one direction", technique="exhaustive enumeration of surroundings on the real code, differential against the classic locale")

# larger members added to the small alphabets: [spans of the many-span family, smallest gap of the close-knot family, highest degree]
_FAM = {"C01": (257, "1e-15", 20), "C03": (257, "1e-10", 12), "C04": (257, "1e-10", 18), "C05": (257, "1e-8", 8), "C06": (130, "1e-10", 12), "C07": (65, "3e-6", 10),
        "C08": (130, "1e-13", 13), "C09": (40, "1e-13", 9), "C10": (65, "3e-6", 9), "C11": (33, "3e-6", 7), "C12": (130, "3e-6", 10), "C13": (65, "3e-6", 8),
        "C15": (257, "1e-15", 12), "C18": (130, "1e-10", 13), "C19": (33, "3e-6", 12), "C26": (100, "1e-5", 9), "C30": (33, "1e-12", 12), "C31": (64, "1e-4", 12)}
for _p, (_n, _g, _d) in _FAM.items():
    _t = "; families: up to %d spans (even, uneven, mixed multiplicities), knots as close as %s, degree up to %d" % (_n, _g, _d)
    if _p not in ("C01", "C03", "C11", "C31"):
        _t += "; coordinates 1e-9 to 1e10 and weights nearly equal, tiny, huge and mixed over six orders"
    if _p in ("C04", "C05", "C08", "C10", "C12", "C18", "C19", "C26"):
        _t += "; 17 kinds of special control polygon (coincident, closed, flat, symmetric, at the origin, weight patterns) for degree 1-3"
    if _p in ("C06", "C07", "C09", "C11", "C13", "C26"):
        _t += "; 31 kinds of special control net (poles, closed, flat, equal rows or columns, single and separable weights) for degrees 1-3 x 1-3"
    if _p in ("C04", "C05", "C08", "C10", "C15"):
        _t += "; curves with 250 to 66000 spans"
    if _p in ("C12", "C18"):
        _t += "; curves with 250 to 1030 spans"
    if _p in ("C06", "C07", "C09", "C11", "C13", "C15", "C26"):
        _t += "; surfaces with up to 300 spans in one direction" + (" and with 260 x 260 spans" if _p in ("C06", "C07", "C09", "C15") else "")
    for _k in ("bounds", "bounds_thorough"):
        if _k in PROPS[_p]:
            PROPS[_p][_k] += _t
