"""The properties: texts, anchors and the harnesses that decide each. mk.py writes properties.jsonl and MANIFEST.json from it."""
S = "iOverlay/src/"
PROPS = {}


def H(name, what, bounds, covers=(), clauses=None, **kw):
    return dict(name=name, what=what, bounds=bounds, covers=list(covers), clauses=clauses or {}, **kw)


def P(pid, title, statement, over, qtext, why, files, mech, harnesses, note="", assumptions=(), budget=None):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=[S + f for f in files],
                      mechanism=[dict(name=a, where=b) for a, b in mech], harnesses=harnesses, note=note, assumptions=list(assumptions), budget=budget or {})


CROSS = {1: "collinear reported as such / a crossing is found", 2: "touch missed / overlap reported for a crossing", 3: "point within one unit of the exact crossing",
         4: "exact unless reported as rounded", 5: "rounded points are really off", 6: "no interior crossing invented / snap is rounded", 7: "touching end of the first", 8: "touching end of the second / moved further than the radius", 9: "no end is left within the snapping radius of a rounded crossing", 10: "moved to the nearest end"}
P("P06", "Segment intersection kernel: right kind, right point",
  "For two segments the intersection step reports nothing when they share no more than end points, an overlap when they are collinear, a touch at the exact end point when an end lies inside the other segment, and otherwise the crossing. The reported crossing lies less than one grid unit from the true one on each axis, is exact unless flagged as rounded, and is moved to a segment end, the nearest one, exactly if that lies within the snapping radius. For collinear segments exactly the ends strictly inside the other segment are flagged.",
  ["inputs"], "every pair of segments with integer ends within the coordinate range",
  "The tests hold a few dozen hand made segment pairs; rounding in the four sign quadrants, touches, and long thin configurations are a 128 bit input space.",
  ["split/cross_solver.rs", "geom/x_segment.rs", "split/line_mark.rs"], [("CrossSolver::cross, middle_cross, divide_with_rounding", S + "split/cross_solver.rs"), ("CrossSolver::collinear", S + "split/cross_solver.rs")],
  [H("cross_kind", "pairs without a proper crossing: kind and touch point", "all coordinates in [-2^29, 2^29]", [1, 2, 3, 4], CROSS),
   H("cross_point2r", "proper crossings with snapping radius 2", "first end at the origin, other coordinates in [-2, 2]", [1, 2], CROSS, query_ms=5000),
   H("cross_long_a", "proper crossings of long segments, slopes (2,1) x (1,-1)", "lengths up to 2^18, position in [-2^18, 2^18]", [1, 2], CROSS),
   H("cross_long_b", "proper crossings of long segments, slopes (1,0) x (1,3)", "lengths up to 2^18, position in [-2^18, 2^18]", [1, 2], CROSS),
   H("cross_long_c", "proper crossings of long segments, slopes (1,3) x (0,1)", "lengths up to 2^18, position in [-2^18, 2^18]", [2], CROSS),
   H("cross_long_d", "proper crossings of long segments, slopes (3,-2) x (1,1)", "lengths up to 2^18, position in [-2^18, 2^18]", [1, 2], CROSS),
   H("collinear_mask", "overlap of collinear segments: which ends lie inside", "all coordinates in [-2^29, 2^29]", [1], {1: "a inside other", 2: "b inside other", 3: "other a inside", 4: "other b inside"}),
   H("cross_dirs2", "proper crossings with snapping radius 2, eight concrete directions against each other", "first end at the origin, the other segment anywhere within 9 units", [1, 2], CROSS, query_ms=3000),
   H("cross_beyond_a", "crossings whose products exceed 64 bits", "a segment to (2^29, 3*2^27), the other (2^20, -2^19) long, anywhere within 8 units", [1, 2], CROSS),
   H("cross_beyond_b", "the same with falling slope", "a segment to (2^29, -3*2^27), the other (2^20, 3*2^18) long, anywhere within 8 units", [1, 2], CROSS),
   H("cross_beyond_c", "crossings whose products exceed 64 bits", "as cross_beyond_a within 24 units", [1, 2], CROSS, thorough_only=True),
   H("cross_beyond_d", "the same with falling slope", "as cross_beyond_b within 24 units", [1, 2], CROSS, thorough_only=True),
   H("cross_dirs0", "the same without snapping", "first end at the origin, the other segment anywhere within 9 units", [1, 2], CROSS, query_ms=3000, thorough_only=True),
   H("cross_dirs2w", "the same, twelve directions", "first end at the origin, the other segment anywhere within 9 units", [1, 2], CROSS, query_ms=3000, thorough_only=True),
   H("cross_dirs5", "the same with snapping radius 5", "first end at the origin, the other segment anywhere within 9 units", [1, 2], CROSS, query_ms=3000, thorough_only=True),
   H("cross_point3r", "proper crossings with snapping radius 2", "first end at the origin, other coordinates in [-3, 3]", [1, 2], CROSS, query_ms=5000, thorough_only=True),
   H("cross_point4", "proper crossings, no snapping", "first end at the origin, other coordinates in [-4, 4]", [1, 2], CROSS, query_ms=5000, thorough_only=True, budget=400)],
  note="touch/collinear/kind decided for the full range; rounding of proper crossings for small boxes and for long segments of four slope pairs")

P("P08", "Sweep order of segments and points is geometric and consistent",
  "Segments that meet only in common end points are ordered from bottom to top along any sweep line that meets both, antisymmetrically and without cycles. A point is classified below, on or above a segment exactly as its position says, directions out of one point are ordered by angle, and the keys used for bucket sorting agree with the order they speed up.",
  ["inputs"], "all segments and points with coordinates within the coordinate range",
  "Comparison functions are exercised on a handful of segments; a wrong tie break, an overflow for long segments or a cycle among three shows only for special triples.",
  ["geom/v_segment.rs", "geom/x_segment.rs", "geom/end.rs", "geom/id_point.rs", "geom/line_range.rs"],
  [("VSegment ordering", S + "geom/v_segment.rs"), ("XSegment ordering and ranges", S + "geom/x_segment.rs"), ("sort keys", S + "geom/end.rs")],
  [H("sweep_order2", "two segments alive at one sweep line", "coordinates in [-2^29, 2^29]", [1, 2], {1: "antisymmetric", 2: "less means below", 3: "greater means above", 4: "never equal", 5: "is_under_segment", 6: "is_under_segment"}),
   H("sweep_order3", "no cycles among three segments", "coordinates in [-2^29, 2^29]", [1], {1: "transitive"}),
   H("point_order", "point against segment", "coordinates in [-2^29, 2^29]", [1, 2, 3], {1: "above", 2: "below", 3: "on the line"}),
   H("angle_order2", "directions out of one point", "coordinates in [-2^29, 2^29]", [], {1: "antisymmetric", 2: "by angle"}),
   H("angle_order3", "directions out of one point, transitivity", "coordinates in [-2^29, 2^29]", [1], {1: "transitive"}),
   H("x_order", "lexicographic order, ranges and conversions", "all i32 coordinates", [], {1: "less", 2: "equal", 3: "partial_cmp", 4: "vertical", 5: "y range", 6: "range overlap", 7: "conversion"}),
   H("sort_keys", "bucket keys agree with the order", "coordinates in [-2^29, 2^29], bucket layout of [-1000, 1000)", [1], {1: "segment key", 2: "point id", 3: "point key", 4: "end key", 5: "bin of the key", 6: "leaves the sweep at its right end"})],
  note="full coordinate range")

P("P09", "Next edge by rotation around a node is the first one met",
  "Standing at a node and turning from the edge one came by in the requested rotation, the edge picked out of the candidates is the first that is met: no other candidate lies strictly inside the turn, and the edge one came by, offered among the others, is never picked while there is another. A node keeps exactly the edges that meet in it.",
  ["inputs"], "every arrangement of up to four outgoing edges with distinct directions, whatever their lengths and the order in which they are offered",
  "Unit tests use axis and diagonal vectors; half turns, nearly parallel long edges and overflow need all directions.",
  ["core/nearest_vector.rs", "core/node.rs"], [("NearestVector::add and rotation handling", S + "core/nearest_vector.rs")],
  [H("nearest_%s" % n, "%s candidates, %s" % (n[-1] if n[-1] != "c" else n[-2], "clockwise" if n.startswith("cw") else "counterclockwise"), "coordinate differences up to %s" % ("2^29" if not n.endswith("c") else "2^29, node anywhere"), [], {1: "one of the candidates", 2: "no candidate inside the turn", 3: "never the way back"})
   for n in ("cw2", "ccw2", "cw2c", "ccw2c", "cw3", "ccw3", "cw4", "ccw4")] +
  [H("node_keeps", "what a node keeps of its edges", "up to 5 edges, any indices", [1, 2], {4: "form by number of edges", 5: "every edge, in order"})],
  note="full coordinate range, up to four candidates")

P("P10", "Contours that touch themselves fall apart into their simple loops",
  "A contour that visits points more than once without crossing itself is replaced by exactly the simple contours it is made of, each once, in walking direction; a contour without repeated points is reported as already simple.",
  ["inputs"], "every closed contour, all coordinates, every pattern of nested repeats",
  "The existing tests hold a few fixed patterns of repeats; which points repeat, how deep they nest and how they are ordered is combinatorial.",
  ["core/divide.rs"], [("decompose_contours", S + "core/divide.rs")],
  [H("divide_hub_%s" % d, "one point visited 2 to 9 times, one or two points in between, up to 4 more around", "coordinates in [-2^29, 2^29], the other points %s (on x) than it and in order" % ("greater" if d == "i" else "less"), [], {1: "simple contour left alone", 2: "repeats seen", 3: "number of loops", 4: "each loop of the walk delivered once"}) for d in "id"] +
  [H("divide%d" % n, "contours of %d points in any order" % n, "coordinates in [-2^29, 2^29], nested repeats", [], {1: "simple contour left alone", 2: "repeats seen", 3: "number of loops", 4: "each loop of the walk delivered once"}, **({"thorough_only": True} if n == 7 else {})) for n in (3, 4, 5, 6)] +
  [H("divide%d%s" % (n, d), "contours of %d points, new points ever %s" % (n, "greater" if d == "i" else "less"), "coordinates in [-2^29, 2^29], nested repeats", [], {1: "simple contour left alone", 2: "repeats seen", 3: "number of loops", 4: "each loop of the walk delivered once"}, **({"thorough_only": True} if n == 10 else {})) for n in (8, 9) for d in "id"] +
  [H("divide7", "contours of 7 points in any order", "coordinates in [-2^29, 2^29], nested repeats", [], {3: "number of loops", 4: "each loop"}, thorough_only=True),
   H("divide10i", "contours of 10 points, new points ever greater", "coordinates in [-2^29, 2^29], nested repeats", [], {3: "number of loops", 4: "each loop"}, thorough_only=True),
   H("divide10d", "contours of 10 points, new points ever less", "coordinates in [-2^29, 2^29], nested repeats", [], {3: "number of loops", 4: "each loop"}, thorough_only=True)],
  note="contours of up to 6 points in any order, up to 9 (10 thorough) in monotone order; reference is the stack decomposition",
  assumptions=["repeated points are nested, as in the outlines the engine produces (a contour that crosses itself at a repeated point has no unique decomposition)"])

P("P11", "Walks split into simple loops, small ones dropped by area",
  "A closed walk is split at repeated points into the loops a stack decomposition yields, each simple and each delivered once; loops of fewer than three points vanish. With a minimal area exactly the loops whose area reaches it are kept.",
  ["inputs"], "every closed walk of integer points and every minimal area",
  "Tests sample a few walks; the pattern of repeats, stale bookkeeping after a removed loop and the area threshold are combinatorial.",
  ["string/split.rs"], [("split_loops", S + "string/split.rs")],
  [H("split_loops%d" % n, "walks of %d points" % n, "coordinates in [0, 2^29]", [0, 1, 2][:min(3, n // 2)] if n > 5 else [], {1: "number of loops", 2: "each loop of the walk delivered once", 3: "loops are simple"}) for n in (4, 5, 6, 7, 8, 9)] +
  [H("split_area%d" % n, "walks of %d points, any minimal area" % n, "coordinates in [0, 3], minimal area in [0, 18]", [0, 1], {1: "number of kept loops", 2: "kept loops", 3: "loops are simple"}) for n in (4, 5, 6)] +
  [H("split_area_hub", "up to five triangles and a rest at one point, any minimal area", "heights in [1, 2^29]", [0, 1, 2, 6], {1: "number of kept loops", 2: "kept loops", 4: "large enough"}),
   H("split_area_big", "two rectangles in one walk, any minimal area", "sides in [1, 2^29]", [0, 1, 2], {1: "number of kept loops", 2: "kept loops"})],
  note="walks of up to 9 points, all coordinates; areas for small boxes and for rectangles of any size",
  assumptions=["std HashMap replaced by an association list in the symbolic build"])

P("P16", "Stroke and outline styles keep angles and widths within limits",
  "Whatever angle or width a user asks for, the style that results holds an angle inside the documented limits, a width that is not negative, and the kind of cap and join asked for; values inside the limits are kept as they are and setting one attribute leaves the others alone.",
  ["inputs", "configurations"], "every finite or infinite angle, width and offset, every combination of cap and join kinds",
  "The tests check no limits; an unclamped angle leads to an endless or empty fan far away from the style.",
  ["mesh/style.rs"], [("StrokeStyle and OutlineStyle builders, normalize", S + "mesh/style.rs")],
  [H("style_stroke", "stroke style builder", "all f64 except NaN; 4 start caps, 4 end caps, 3 joins", range(48), {1: "width", 2: "kinds kept", 3: "start cap angle", 4: "end cap angle", 5: "custom cap", 6: "miter angle", 7: "round join angle", 8: "custom points"}),
   H("style_order", "attributes in any order", "angles inside the limits", [], {1: "defaults", 2: "attributes kept", 3: "width"}),
   H("style_outline", "outline style builder", "all f64 except NaN", [0, 1, 2], {1: "defaults"}),
   H("style_f32", "the same in single precision", "all f32 except NaN", [1, 2], {})],
  note="decided over IEEE floats, all values")

P("P17", "Rotations, perpendiculars and sharp corners are exact where exactness exists",
  "Turning by an angle and turning back by a rotation built from two directions are rotations with the right sense, a perpendicular is turned left by a quarter turn with the length asked for, and the corner of two offset lines is the point where they meet; a corner that coincides with an end on the integer grid is left out.",
  ["inputs"], "every direction pair from a table of exact directions, every position and length on a binary lattice",
  "Existing tests use two or three vectors; sign errors and wrong axis choices show for some quadrants only.",
  ["mesh/math.rs", "mesh/rotator.rs", "mesh/miter.rs"], [("Rotator", S + "mesh/rotator.rs"), ("Math::ortho_and_scale", S + "mesh/math.rs"), ("Miter::sharp", S + "mesh/miter.rs")],
  [H("rotate_exact", "rotation from two directions", "quarter and 3-4-5 directions", [], {}),
   H("rotate_angle", "rotation by an angle", "quarter turns", [0, 1, 2, 3], {}),
   H("ortho", "perpendicular and scale", "lattice vectors", [1, 2], {}),
   H("miter_sharp", "corner of two offset lines on a fine grid", "10 direction pairs, position in [-2, 2] step 2^-10, length in [0, 1] step 2^-10", [1, 3], {1: "degenerate", 2: "corner left out", 3: "corner point"}),
   H("miter_coarse", "corner of two offset lines on a unit grid", "10 direction pairs, position in [-8, 8] step 1/8, length in [0, 4] step 1/8", [1, 2, 3], {1: "degenerate", 2: "corner left out", 3: "corner point"})],
  note="exact float arithmetic only (all intermediate values representable); rounding of general floats is outside",
  assumptions=["floats whose exact value is a dyadic rational that fits the mantissa are computed exactly; a zero result is taken as +0"])

P("P19", "Fragment grid files every part of every segment inside its box",
  "The grid that speeds up splitting covers the whole range; a segment is cut into consecutive parts, one per column it passes, whose boxes lie inside their columns and enclose the part of the segment over it. A vertical segment on a column border is also known to that border, and clearing the grid forgets everything.",
  ["inputs"], "every segment, every span and every number of segments",
  "The tests use a few segments with default grids; only sizes above 16000 segments use this path, so nothing else reaches it.",
  ["split/grid_layout.rs", "split/fragment.rs", "util/log.rs"], [("GridLayout, FragmentBuffer", S + "split/grid_layout.rs"), ("Fragment", S + "split/fragment.rs")],
  [H("grid_%s" % n, "one segment in a grid of span %s" % s, b, c, {1: "grid exists when wide enough", 3: "first border", 4: "last border", 5: "columns not empty", 6: "one part per column", 7: "part names its segment", 9: "box inside the column", 10: "columns are consecutive", 11: "no gap", 12: "box encloses the part", 13: "box encloses the part", 16: "reaches the end", 18: "border knows the vertical segment", 20: "clear"}, **k)
   for n, s, b, c, k in (("3", "3", "y in a wide range", [], {}), ("4", "4", "y in a wide range", [1, 3], {}), ("7", "7", "y in a wide range", [], {}), ("8", "8", "y in a wide range", [], {}), ("13", "13", "y in a wide range", [], {}),
                      ("20", "20", "y in a wide range", [], {}), ("21", "21", "y in a wide range", [], {}), ("wide2", "2^20 and more", "the whole coordinate range", [], {}), ("wide4", "2^20 and more", "the whole coordinate range", [], {}), ("mid", "medium", "medium range", [1, 2, 3], {}), ("wide8", "2^20 and more", "the whole coordinate range", [], {}))] +
  [H("grid_more", "two standing segments and a lying one in one grid of 16 units, added, cleared and added again", "grid anywhere, coordinates in [-2^29, 2^29]", [1, 2], {2: "boxes in order", 3: "range on the border", 4: "known to the border once", 5: "known to the border", 6: "all covered", 7: "one box"}),
   H("grid_shape", "columns for any span and count", "span up to 2^29, count up to 2^20", [1, 2], {1: "no grid for tiny spans", 4: "column width", 5: "equal columns", 6: "number of columns follows the root of the count"}),
   H("fragment_box", "box of a whole segment and mark keys", "coordinates in [-2^29, 2^29]", [1], {1: "names its segment", 2: "x range", 3: "y range", 4: "key", 5: "bin"})],
  note="single segments; grids from 2 to 21 columns at full coordinate range")

P("P20", "Float input containers deliver every contour once, whole and in order",
  "However contours are nested in the input (one contour, contours, shapes of contours, empty levels anywhere), iterating delivers exactly the contours that are there, each whole, in order, then ends; iterating again delivers the same.",
  ["inputs", "configurations"], "every nesting of contours and empty levels up to the bound",
  "Tests use two fixed nestings; empty levels at the start, middle and end and unchecked indexing need all of them.",
  ["float/source/mod.rs", "float/source/single.rs", "float/source/double.rs", "float/source/triple.rs", "float/source/resource.rs"], [("resource iterators", S + "float/source/resource.rs")],
  [H("source_single", "one contour", "up to 3 points", [0, 1, 3], {}), H("source_double", "contours", "up to 3 contours", [0, 2], {}), H("source_triple", "shapes of contours", "every nesting up to 3 x 2", [2, 4], {}),
   H("source_triple_len", "shapes of contours of any length", "every nesting", [0, 1, 2, 3, 4], {})],
  note="exhaustive over nestings within the bound, including memory safety of the unchecked indexing")

P("P21", "Vector edges name the same sides whichever way they are walked",
  "An edge of the vector output read in the opposite direction has its ends and its left and right sides swapped and nothing else changed; the sides stored from left to right are turned when the walk goes right to left. A path is recovered from its edges as the sequence of their starts.",
  ["inputs"], "all end points, all sixteen side masks, paths of up to five edges",
  "Tests look at sides for a few shapes only; a swapped bit in one of sixteen masks passes them.",
  ["vector/edge.rs"], [("Reverse, VectorEdge::new, ToPath", S + "vector/edge.rs")],
  [H("edge_sides", "sides and directions", "all i32 coordinates, 16 masks", [], {1: "subject left", 2: "subject right", 3: "clip left", 4: "clip right", 5: "twice is nothing", 6: "ends", 7: "reverse", 8: "direction", 9: "bits"}),
   H("edge_path", "path from edges", "up to 5 edges", range(6), {1: "length", 2: "starts"})],
  note="all values")

NEARB = "the clip rectangle anywhere within 900 units, every relative position of all edges"
FRAME = "a figure anywhere along one axis of a fixed frame of 2048 units, in quarter units"
SLIDE = "the clip figure slides over every position on the lattice of the map"
JUDGE = {1: "contours closed, long enough, right direction", 2: "region", 3: "every hole inside its own outer contour"}


def HM(names, what, bounds, clauses, covers=(), **kw):
    return [H(n, w, b or bounds, covers, clauses, **dict(kw, **k)) for n, w, b, k in names]


P("P01", "Boolean operations return the region the rule asks for",
  "For any subject and clip contours, any fill rule and any overlay rule, the returned shapes cover exactly the points the rule selects from the winding numbers of the input: outer contours minus holes is the selected region, nothing lost, nothing added, nothing counted twice, wherever edges cross, touch or lie on each other.",
  ["inputs"], "every pair of subject and clip figures, four fill rules, seven overlay rules",
  "The tests compare a few hundred recorded figures; a region goes wrong only for particular orders of crossings, touches and overlaps.",
  ["core/overlay.rs", "core/extract.rs", "core/link.rs", "core/graph.rs", "core/overlay_rule.rs", "fill/solver.rs", "segm/build.rs", "segm/segment.rs", "segm/merge.rs", "split/solver_list.rs", "bind/solver.rs"],
  [("Overlay::overlay", S + "core/overlay.rs"), ("OverlayGraph::extract_shapes", S + "core/extract.rs"), ("fill", S + "fill/solver.rs"), ("link filters", S + "core/filter.rs"), ("splitting", S + "split/solver.rs")],
  HM([("bool_alone", "one rectangle with free corners and no clip", "corners anywhere in [-2^28, 2^28]", {}),
      ("bool_square", "a square and a rectangle with free corners, either direction", "corners anywhere in [-2^28, 2^28]", {}),
      ("bool_touch", "two squares that meet in a corner", None, {}),
      ("bool_hole", "a square with a hole", None, {}),
      ("bool_opp", "two overlapping squares of opposite direction", None, {}),
      ("bool_pair", "two overlapping squares of the same direction", None, dict(thorough_only=True)),
      ("bool_spiral", "a contour that crosses itself", None, dict(thorough_only=True)),
      ("bool_cross_clip", "two clip contours", None, dict(thorough_only=True)),
      ("skew_diag", "diamonds", SLIDE + ", up to 2^24 away", {}), ("skew_21", "slanted figures, map (2 1 / -1 3)", SLIDE + ", up to 2^24 away", {}),
      ("skew_neg", "slanted figures, map (1 3 / 2 1), mirrored", SLIDE + ", up to 2^24 away", {}), ("skew_v", "parallelograms with vertical sides", SLIDE + ", up to 2^24 away", {}),
      ("skew_two", "two overlapping slanted figures", SLIDE, {}), ("skew_hole", "a slanted figure with a hole", SLIDE, dict(thorough_only=True))],
     "", NEARB, JUDGE),
  note="rectangles with free corners and slanted figures in every relative position; crossings that fall off the grid are the business of P22",
  assumptions=["a path fixes the order of all coordinates; on a path the oracle compares windings cell by cell"])

P("P02", "Returned contours are well formed",
  "Every returned contour is closed with at least three points and no repeated neighbours, with no needless point on a straight run when simplification is asked for; the outer contour comes first in its shape and runs in the requested direction, holes run the other way; all fill and overlay rules give the right region in both directions, simplified or not.",
  ["inputs", "configurations"], "every input figure, both directions, with and without simplification",
  "Tests check recorded outputs for one direction; duplicates, collinear leftovers and wrong turns at touching corners are configuration dependent.",
  ["core/extract.rs", "core/overlay.rs", "core/nearest_vector.rs", "core/simplify.rs"], [("OverlayGraph::extract, GraphContour::validate", S + "core/extract.rs")],
  HM([("form_square", "a square and a rectangle with free corners", "corners anywhere in [-2^28, 2^28]", {}), ("form_touch", "two squares that meet in a corner", None, {}),
      ("form_skew", "slanted figures, map (2 1 / -1 3)", SLIDE, {}), ("form_comb", "a comb with three teeth under a sliding figure", SLIDE, {}), ("form_isles", "islands in holes in islands under a sliding figure", SLIDE, {}),
      ("form_opp", "two overlapping squares of opposite direction", None, dict(thorough_only=True)), ("form_spiral", "a contour that crosses itself", None, dict(thorough_only=True))],
     "", NEARB, {**JUDGE, 4: "no needless points when simplified", 5: "form, region and nesting when not simplified"}),
  note="both directions, simplified and raw")

P("P03", "Vector output carries the right sides and binds holes to their shapes",
  "Each edge of the vector output names on both of its sides whether subject and clip fill there; the vectors of a shape form closed chains, outer contours clockwise, every hole in the shape that contains it, together bounding exactly the region of the rule.",
  ["inputs"], "every subject and clip figure, every fill rule",
  "Tests look at side masks for three fixed figures and never at holes of several shapes.",
  ["vector/extract_vectors.rs", "vector/edge.rs", "bind/solver.rs", "bind/segment.rs", "fill/solver.rs"], [("extract_shape_vectors, scan_join", S + "vector/extract_vectors.rs"), ("ShapeBinder", S + "bind/solver.rs")],
  HM([("vec_square", "a square and a rectangle with free corners", "corners anywhere in [-2^28, 2^28]", {}), ("vec_skew", "slanted figures, map (2 1 / -1 3)", SLIDE, {}),
      ("vec_isles", "islands in holes in islands under a sliding figure", SLIDE, {}), ("vec_holes", "several holes with islands under a sliding figure", SLIDE, {}), ("vec_skew2", "two overlapping slanted figures", SLIDE, {}),
      ("vec_pair", "two overlapping squares of the same direction", None, dict(thorough_only=True)), ("vec_opp", "two overlapping squares of opposite direction", None, dict(thorough_only=True))],
     "", NEARB, {1: "every piece of boundary once", 2: "pieces meet in ends only", 3: "sides of separate vectors", 4: "left to right", 5: "shapes bound the region", 6: "closed chains", 7: "sides of shape vectors"}),
  note="union, difference and xor for shape vectors")

P("P05", "Strategies and precisions agree",
  "The list, tree, fragment and automatic strategies give the same vectors and the same shapes, and where no crossing has to be rounded every precision does too.",
  ["inputs", "configurations"], "every input figure, all strategies and precisions",
  "Tests run the recorded figures through the strategies separately; the fragment strategy is reached automatically only for 16000 segments and more.",
  ["core/solver.rs", "split/solver_list.rs", "split/solver_tree.rs", "split/solver_fragment.rs", "fill/solver.rs", "split/snap_radius.rs"],
  [("Solver", S + "core/solver.rs"), ("the three split solvers", S + "split/solver.rs")],
  HM([("same_square", "a square and a rectangle with free corners", None, {}), ("same_skew", "slanted figures under list, tree and auto", SLIDE, {}), ("same_skew_frag", "slanted figures under the fragment strategy", SLIDE, {}),
      ("same_prec", "slanted figures under six precisions", SLIDE, {}), ("same_opp", "two overlapping squares of opposite direction", None, {})],
     "", NEARB, {1: "same vectors", 2: "same shapes"}),
  note="figures whose crossings are grid points")

P("P07", "Splitting leaves pieces that meet in ends only",
  "After splitting, no piece ends inside another or crosses it, every piece of input edge across which the windings change is there exactly once with both side windings, and nothing else is there; under every strategy.",
  ["inputs", "configurations"], "every arrangement of crossing, touching and overlapping edges, three strategies",
  "Tests sample a few arrangements per strategy; a missed touch or overlap needs a particular arrangement inside a particular column of the grid.",
  ["split/solver.rs", "split/solver_list.rs", "split/solver_tree.rs", "split/solver_fragment.rs", "split/fragment.rs", "split/line_mark.rs", "segm/merge.rs"],
  [("SplitSolver", S + "split/solver.rs"), ("tree_split, list_split, fragment_split", S + "split/solver_fragment.rs"), ("merge of equal pieces", S + "segm/merge.rs")],
  HM([("cut_square", "a square and a rectangle with free corners, three strategies", None, {}), ("cut_touch", "two squares that meet in a corner, three strategies", None, {}), ("cut_skew", "slanted figures, three strategies", SLIDE, {}),
      ("cut_steep", "steep parallelograms, three strategies", SLIDE, {}), ("cut_lines", "many figures with edges on common lines, list and tree", SLIDE, {}),
      ("cut_opp", "two overlapping squares, three strategies", None, dict(thorough_only=True)), ("cut_strips", "long strips across each other, list and tree", SLIDE, dict(thorough_only=True, budget=500))],
     "", NEARB, {1: "every piece of boundary once", 2: "pieces meet in ends only", 3: "sides"}),
  note="figures whose crossings are grid points")

P("P04", "Masks, fill rules and overlay rules say what they name",
  "For every pair of windings, each fill rule fills a side of an edge exactly when it names that winding; for each of the sixteen side masks each overlay rule keeps exactly the edges that part the wanted region from the rest and knows the side the region is on; lines are kept by a clip rule exactly when both sides, or with the boundary at least one side, are filled, the inverted rule keeping exactly the rest.",
  ["inputs"], "all windings, all masks, all rules",
  "Tests meet windings of -1 to 2 and the masks that occur in recorded figures.",
  ["core/filter.rs", "core/link.rs", "core/overlay_rule.rs", "core/fill_rule.rs", "fill/solver.rs", "segm/segment.rs"],
  [("filter_by_rule and inclusion filters", S + "core/filter.rs"), ("fill strategies", S + "core/link.rs"), ("is_fill_top", S + "core/overlay_rule.rs")],
  [H("rule_table", "every mask under every rule", "16 masks, 7 rules", [], {1: "kept exactly when the sides differ", 2: "side of the region"})] +
  [H(n, "%s with symbolic windings, four fill rules" % w, "windings in [-2^28, 2^28]", [], {**JUDGE, 4: "sides"}) for n, w in
   (("wound_one", "one figure"), ("wound_nest", "two nested subject figures"), ("wound_nest2", "nested subject and clip figures"), ("wound_cross", "crossing subject and clip figures"))] +
  [H("wound_line", "a line past two figures with symbolic windings, four clip rules", "windings in [-2^28, 2^28] but zero", [], {1: "kept exactly when the rule says", 2: "nothing else kept"})],
  note="all windings in the range, concrete figures")

P("P12", "Slicing parts a shape along the lines and nothing gets lost",
  "Slicing a shape returns exactly the parts into which the lines (and the edges of overlapping contours) separate its region: every part once, every point of the region in exactly one part, holes inside their part, in the requested direction; lines that end inside or miss the shape part nothing. All slicing calls agree.",
  ["inputs"], "every position of open or closed lines over the shape",
  "Tests slice a few figures and count the parts.",
  ["string/slice.rs", "string/extract.rs", "string/filter.rs", "string/split.rs", "string/overlay.rs", "string/graph.rs", "bind/solver.rs"],
  [("StringGraph::extract_shapes_custom", S + "string/extract.rs"), ("visit_fill, is_move_possible", S + "string/filter.rs"), ("join_unsorted_holes", S + "bind/solver.rs")],
  HM([("slice_line", "one segment of any length over a square", "position up to 2^24 away", {}), ("slice_hook", "a hook over a square", "position up to 2^24 away", {}), ("slice_hole", "a hook over a slanted figure with a hole", None, {}),
      ("slice_ring", "a closed line over two overlapping slanted figures", None, {}), ("slice_two", "two lines over a slanted figure", None, {}), ("slice_comb", "a hook over a comb", None, {}),
      ("slice_holes", "a long line over holes and islands", None, {})], "", SLIDE, {1: "contours on the lines", 2: "every point of the region once", 3: "contours enclose once", 4: "one shape per part", 5: "direction and holes"}) +
  [H("slice_same", "all slicing calls against each other", SLIDE, [], {1: "line", 2: "lines", 3: "path", 4: "paths", 5: "contour", 6: "shapes", 7: "contour as shape"})],
  note="axis-parallel and slanted figures in every relative position")

P("P13", "Clipping a line by a shape keeps exactly the wanted pieces",
  "Clipping open lines by shapes returns exactly the pieces of the lines that run inside (outside when inverted) the region, pieces along the boundary where the rule includes it, each once and in the direction of the input; inside and outside together make up the whole. All clipping calls agree.",
  ["inputs"], "every position of the lines over the shapes, four fill rules and four clip rules",
  "Tests clip a few figures and count the pieces; direction and completeness are never looked at.",
  ["string/clip.rs", "string/overlay.rs", "string/graph.rs", "core/filter.rs", "core/link.rs", "segm/winding_count.rs"],
  [("into_clip_string_lines", S + "string/clip.rs"), ("StringOverlay::add_string_line", S + "string/overlay.rs")],
  HM([("clip_line", "one segment of any length over a square", "position up to 2^24 away", {}), ("clip_hook", "a hook over a square", "position up to 2^24 away", {}), ("clip_twice", "two lines over a slanted figure", None, {}),
      ("clip_hole", "a path over a slanted figure with a hole", None, {}), ("clip_back", "a path that crosses itself over two overlapping slanted figures", None, {})],
     "", SLIDE, {1: "paths on the lines", 2: "exactly the wanted pieces, in their direction", 3: "all calls agree"}),
  note="axis-parallel and slanted figures in every relative position")

P("P14", "The area filter drops exactly the contours that are too small",
  "With a least area given, a result holds exactly those contours of the unfiltered result whose area reaches it, and no shape whose outer contour does not; every call that takes a least area obeys it the same way.",
  ["inputs", "configurations"], "every size of figure, hole and island against every least area",
  "Tests filter a few figures with limits far from their areas.",
  ["core/extract.rs", "string/extract.rs", "core/simplify.rs", "core/overlay.rs"], [("GraphContour::validate", S + "core/extract.rs"), ("StringGraph::extract_shapes_custom", S + "string/extract.rs")],
  HM([("area_hole", "a figure with a hole and a second figure, sizes symbolic", "sizes up to 900, least area in [0, 4000]", {}), ("area_skew", "slanted figures, one with a hole, size symbolic", "size up to 900, least area in [0, 4000]", {}),
      ("area_isle", "an island in a hole, sizes symbolic", "sizes up to 80, least area in [0, 4000]", {})],
     "", "", {1: "overlay_custom", 2: "graph", 3: "Simplify", 4: "clockwise", 5: "not simplified", 6: "slices"}),
  note="all sizes against all limits in the range")

P("P15", "What should not matter does not matter",
  "The result as a set of contours does not depend on where a contour starts, which way it runs (for rules that ignore it), in which order contours are given, whether subject and clip trade places under a symmetric rule, on points repeated or added on an edge, or on which call adds the contours; simplifying a result once more changes nothing, and all simplifying calls agree.",
  ["inputs", "configurations"], "every relative position of the figures, every start point, order and way of adding",
  "Tests run each figure in one order from one start.",
  ["core/overlay.rs", "core/simplify.rs", "core/extract.rs", "segm/build.rs", "core/overlay_rule.rs", "fill/solver.rs"], [("Simplify", S + "core/simplify.rs"), ("Overlay::add_*", S + "core/overlay.rs"), ("extraction", S + "core/extract.rs")],
  HM([("again_square", "square and sliding rectangle: simplify twice", NEARB, {}), ("again_skew", "slanted figures: simplify twice", SLIDE, {}), ("again_hole", "figures with holes: simplify twice", SLIDE, {})],
     "", NEARB, {1: "simplifying again changes nothing", 2: "all calls agree", 3: "raw result simplifies to the same"}) +
  HM([("turned_square", "square and sliding rectangle", NEARB, {}), ("turned_skew", "slanted figures", SLIDE, {}), ("turned_two", "two slanted figures and a third", SLIDE, {})],
     "", NEARB, {1: "start point", 2: "direction", 3: "order", 4: "subject and clip trade places", 5: "added points", 6: "twice under NonZero"}) +
  [H("added_same", "all ways of adding contours", NEARB, [], {i: "way %d" % i for i in range(1, 8)})],
  note="figures whose crossings are grid points")

OFFS = {1: "form", 2: "region", 3: "nesting", 4: "cut corners right", 5: "number of cut corners", 6: "on the lattice", 7: "kept exactly the contours of at least the area"}
P("P18", "Strokes and outlines of axis-parallel paths are exactly what the style names",
  "The stroke of a path is the union of the bands of its edges, of the corner areas its joins name (full corner for a miter, cut corner for a bevel) and of its caps (none, square, any custom form), for open and closed paths and any number of them. The outline of shapes has every side of the outer contours moved by the outer offset and every side of the holes by the inner one, outwards or inwards. Contours come in the direction asked for, and paths or contours with too few points change nothing.",
  ["inputs", "configurations"], "every position and, for the builders, every width and offset in bounds; caps, joins, directions, float types",
  "Tests count shapes and contours of a few fixed pictures; none looks at the area that is covered.",
  ["mesh/stroke/builder.rs", "mesh/stroke/builder_cap.rs", "mesh/stroke/builder_join.rs", "mesh/stroke/section.rs", "mesh/stroke/offset.rs", "mesh/outline/builder.rs", "mesh/outline/builder_join.rs", "mesh/outline/offset.rs", "mesh/style.rs"],
  [("StrokeBuilder", S + "mesh/stroke/builder.rs"), ("OutlineBuilder", S + "mesh/outline/builder.rs"), ("stroke_custom, outline_custom", S + "mesh/stroke/offset.rs")],
  HM([("stroke_" + n, "stroke of " + t, None, {}) for n, t in (("line", "a line"), ("l", "an L"), ("z", "a Z"), ("l_bevel", "an L, bevel"), ("z_bevel", "a Z, bevel"), ("u", "a U with a straight joint"), ("cross", "a path that crosses itself"), ("back", "a path that turns back on itself"), ("two", "two paths"))],
     "", "position in [-50, 50], half width in [2, 90], five pairs of caps", OFFS) +
  HM([("stroke_ring" + n, "stroke of a closed " + t, None, {}) for n, t in (("", "rectangle"), ("_cw", "rectangle, clockwise"), ("_bevel", "rectangle, bevel"), ("_l", "L"), ("_eight", "figure eight"))],
     "", "position in [-50, 50], half width in [2, 90]", OFFS) +
  HM([("stroke_public" + n, "public call, " + t, None, {}) for n, t in (("", "U and two far paths, caps up to four half widths long"), ("_wide", "wide L"), ("32", "L, f32"), ("_ring", "closed L"), ("_caps", "straight paths, the frame just holds the caps"))],
     "", "position in [-50, 50] quarters, concrete widths, both directions, with and without cleaning", OFFS) +
  HM([("outline_%s_%s" % (a, b), "outline of a %s, %s" % (t, "outwards" if b == "out" else "inwards"), None, {}) for a, t in (("rect", "rectangle"), ("l", "L"), ("u", "U")) for b in ("out", "in")],
     "", "position in [-50, 50], offset of 2 to 90", OFFS) +
  HM([("outline_public_" + n, "public call, " + t, None, {}) for n, t in (("hole", "rectangle with a hole and two far squares"), ("two", "two shapes that may grow together"), ("hole32", "with a hole, f32"))],
     "", "position in [-50, 50] quarters, five pairs of offsets, both directions, with and without cleaning, contours of 0 to 2 points among the others", OFFS) +
  HM([("stroke_area", "stroke with a symbolic least area", None, {}), ("outline_area", "outline with a symbolic least area", None, {})],
     "", "position in [-50, 50] quarters, least area in [0, 8000]", OFFS),
  note="axis-parallel paths of concrete lengths; miter and bevel joins; round joins and caps (their points are not exact) and slanted paths are outside",
  assumptions=["floats whose exact value is a dyadic rational that fits the mantissa are computed exactly; a zero result is taken as +0"])

FREE = {1: "there exactly if the rule fills it", 2: "one contour", 3: "the triangle", 4: "area within the reach of rounding", 5: "nonzero is positive and negative", 6: "even odd", 7: "union and intersection make both", 8: "xor is both differences", 9: "difference and intersection make the subject", 10: "the same for the clip",
        11: "contours in a shape", 12: "three points", 13: "no point twice", 14: "direction of outer and hole", 15: "area of the clip within the reach of rounding"}
P("P22", "Crossings off the grid cost no area and no form",
  "Whatever crossings are rounded to the grid: nothing panics, contours keep their form and direction, the areas of the results of the different rules add up exactly (union and intersection to subject and clip, both differences to xor, positive and negative to nonzero), and each differs from the true one by no more than a move of the crossings by one unit explains. A triangle anywhere comes back as it is, a degenerate one not at all.",
  ["inputs"], "every position of the free corners in bounds, all fill rules",
  "Rounding is what makes this hard in practice; tests hold fixed cases found once in the field.",
  ["split/solver.rs", "split/cross_solver.rs", "core/overlay.rs", "core/graph.rs", "core/extract.rs", "segm/merge.rs", "fill/solver.rs"],
  [("SplitSolver", S + "split/solver.rs"), ("FillSolver", S + "fill/solver.rs")],
  HM([("free_tri", "one triangle", "all corners in [-2^12, 2^12]", {}), ("free_tri_clip", "one triangle as the clip", "all corners in [-16, 16]", {}),
      ("free_row_a", "four points, the last on one of seven lines, crossing off the grid", "free coordinate in [-300, 300]", {}), ("free_row_b", "the same, other points", "free coordinate in [-300, 300]", {}), ("free_row_c", "the same, larger", "free coordinate in [-1000, 1000]", {}),
      ("free_pair_b", "two triangles, the last corner on one of two lines", "free coordinate in [-40, 40]", {}), ("free_pair_a", "two triangles, other corners", "free coordinate in [-40, 40]", dict(thorough_only=True)),
      ("free_pair_e", "two triangles, the last corner on one of five lines", "free coordinate in [-100, 100]", dict(thorough_only=True)), ("free_kite_a", "three points fixed, the fourth anywhere", "in [-12, 12]", dict(thorough_only=True))], "", "", FREE),
  note="triangles anywhere; quadrilaterals and pairs of triangles with one free corner")

P("P23", "The float interface gives exactly what the integer engine gives",
  "Every float call (overlay, graph, single, simplify, clip, slice, with every setting) returns, point for point, the result of the integer call on the points as the adapter maps them, moved back by the adapter; a least area is measured in the units of the input; f32 and f64 alike.",
  ["inputs", "configurations"], "all positions on the lattice of the adapter, all rules, both float types",
  "Tests run a few fixed rectangles and count contours.",
  ["float/overlay.rs", "float/graph.rs", "float/single.rs", "float/simplify.rs", "float/clip.rs", "float/slice.rs", "float/string_overlay.rs", "float/string_graph.rs", "float/filter.rs"],
  [("FloatOverlay", S + "float/overlay.rs"), ("FloatStringOverlay", S + "float/string_overlay.rs"), ("SimplifyShape", S + "float/simplify.rs")],
  HM([("float_bool", "overlay, graph, single, own adapter; frame around the origin", None, {}), ("float_bool_off", "the same in a frame off the origin", None, {}), ("float_bool32", "the same in f32, corners shared", None, {})],
     "", FRAME, {1: "overlay", 2: "single", 3: "graph", 4: "own adapter"}) +
  HM([("float_simple", "simplify and subject alone", None, {}), ("float_simple32", "the same in f32", None, {})], "", FRAME, {1: "simplify", 2: "with solver", 3: "subject alone"}) +
  HM([("float_custom", "all settings with a symbolic least area", None, {}), ("float_custom32", "the same in f32", None, {})],
     "", FRAME + ", least area in [0, 60000]", {1: "overlay_custom", 2: "graph", 3: "simplify", 4: "simplify with solver", 5: "slice_custom_by", 6: "string graph"}) +
  HM([("float_lines", "clip and slice by a hook", None, {}), ("float_lines_y", "the same the other way", None, {})], "", FRAME, {1: "clip_by", 2: "with solver", 3: "slice_by"}),
  note="points on the lattice of the adapter (rounding of points off it is done by i_float)")

P("P25", "Contours turn into segments with nothing lost, whatever their shape",
  "The segments built from a contour carry, along every piece of line, the net number of times the contour runs over it, whatever runs straight on, doubles back, stands still or starts in the middle of a straight run; fewer than three points give none. Equal segments become one with the sum of their windings, segments with none vanish.",
  ["inputs"], "every contour, every windings",
  "Tests build a few contours and count segments; the start of the contour has its own special cases.",
  ["segm/build.rs", "segm/merge.rs", "segm/winding_count.rs", "segm/segment.rs", "split/solver.rs"],
  [("append_path_iter", S + "segm/build.rs"), ("merge_if_needed", S + "segm/merge.rs"), ("WindingCount", S + "segm/winding_count.rs")],
  [H("walk_%d" % n, "closed walks of %d steps along the axes%s" % (n, t), "steps in [-1000, 1000], any order of axes", [], {1: "net use of every piece", 2: "left to right", 3: "windings", 4: "string windings agree"}) for n, t in ((4, ""), (5, ", clip"), (6, ", slanted"))] +
  [H("walk_few", "up to three points anywhere", "coordinates in [-2^29, 2^29]", [], {1: "none", 2: "three", 3: "windings"}),
   H("merge_bool", "four sorted segments, boolean windings", "windings in [-2^28, 2^28]", [], {1: "sum", 2: "vanished only if nothing", 3: "kept only if something", 4: "nothing else"}),
   H("merge_text", "four sorted segments, string windings", "windings in [-2^28, 2^28]", [], {1: "sum", 2: "vanished only if nothing", 3: "kept only if something", 4: "nothing else"}),
   H("wind_count", "arithmetic of windings", "windings in [-2^28, 2^28]", [], {1: "sum", 2: "invert", 3: "empty", 4: "new", 5: "string sum", 6: "string invert", 7: "string empty", 8: "types", 9: "string types"}),
   H("split_sum", "three overlapping segments of one line", "windings in [-2^28, 2^28]", [], {1: "sum", 2: "missing", 3: "more"}),
   H("wound_share", "three figures with common edges, symbolic windings", "windings in [-2^28, 2^28]", [], {**JUDGE, 4: "sides"}),
   H("wound_share2", "three slanted figures with common edges, symbolic windings", "windings in [-2^28, 2^28]", [], {**JUDGE, 4: "sides"})],
  note="walks of up to six steps, symbolic windings over concrete figures")

NOT_APPLICABLE = [
    dict(id="P26", title="Results do not depend on threads and scheduling",
         statement="With the parallel sorting and splitting features switched on, every result is the same as without them, whatever the number of threads and their scheduling.",
         over=["schedules"], qtext="all schedules of the worker threads",
         why="Tests run one schedule.", files=[S + "core/solver.rs", S + "split/solver_list.rs"], mechanism=[dict(name="rayon parallel sorting", where=S + "core/solver.rs")],
         reason="The feature hands slices to rayon's work stealing pool; its runtime (threads, atomics, parking) cannot be executed by the symbolic executor and no schedule model of rayon is within reach here. The checks encode the build without the feature."),
]
