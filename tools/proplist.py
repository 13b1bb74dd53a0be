"""The properties: source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
T = "contract-based deductive verification: "
VER = "Verus contracts on functions extracted from /repo on every run, discharged by Z3"
KAN = "Kani full-domain proof of contract harnesses compiled into the crate"
REP = "; contracts also evaluated on the compiled code to replay failures (never counted as proved)"

P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, level="proof", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
                  technique=technique, level=level, note=note, na=na))


p("C01", "Fill rules classify winding counts on both sides of an edge",
  "For every edge carrying signed subject and clip (or subject and polyline) counts, and any counts accumulated below it, the side flags of the edge say inside/outside exactly as the chosen fill rule (even-odd, non-zero, positive, negative) reads the accumulated count below the edge and the count above it, where above = below + edge. A polyline edge contributes its directions but never changes the counts carried to the edges above it.",
  ["inputs", "configurations"], "all 32-bit counts below and on the edge whose sums stay in 32 bits, all four fill rules, Boolean, string and offset overlays, and any number of edges in a vertical stack",
  "The tests run a few dozen polygons with counts 0, 1 and 2; the sign, parity and carry rules must hold for every count, and a wrong case shows only for unusual windings such as -2 under Negative or even counts under EvenOdd.",
  ["iOverlay/src/core/overlay.rs", "iOverlay/src/string/overlay.rs", "iOverlay/src/mesh/boolean.rs", "iOverlay/src/fill/solver.rs", "iOverlay/src/core/solver.rs"],
  [("FillStrategy::add_and_fill", "core/overlay.rs, string/overlay.rs, mesh/boolean.rs"), ("sweep that accumulates counts below each edge", "fill/solver.rs")],
  T + KAN + REP, note="Full-domain Kani proofs of every fill strategy (loop-free). The sweep that feeds them is proved in C15.")
p("C02", "Overlay rules keep exactly the boundary edges, result on the right side",
  "For every pair of side classifications of an edge, each overlay rule (subject, clip, union, intersect, difference, inverse difference, xor) keeps the edge exactly when the Boolean operation differs between its two sides, and the side reported as inside is the one where the operation is true. Clipping and slicing rules keep exactly the parts of polylines inside (or, complemented, outside) the body.",
  ["inputs", "configurations"], "all 16 side classifications of an edge, all overlay rules and clip rules, links of any Boolean, string and offset overlay",
  "The tests sample overlays of a few shapes; the truth table must hold for each of the 16 classifications, several of which (an edge where both shapes start on opposite sides, or coincide) arise only in degenerate inputs.",
  ["iOverlay/src/core/filter.rs", "iOverlay/src/core/overlay_rule.rs", "iOverlay/src/string/filter.rs", "iOverlay/src/string/clip.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/mesh/boolean.rs"],
  [("edge filters per overlay rule", "core/filter.rs"), ("fill-top test", "core/overlay_rule.rs"), ("clip filters", "string/filter.rs, string/clip.rs")],
  T + VER + KAN + REP, note="The per-edge predicates are proved twice (Verus contracts and full-domain Kani proofs); the loops that keep the links and the choice of the predicate by rule are Verus contracts. The slice filters are covered by replay.")
p("C03", "Winding counts form a group and edges keep their orientation",
  "Counts of coincident edges combine by addition, a reversed edge carries the inverse count, and an edge and its reverse cancel to an empty edge that is dropped. Building an edge from two points in either order gives the same geometry with inverted counts.",
  ["inputs"], "all counts whose sums fit 32 bits and all pairs of distinct points, Boolean, string and offset counts",
  "Tests use unit counts and few orientations; cancellation errors show only when coincident edges of several contours meet.",
  ["iOverlay/src/segm/winding_count.rs", "iOverlay/src/segm/segment.rs", "iOverlay/src/mesh/boolean.rs"],
  [("WindingCount::add/apply/invert/with_shape_type", "segm/winding_count.rs"), ("Segment::create_and_validate", "segm/segment.rs")],
  T + KAN + REP, note="Full-domain Kani proofs.")
p("C04", "A contour becomes edges that carry exactly its windings",
  "Whatever closed contour is added (repeated points, spikes, collinear runs, an explicitly repeated first point, all points on a line), the edges appended for it, each run from its smaller to its greater end and counted once forward or backward for its own shape, add up to exactly the windings of the contour: every point of the plane keeps its winding number, nothing is lost or added, and edges already present stay as they were.",
  ["inputs"], "all contours of any length with coordinates strictly between -2^30 and 2^30, Boolean and string overlays, subject and clip",
  "Tests check a few contours per rotation; degenerate runs at the seam of a contour (where the scan starts and stops) combine in many ways, and a lost seam edge leaves an open outline only for that combination.",
  ["iOverlay/src/segm/build.rs", "iOverlay/src/segm/winding_count.rs", "iOverlay/src/core/overlay.rs"],
  [("private_append_iter", "segm/build.rs"), ("Segment::with_ab", "segm/build.rs"), ("WindingCount::with_shape_type", "segm/winding_count.rs")],
  T + VER + REP, note="Verified for every measure of directed edges that cancels on reversal and adds along a line (signed area and winding numbers are such measures). The iterator is an abstract fused source of points.")
p("C05", "Merging coincident edges keeps the total count of every edge",
  "After merging a sorted list of non-empty edges, every edge of the plane appears at most once, in strictly increasing order; it carries the combination of all the counts its copies had, and it is absent exactly when those cancel (or when it was never there). No empty edge survives.",
  ["inputs"], "all sorted lists of non-empty edges of any length whose counts sum within 32 bits; Boolean, string and offset counts",
  "Tests merge two or three edges; the in-place compaction with its read and write positions must be right for every pattern of runs and cancellations.",
  ["iOverlay/src/segm/merge.rs", "iOverlay/src/segm/winding_count.rs"],
  [("merge_if_needed, merge", "segm/merge.rs"), ("WindingCount::apply, is_not_empty", "segm/winding_count.rs")],
  T + VER + REP, note="Verified against an abstract winding count (commutative, associative, with inverse) whose Boolean and string implementations are verified in the same unit.")
p("C06", "Splitting leaves no crossings and keeps the balance of every point",
  "Every crossing found marks exactly the segments it lies inside of, at the crossing or the taken-over end, and overlaps are marked at every end lying strictly inside the other segment; a rounded crossing asks for another pass. After splitting, by any strategy (list, tree, fragments, serial or parallel), no two edges cross, overlap or hold an end of another inside, edges are in order and each once, every strategy yields the same edges, and for every point what leaves it minus what enters it is unchanged.",
  ["inputs", "configurations"], "all pairs of segments with coordinates strictly between -2^30 and 2^30 and all snap radii (marks); all strategies and edge sets (result, replayed)",
  "Which strategy runs depends on the number of edges: the tests almost only reach the list, and overlaps or T-junctions on the border of a grid column are lost only for particular positions.",
  ["iOverlay/src/split/solver.rs", "iOverlay/src/split/solver_fragment.rs", "iOverlay/src/split/solver_tree.rs", "iOverlay/src/split/solver_list.rs", "iOverlay/src/segm/segment.rs"],
  [("SplitSolver::cross, cross_fragments", "split/solver.rs, split/solver_fragment.rs"), ("apply, one_bin_merge, multi_split_edge", "split/solver.rs"), ("strategy loops", "split/solver_list.rs, solver_tree.rs, solver_fragment.rs")],
  T + VER + REP, note="Proved: the marks of a pair, a pass (apply and all it calls: the edges after it are exactly the marked pieces, in order, merged, with the balance of every point kept), the list, tree and fragment strategies and the whole of split_segments: what they return is planar, in order, each edge once, and balanced as the input. Given room in memory, 32-bit counts, and the documented contracts of the i_tree segment tree, the sorts and the hash map; rayon's collect is read as the loop in column order. Equality of strategies and termination are evaluated on the compiled code.")
p("C07", "Crossings between two segments are found and classified exactly",
  "For any two segments, the crossing test reports nothing exactly when they neither overlap on a line, nor cross at a point interior to both, nor have an end of one in the interior of the other; otherwise the reported kind names which of these holds. A crossing taken over by an end is snapped only to the nearest end and only within the snap radius, and for collinear segments the ends strictly inside the other one are named exactly.",
  ["inputs"], "all pairs of non-degenerate segments with coordinates strictly between -2^30 and 2^30, all non-negative snap radii",
  "Existing tests check a handful of hand-made pairs; the classification must hold for all positions, including near-parallel pairs and coordinates at the end of the range where intermediate products come near the 64-bit limit.",
  ["iOverlay/src/split/cross_solver.rs"],
  [("CrossSolver::cross, middle_cross, collinear", "split/cross_solver.rs"), ("Triangle orientation predicates", "i_float dependency")],
  T + VER + REP, note="Every function from the i_float predicates up is verified for the whole coordinate domain, overflow included. Trusted: three std integer functions, checked by a full-domain Kani harness.")
p("C08", "Crossing points are within a unit of the exact crossing and in both boxes",
  "The integer point returned for two properly crossing segments is less than one unit away from the exact rational crossing in each coordinate and stays inside the bounding boxes of both segments, with no overflow on the way. The 128 by 64 bit division under it is less than one off, and rounds to the nearest (halves up).",
  ["inputs"], "all properly crossing pairs of segments with coordinates strictly between -2^30 and 2^30; all 128-bit dividends whose quotient fits 64 bits and divisors below 2^63",
  "Tests pin a few crossings; accuracy and overflow freedom must hold over a 256-bit input space where carries between the 128-bit halves and quotient corrections matter only in rare ranges.",
  ["iOverlay/src/split/cross_solver.rs"],
  [("CrossSolver::cross_point", "split/cross_solver.rs"), ("RoundDivide::divide_with_rounding", "split/cross_solver.rs"), ("UInt128::multiply", "i_float dependency")],
  T + VER + REP, note="Fully verified; rounding to the nearest holds for 64-bit dividends only (known finding: wide dividends are truncated, pinned by a stable test).")

p("C09", "At a crossing the walk takes the first free edge in turning order",
  "At every crossing the next edge of a contour is the edge not walked yet that is reached first when turning from the arriving edge in the walking direction, however many edges meet, in whatever order they are listed and at whatever angles (half turns included).",
  ["inputs"], "any number of edges around a node, all directions within the coordinate range, both turning directions",
  "Tests place a handful of axis-aligned vectors; a wrong comparison shows only for particular angle pairs and listing orders, and then swaps whole contours.",
  ["iOverlay/src/core/nearest_vector.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/core/link.rs"],
  [("NearestVector::new, add", "core/nearest_vector.rs"), ("OverlayGraph::find_nearest_link_to, link, node", "core/extract.rs"), ("Visit for [bool]", "core/extract.rs"), ("OverlayLink::other", "core/link.rs")],
  T + VER + REP, note="|x|, |y| < 2^30; no free edge leaves in the direction of the arriving one (edges do not overlap after splitting, C06).")
p("C10", "Every point gets one node that lists exactly the edges ending there",
  "The graph built from the kept edges has exactly one node per end point, and the node lists every edge that starts or ends there once and no other edge; both ends of every edge carry the number of their node. This holds for Boolean, string and offset graphs, whatever number of edges meets at a point, and only edges that the filter keeps become links, each with the points and the flags of its segment.",
  ["inputs", "configurations"], "all lists of links sorted by their start, of any length, with any pattern of shared end points; all overlay rules for the choice of edges",
  "Tests meet two to four edges at a point; nodes with one, two, or many edges have different representations, and the merge of the start list with the end list has its own cases at the ends of both lists.",
  ["iOverlay/src/core/link.rs", "iOverlay/src/core/graph.rs", "iOverlay/src/core/node.rs", "iOverlay/src/string/graph.rs"],
  [("OverlayLinkBuilder", "core/link.rs"), ("build_nodes_and_connect_links", "core/graph.rs"), ("OverlayNode", "core/node.rs")],
  T + VER + REP, note="The sorts are trusted to permute and order (standard library).")
p("C11", "Contours close and use every kept edge exactly once",
  "Every contour extracted is a closed walk along kept edges with the inside on the proper side, and all contours together use every kept edge exactly once, in both main directions and for the vector, shape and offset outputs. With a minimum area exactly the contours below it are missing; points in the middle of straight runs are dropped only where the options ask for it. Offset outputs keep a contour exactly when it has an edge that is not an inner one and the outer contour of its shape has one too.",
  ["inputs", "configurations"], "all planar graphs with any number of contours that touch at points, all overlay rules, both directions, all minimum areas",
  "Tests extract shapes with few touching points; where a walk restarts, stops or is dropped depends on several contours meeting at one point.",
  ["iOverlay/src/core/extract.rs", "iOverlay/src/core/nearest_vector.rs", "iOverlay/src/vector/extract_vectors.rs", "iOverlay/src/mesh/boolean.rs"],
  [("GraphContour, OverlayGraph::extract, get_contour", "core/extract.rs"), ("extract_vectors", "vector/extract_vectors.rs"), ("extract_offset", "mesh/boolean.rs")],
  T + VER + REP, note="Proved for the main extraction and for its copy for strokes and outlines (choice of the next edge, walk along one contour, the loop over all of them) where kept edges meet at every vertex in even number; the copy for vectors is proved in C20.")
p("C12", "Every hole goes to the shape it lies in",
  "Each hole is put into the one shape whose outer contour encloses it most closely, whatever the number of shapes and holes, the nesting (shapes inside holes inside shapes), holes that touch their outer contour or one another at a point, and the output direction. Segments are ordered by height above any common abscissa; the search by list and by tree give the same answer.",
  ["inputs", "configurations"], "all sets of non-crossing contours, both directions, any number of shapes (list or tree) and holes",
  "Tests bind a few holes, nearly all by the list; a tree is used only for many shapes, and touching contours compare as equal at the common point.",
  ["iOverlay/src/bind/solver.rs", "iOverlay/src/bind/segment.rs", "iOverlay/src/geom/v_segment.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/vector/extract_vectors.rs"],
  [("ShapeBinder::bind, private_solve; JoinHoles", "bind/solver.rs"), ("IdSegments", "bind/segment.rs"), ("JoinHoles, most_left_bottom", "vector/extract_vectors.rs"), ("VSegment::is_under_point_order, is_under_segment_order", "geom/v_segment.rs"), ("LeftBottomSegment", "core/extract.rs")],
  T + VER + REP, note="The list and the tree of i_tree are external: Verus proves the sweep, the edges given to it and the placing of the holes (for point and vector shapes) against their documented contract; the harness runs the compiled ones. That holes lie inside shapes, each over an edge of a shape or of a hole further left, is a precondition of the proofs (checked by replay on meshes).")
p("C13", "The column grid loses no meeting of two edges",
  "Cutting edges into the columns of the fragment grid gives each edge exactly one piece in each column it spans; the box of a piece is the tight integer box of that part of the edge; vertical edges along a border are recorded for it. So any two edges that meet, other than in a shared end, have pieces in one column whose boxes both hold the point, or one is a recorded vertical edge and the other ends on it; and all such pairs are checked.",
  ["inputs", "configurations"], "all edges within the coordinate range, every layout",
  "Tests try a few edges on a few columns; a piece box one unit too small, or a wrong border, loses a crossing only for particular slopes and borders.",
  ["iOverlay/src/split/grid_layout.rs", "iOverlay/src/split/fragment.rs", "iOverlay/src/split/solver_fragment.rs"],
  [("GridLayout::index, pos, with_min_max", "split/grid_layout.rs"), ("FragmentBuffer::add_segment, add_horizontal, insert, insert_vertical", "split/grid_layout.rs"), ("Fragment::with_index_and_segment", "split/fragment.rs"), ("SplitSolver::bin_split, on_border_split", "split/solver_fragment.rs")],
  T + VER + REP, note="The contracts cover |x|, |y| < 2^30; the loops over the pieces of a column (bin_split, on_border_split) are checked by the bounded replay bodies only.")
p("C14", "The snap radius grows by the chosen precision and stays in range",
  "For every precision setting the snap radius of a pass is two to the power of the starting value plus the passes made times the step, capped at 2^60: it never overflows, never shrinks from one pass to the next and is always at least one.",
  ["configurations", "histories"], "all precision values (any start and step) and any number of passes",
  "Tests use the presets only; the exponent passes 31 and 63 only after many passes or with unusual settings, where shifts and casts wrap silently.",
  ["iOverlay/src/split/snap_radius.rs", "iOverlay/src/core/solver.rs", "iOverlay/src/split/solver_fragment.rs"],
  [("SnapRadius::increment, radius", "split/snap_radius.rs"), ("SplitSolver::snap_radius", "split/snap_radius.rs")],
  T + VER + " and a full-domain Kani harness" + REP, note="Full domain.")

p("C15", "The sweep finds what lies on both sides of every edge",
  "For edges that meet only in their ends, sorted by start, the fill of each edge tells exactly which of its two sides are inside: the count below an edge is the count above the edge directly below it (the next one to its right at the same start, else the highest of those passing below its start, else nothing), its own count adds to that, and the fill rule decides. On closed contours these counts are the winding numbers of both sides. The list and the tree variant agree, for areas, for areas with lines along the edges and for outlines.",
  ["inputs", "configurations"], "all planar edge sets with winding counts in range, every fill rule, list and tree",
  "Tests sweep a handful of small figures with the list only; a wrong order of edges that start together, an edge expiring early or a vertical edge kept alive shows only for particular arrangements.",
  ["iOverlay/src/fill/solver.rs", "iOverlay/src/core/link.rs", "iOverlay/src/mesh/boolean.rs", "iOverlay/src/geom/v_segment.rs", "iOverlay/src/geom/end.rs"],
  [("FillSolver::solve", "fill/solver.rs"), ("add_and_fill of the Boolean and string strategies", "core/link.rs"), ("SubjectOffsetStrategy", "mesh/boolean.rs"), ("VSegment::is_under_point_order", "geom/v_segment.rs")],
  T + VER + REP, note="Verus proves the sweep for every fill strategy against the documented contract of the i_tree collections (assumed, external) and of the standard sort; the counts must stay within i32. That the counts are winding numbers on closed contours is compared on the compiled code only.")
p("C16", "Clipped lines come back as paths that use every kept piece once",
  "Clipping lines by filled shapes returns paths that run along the lines in their own direction. Together they contain each piece of a line that the fill rule and the clip rule (inside or outside, with or without the boundary) ask for exactly once and nothing else; consecutive steps of a path join, a path has at least one step, and it stops only where no piece not yet used goes on. Adding a line, path or closed contour adds exactly its steps that have a length.",
  ["inputs", "configurations"], "any lines (open, closed, overlapping, visited twice, with repeated points), any shapes, all fill rules and clip rules",
  "Tests clip a few lines by a square; lines that run both ways along one edge, meet in a point with others or start in the middle of a chain need histories of visits to one node that the tests do not make, and a lost piece is silent.",
  ["iOverlay/src/string/clip.rs", "iOverlay/src/string/graph.rs", "iOverlay/src/string/overlay.rs", "iOverlay/src/core/link.rs", "iOverlay/src/core/filter.rs"],
  [("StringGraph::into_clip_string_lines", "string/clip.rs"), ("StringGraph::find_next_point", "string/clip.rs"), ("StringOverlay::add_string_path/contour/lines", "string/overlay.rs"), ("OverlayLinkBuilder::build_string_with_clip_rule", "core/link.rs")],
  T + VER + REP, note="Splitting and the sweep enter through uninterpreted relations (they are C06 and C15); the pipeline as a whole is covered by replay on shapes and lines along a mesh. Duplicate steps of one direction count once, as documented by the representation.")
p("C17", "Dividing a self-touching contour keeps every edge and leaves no touch",
  "Decomposing a contour that visits points more than once gives contours that visit no point twice and have together exactly the edges of the original, with their directions, whatever the number, order and nesting of the touching points; a contour without repeated points (or with fewer than three points) is reported as needing no division.",
  ["inputs"], "contours of any length with any pattern of repeated points",
  "Tests touch at one or two points; three visits to one point inside another loop, or loops that share two points, need other patterns, and a lost loop is silent.",
  ["iOverlay/src/core/divide.rs"],
  [("ContourDecomposition::decompose_contours", "core/divide.rs")],
  T + VER + REP, note="The order of the parts is not specified.")
p("C18", "A traced slice path falls into simple loops; small pieces are dropped",
  "When shapes are cut by lines, each traced path is split into loops of at least three points that visit no point twice and have together the edges of the path, except edges walked there and back; of these exactly the loops whose area is at least the minimum area are kept.",
  ["inputs", "configurations"], "paths of any length with any pattern of repeated points, all minimum areas",
  "Tests use one or two loops and minimum area zero; stale places of removed points, repeated spurs and the area limit need other patterns.",
  ["iOverlay/src/string/split.rs", "iOverlay/src/string/extract.rs"],
  [("Split::split_loops", "string/split.rs"), ("ValidateArea::validate_area", "string/split.rs"), ("StringGraph::extract_shapes_custom", "string/extract.rs")],
  T + VER + REP, note="The area is the 64-bit wrapped sum the code computes; the harness also compares with the exact area. The whole slicing pipeline is property C19.")
p("C19", "Slicing cuts the filled area along the lines and nowhere else",
  "When shapes are sliced by lines, every filled side of an outline or of a line that cuts the filled area lies on exactly one returned contour, once, in the direction that has the area on it; each maximal part of the filled area not crossed by lines comes back as one shape with its outline in the direction asked for and its holes the other way; an edge inside the filled area along which no line goes cuts nothing, and the walks around the parts always end.",
  ["inputs", "configurations"], "all line-and-outline graphs, fill rules, directions and minimum areas",
  "Tests slice a few squares by a few lines; overlapping inputs, points where many lines meet and lines that end inside need other cases.",
  ["iOverlay/src/string/extract.rs", "iOverlay/src/string/filter.rs", "iOverlay/src/string/slice.rs", "iOverlay/src/string/split.rs"],
  [("StringGraph::extract_shapes_custom, get_paths, find_nearest_link_to", "string/extract.rs"), ("OverlayLink::visit_fill, is_move_possible; StringGraph::filter_slice", "string/filter.rs"), ("Split::split_loops", "string/split.rs")],
  T + VER + REP, note="Proved for graphs whose nodes have as many filled sides leading out as in (checked by replay on built graphs) and whose links meet only at nodes; that holes are joined to the right shape is an assumed contract here (C12), and that a part is one shape is checked by replay on meshes.")
p("C20", "Vector contours carry the fill of both sides of every edge",
  "Vector shapes have as their edges exactly the border of the result: each border edge is on one contour, once, the result on its right; each edge ends where the next one starts, and its fill says of the subject and of the clip whether they are on its left and on its right, in the direction of the edge. The path of a contour is the starts of its edges. Separate vectors are the links one for one, with their ends and fills; against the order of its ends an edge has left and right exchanged.",
  ["inputs", "configurations"], "all graphs, overlay and fill rules",
  "Tests look at one or two shapes; an edge walked against the order of its link, nodes with several ways on and places with both inputs need others.",
  ["iOverlay/src/vector/extract_vectors.rs", "iOverlay/src/vector/edge.rs", "iOverlay/src/core/overlay.rs"],
  [("OverlayGraph::extract_shape_vectors, get_vector_path, extract_separate_vectors", "vector/extract_vectors.rs"), ("VectorEdge::new, Reverse, ToPath", "vector/edge.rs"), ("Overlay::into_shape_vectors, into_separate_vectors", "core/overlay.rs")],
  T + VER + REP, note="Proved for graphs where kept edges meet at every vertex in even number and sorted links; which links a rule keeps and which side is filled are C02 and C15, the placing of holes is C12; what the two calls on Overlay hand on is proved in C21.")
p("C21", "Float and shorter calls give what the full integer call gives",
  "An overlay, slice, clip or simplification of float points gives the shapes the integer call with the same rule, fill rule, direction and solver gives on the points converted by one adapter for all points of both sources, converted back; areas below the filter's, scaled, are left out, and the result is cleaned when the filter says so. Every form of a source (points, contours, shapes; slices, vectors, arrays) gives all its contours in order, as subject, clip or lines as named. Calls without direction, filter or solver use counterclockwise outlines, simplified, of any area, and the automatic solver. Overlays of shapes are those of their contours; simplifying is the overlay of the subject alone; slicing or clipping by paths is that by all their steps.",
  ["inputs", "configurations"], "all sources and arguments",
  "Tests run each call on one or two figures with default arguments; swapped or dropped sources, lost filters and empty shapes need others.",
  ["iOverlay/src/float/overlay.rs", "iOverlay/src/float/source/triple.rs", "iOverlay/src/core/overlay.rs", "iOverlay/src/string/overlay.rs"],
  [("FloatOverlay, FloatOverlayGraph, FloatStringOverlay, FloatStringGraph", "float/overlay.rs, float/graph.rs, float/string_overlay.rs, float/string_graph.rs"), ("SimplifyShape, SingleFloatOverlay, FloatSlice, FloatClip", "float/simplify.rs, float/single.rs, float/slice.rs, float/clip.rs"),
   ("OverlayResource and its iterators", "float/source/single.rs, double.rs, triple.rs"), ("Overlay, StringOverlay, Simplify, IntSlice, IntClip", "core/overlay.rs, core/simplify.rs, string/overlay.rs, string/slice.rs, string/clip.rs")],
  T + VER + REP, note="The conversion of points and the parts of the integer pipeline are named, not described, here: a float or shorter call is shown to hand them the same arguments.")
p("C22", "Strokes and outlines are closed bands beside their path",
  "For every path (any number of points, repeated points, reversals), width or offset, join and cap, the edges built for a stroke or an outline are closed: as many leave every grid point as come to it, none has zero length, a path of fewer than two distinct grid points gives none, and nothing panics. The shapes cover what lies nearer than the radius beside a path or contour and in its joins and caps, as far as sections are longer than the width, and nothing beyond sides, joins and caps: Bevel cuts the corner, Miter runs to the sharp corner or is cut at its limit, Round keeps the radius; Butt, Square, Round and Custom caps end a path where they say. Outlines grow with positive offsets and shrink with negative ones, holes by the inner offset; direction and smallest area are those asked for.",
  ["inputs", "configurations"], "all paths, widths, joins and caps",
  "Tests draw a dozen fixed paths and count contours; reversals, repeated points, tiny widths, far custom caps and mixed outlines need others.",
  ["iOverlay/src/mesh/stroke/builder.rs", "iOverlay/src/mesh/stroke/builder_join.rs", "iOverlay/src/mesh/stroke/builder_cap.rs", "iOverlay/src/mesh/outline/builder.rs", "iOverlay/src/mesh/outline/builder_join.rs", "iOverlay/src/mesh/stroke/offset.rs", "iOverlay/src/mesh/outline/offset.rs"],
  [("Builder::open_segments, closed_segments, next_unique_point", "mesh/stroke/builder.rs"), ("Bevel, Miter and Round JoinBuilder", "mesh/stroke/builder_join.rs, mesh/outline/builder_join.rs"), ("CapBuilder", "mesh/stroke/builder_cap.rs"), ("Miter::sharp, bold_subject_ab", "mesh/miter.rs, mesh/subject.rs"), ("stroke_custom, outline_custom", "mesh/stroke/offset.rs, mesh/outline/offset.rs")],
  T + VER + REP, note="Proved for all paths and any values of the float operations: edges closed, none of zero length, nothing for a single grid point. Where the bands lie is not in any contract (sin, cos, acos have no theory here): that part is replay only.")
NA = [
  ("N01", "Boolean results equal the exact point-set operation up to snapping",
   "For any polygons, fill rule and overlay rule, the shapes returned cover, up to rounding to the integer grid, exactly the points where the Boolean operation of the two filled inputs is true.",
   ["inputs", "configurations"], "all inputs and rules, whole pipeline",
   "End to end over arbitrary polygon sets; tests sample a few hundred.",
   ["iOverlay/src/core/overlay.rs", "iOverlay/src/core/extract.rs"], [("whole pipeline", "split, fill, filter, extract")],
   "A contract over the whole pipeline needs a verified planar sweep with snap rounding (the split loop iterates to a fixpoint over moving geometry, and the contour tracing relies on a planarity invariant that no function establishes locally); no deductive tool here reaches it. Its local ingredients are the claimed properties."),
  ("N02", "All split and sort strategies give the same result",
   "List, tree and fragment strategies, serial or parallel sorting, and any solver precision schedule yield the same set of result shapes.",
   ["inputs", "configurations", "schedules"], "all inputs and solver settings",
   "Strategy choice depends on input size; tests compare a few cases.",
   ["iOverlay/src/split/solver.rs", "iOverlay/src/core/solver.rs", "iOverlay/src/util/sort.rs"], [("strategy dispatch", "split/solver.rs")],
   "A relational property of three whole-program algorithms (with rayon in the parallel case): needs functional equivalence of full sweeps, outside function-level contracts; rayon and i_tree are external."),
  ("N03", "Stroke and offset outlines keep the requested distance",
   "Every point of a generated stroke or offset outline lies at the requested distance from the path, up to the join and cap style and rounding.",
   ["inputs", "configurations"], "all paths, styles and radii",
   "A geometric bound on floating-point trigonometry for all inputs.",
   ["iOverlay/src/mesh/stroke/offset.rs", "iOverlay/src/mesh/outline/offset.rs"], [("join and cap builders", "mesh/stroke, mesh/outline")],
   "Generic floating-point code with sin, cos, acos and sqrt: neither Verus (no float theory) nor Kani (libm calls unmodelled) can state the error bound. That the edges are closed is proved in C22, which also replays where the bands lie."),
  ("N04", "Every operation terminates, time bounded by the crossings found",
   "The split loop reaches a state without crossings and contour tracing always ends, for every input.",
   ["inputs", "histories"], "all inputs",
   "Non-termination needs a rare snapping cycle that no sampled input shows.",
   ["iOverlay/src/split/solver.rs", "iOverlay/src/core/extract.rs"], [("split fixpoint loop", "split/solver.rs")],
   "The split loop has no decreasing measure in the code (snapping can create new crossings); its termination argument is the growing snap radius plus floating geometry, a whole-history argument outside contracts."),
]
for (i, t, st, ov, tx, why, fi, me, re_) in NA:
    p(i, t, st, ov, tx, why, fi, me, na=re_)
