// ---- core/overlay.rs, core/simplify.rs, string/overlay.rs, string/slice.rs, string/clip.rs:
//      the shorter calls do what the calls with all their arguments do ----
//@ import lines.vx
verus! {
//@ item core/overlay.rs enum ShapeType
//@ item core/overlay.rs enum ContourDirection
//@ item core/fill_rule.rs enum FillRule
//@ item core/overlay_rule.rs enum OverlayRule
//@ item string/rule.rs enum StringRule
//@ item string/clip.rs struct ClipRule
//@ item core/solver.rs enum Strategy
use Strategy::{Auto, Frag, List, Tree};
//@ item core/solver.rs struct Precision
//@ item core/solver.rs struct MultithreadOptions
//@ item core/solver.rs struct Solver
//@ item segm/winding_count.rs struct ShapeCountBoolean
//@ item core/overlay.rs struct Overlay
//@ item i_shape:int/shape.rs type IntShape
//@ item i_shape:int/shape.rs type IntShapes

// what the parts of the pipeline make of their arguments: a name for each, nothing is assumed of them here (they have their own units)
pub struct OverlayLink { pub fill: u8 }
pub struct OverlayGraph { pub links: Vec<OverlayLink> }
pub struct StringGraph { pub links: Vec<OverlayLink> }
pub struct VectorShape { pub any: u8 }
pub struct VectorEdge { pub any: u8 }
pub enum Filtered { Unfiltered, Filler, Rule(OverlayRule) }
pub enum FilteredString { All, Clip(ClipRule) }
// the edges after the edges of a closed path were appended (C04: build.vx)
pub uninterp spec fn with_path<C: Send>(s: Seq<Segment<C>>, p: Seq<IntPoint>, t: ShapeType) -> Seq<Segment<C>>;
pub uninterp spec fn is_linked(s: Seq<Segment<ShapeCountBoolean>>, fill_rule: FillRule, w: Filtered, solver: Solver, l: Vec<OverlayLink>) -> bool;
pub uninterp spec fn is_linked_string(s: Seq<Segment<ShapeCountString>>, fill_rule: FillRule, w: FilteredString, solver: Solver, l: Vec<OverlayLink>) -> bool;
pub uninterp spec fn is_graph(solver: Solver, l: Vec<OverlayLink>, g: OverlayGraph) -> bool;
pub uninterp spec fn is_string_graph(solver: Solver, l: Vec<OverlayLink>, g: StringGraph) -> bool;
pub uninterp spec fn is_extract(g: OverlayGraph, filter: Seq<bool>, rule: OverlayRule, main: ContourDirection, simplify: bool, min_area: usize, r: IntShapes) -> bool;
pub uninterp spec fn is_masked(g: OverlayGraph, rule: OverlayRule, filter: Seq<bool>) -> bool;
pub uninterp spec fn is_sliced(g: StringGraph, rule: StringRule, main: ContourDirection, min_area: usize, r: IntShapes) -> bool;
pub uninterp spec fn is_clipped(g: StringGraph, r: Vec<IntPath>) -> bool;
pub uninterp spec fn is_shape_vectors(g: OverlayGraph, rule: OverlayRule, r: Vec<VectorShape>) -> bool;
pub uninterp spec fn is_separate_vectors(g: OverlayGraph, r: Vec<VectorEdge>) -> bool;

// stands for an iterator over points: what it will give
pub trait Points: Sized { spec fn given(&self) -> Seq<IntPoint>; }
pub struct Each<'a> { pub all: &'a [IntPoint] }
impl<'a> Points for Each<'a> { open spec fn given(&self) -> Seq<IntPoint> { self.all@ } }
// stands for ``x.iter().copied()``
pub fn each<'a>(all: &'a [IntPoint]) -> (r: Each<'a>)
    ensures r.given() == all@
{ Each { all } }
pub trait BuildSegments<C: Send> {
    spec fn edges(&self) -> Seq<Segment<C>>;
    fn append_path_iter<I: Points>(&mut self, iter: I, shape_type: ShapeType)
        ensures final(self).edges() == with_path(old(self).edges(), iter.given(), shape_type);
}
impl<C: Send> BuildSegments<C> for Vec<Segment<C>> {
    open spec fn edges(&self) -> Seq<Segment<C>> { self@ }
    #[verifier::external_body]
    fn append_path_iter<I: Points>(&mut self, iter: I, shape_type: ShapeType) { unimplemented!() }
}
pub struct OverlayLinkBuilder;
impl OverlayLinkBuilder {
    #[verifier::external_body]
    pub fn build_with_overlay_filter(segments: Vec<Segment<ShapeCountBoolean>>, fill_rule: FillRule, overlay_rule: OverlayRule, solver: Solver) -> (r: Vec<OverlayLink>)
        ensures is_linked(segments@, fill_rule, Filtered::Rule(overlay_rule), solver, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn build_with_filler_filter(segments: Vec<Segment<ShapeCountBoolean>>, fill_rule: FillRule, solver: Solver) -> (r: Vec<OverlayLink>)
        ensures is_linked(segments@, fill_rule, Filtered::Filler, solver, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn build_without_filter(segments: Vec<Segment<ShapeCountBoolean>>, fill_rule: FillRule, solver: Solver) -> (r: Vec<OverlayLink>)
        ensures is_linked(segments@, fill_rule, Filtered::Unfiltered, solver, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn build_string_with_clip_rule(segments: Vec<Segment<ShapeCountString>>, fill_rule: FillRule, clip_rule: ClipRule, solver: Solver) -> (r: Vec<OverlayLink>)
        ensures is_linked_string(segments@, fill_rule, FilteredString::Clip(clip_rule), solver, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn build_string_all(segments: Vec<Segment<ShapeCountString>>, fill_rule: FillRule, solver: Solver) -> (r: Vec<OverlayLink>)
        ensures is_linked_string(segments@, fill_rule, FilteredString::All, solver, r)
    { unimplemented!() }
}
pub trait PointsCount { fn points_count(&self) -> (r: usize) ensures r <= usize::MAX / 2; }
impl PointsCount for [IntContour] {
    #[verifier::external_body]
    fn points_count(&self) -> (r: usize) { unimplemented!() }
}
impl PointsCount for [IntShape] {
    #[verifier::external_body]
    fn points_count(&self) -> (r: usize) { unimplemented!() }
}

// ---- what the calls mean ----
pub open spec fn with_paths<C: Send>(s: Seq<Segment<C>>, p: Seq<IntContour>, t: ShapeType, n: int) -> Seq<Segment<C>>
    decreases n
{
    if n <= 0 { s } else { with_path(with_paths(s, p, t, n - 1), p[n - 1]@, t) }
}
pub open spec fn with_shapes<C: Send>(s: Seq<Segment<C>>, p: Seq<IntShape>, t: ShapeType, n: int) -> Seq<Segment<C>>
    decreases n
{
    if n <= 0 { s } else { with_paths(with_shapes(s, p, t, n - 1), p[n - 1]@, t, p[n - 1]@.len() as int) }
}
pub open spec fn none<C: Send>() -> Seq<Segment<C>> { Seq::empty() }
pub open spec fn paths<C: Send>(s: Seq<Segment<C>>, p: Seq<IntContour>, t: ShapeType) -> Seq<Segment<C>> { with_paths(s, p, t, p.len() as int) }
pub open spec fn all_shapes<C: Send>(s: Seq<Segment<C>>, p: Seq<IntShape>, t: ShapeType) -> Seq<Segment<C>> { with_shapes(s, p, t, p.len() as int) }
// the overlay of the edges: link what the rule borders, connect, extract with no link left out
pub open spec fn overlaid_by(e: Seq<Segment<ShapeCountBoolean>>, rule: OverlayRule, fill_rule: FillRule, main: ContourDirection, simplify: bool, min_area: usize, solver: Solver, r: IntShapes, l: Vec<OverlayLink>, g: OverlayGraph) -> bool {
    is_linked(e, fill_rule, Filtered::Rule(rule), solver, l) && is_graph(solver, l, g) && is_extract(g, Seq::new(g.links@.len(), |i: int| false), rule, main, simplify, min_area, r)
}
pub open spec fn overlaid(e: Seq<Segment<ShapeCountBoolean>>, rule: OverlayRule, fill_rule: FillRule, main: ContourDirection, simplify: bool, min_area: usize, solver: Solver, r: IntShapes) -> bool {
    exists|l: Vec<OverlayLink>, g: OverlayGraph| #[trigger] overlaid_by(e, rule, fill_rule, main, simplify, min_area, solver, r, l, g)
}
pub open spec fn graphed_by(e: Seq<Segment<ShapeCountBoolean>>, fill_rule: FillRule, w: Filtered, solver: Solver, g: OverlayGraph, l: Vec<OverlayLink>) -> bool { is_linked(e, fill_rule, w, solver, l) && is_graph(solver, l, g) }
pub open spec fn graphed(e: Seq<Segment<ShapeCountBoolean>>, fill_rule: FillRule, w: Filtered, solver: Solver, g: OverlayGraph) -> bool { exists|l: Vec<OverlayLink>| #[trigger] graphed_by(e, fill_rule, w, solver, g, l) }
pub open spec fn strung_by(e: Seq<Segment<ShapeCountString>>, fill_rule: FillRule, w: FilteredString, solver: Solver, g: StringGraph, l: Vec<OverlayLink>) -> bool { is_linked_string(e, fill_rule, w, solver, l) && is_string_graph(solver, l, g) }
pub open spec fn strung(e: Seq<Segment<ShapeCountString>>, fill_rule: FillRule, w: FilteredString, solver: Solver, g: StringGraph) -> bool { exists|l: Vec<OverlayLink>| #[trigger] strung_by(e, fill_rule, w, solver, g, l) }
pub open spec fn shaped(e: Seq<Segment<ShapeCountBoolean>>, rule: OverlayRule, fill_rule: FillRule, solver: Solver, r: Vec<VectorShape>) -> bool { exists|g: OverlayGraph| graphed(e, fill_rule, Filtered::Rule(rule), solver, g) && #[trigger] is_shape_vectors(g, rule, r) }
pub open spec fn separated(e: Seq<Segment<ShapeCountBoolean>>, fill_rule: FillRule, solver: Solver, r: Vec<VectorEdge>) -> bool { exists|g: OverlayGraph| graphed(e, fill_rule, Filtered::Unfiltered, solver, g) && #[trigger] is_separate_vectors(g, r) }
pub open spec fn clipped(e: Seq<Segment<ShapeCountString>>, fill_rule: FillRule, clip_rule: ClipRule, solver: Solver, r: Vec<IntPath>) -> bool { exists|g: StringGraph| strung(e, fill_rule, FilteredString::Clip(clip_rule), solver, g) && #[trigger] is_clipped(g, r) }
pub open spec fn sliced(e: Seq<Segment<ShapeCountString>>, fill_rule: FillRule, r: IntShapes) -> bool { exists|g: StringGraph| strung(e, fill_rule, FilteredString::All, default_solver(), g) && #[trigger] is_sliced(g, StringRule::Slice, ContourDirection::CounterClockwise, 0, r) }
pub open spec fn clip_of(e: Seq<Segment<ShapeCountString>>, fill_rule: FillRule, clip_rule: ClipRule, r: Vec<IntPath>) -> bool { clipped(e, fill_rule, clip_rule, default_solver(), r) }
pub open spec fn extracted(g: OverlayGraph, rule: OverlayRule, main: ContourDirection, simplify: bool, min_area: usize, r: IntShapes) -> bool { exists|v: Seq<bool>| #[trigger] is_masked(g, rule, v) && is_extract(g, v, rule, main, simplify, min_area, r) }

// ---- the solver used when none is given ----
pub open spec fn default_solver() -> Solver { Solver { strategy: Strategy::Auto, precision: Precision { start: 0, progression: 1 }, multithreading: Some(MultithreadOptions { par_sort_min_size: 32768 }) } }
// stands for core::default::Default
pub trait Default: Sized {
    spec fn standard() -> Self;
    fn default() -> (r: Self)
        ensures r == Self::standard();
}
impl Precision {
//@ item core/solver.rs const HIGH in Precision
}
impl MultithreadOptions {
//@ item core/solver.rs const DEFAULT_PAR_SORT_MIN_SIZE in MultithreadOptions
}
impl Solver {
//@ item core/solver.rs const AUTO in Solver
}
impl Default for Solver {
    open spec fn standard() -> Self { default_solver() }
//@ fn core/solver.rs Default for Solver default
//@ nopub
//@ endfn
}
impl OverlayGraph {
    #[verifier::external_body]
    pub fn new(solver: Solver, links: Vec<OverlayLink>) -> (r: OverlayGraph)
        ensures is_graph(solver, links, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extract(&self, filter: Vec<bool>, overlay_rule: OverlayRule, main_direction: ContourDirection, simplify_contour: bool, min_area: usize) -> (r: IntShapes)
        ensures is_extract(*self, filter@, overlay_rule, main_direction, simplify_contour, min_area, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extract_shape_vectors(&self, overlay_rule: OverlayRule) -> (r: Vec<VectorShape>)
        ensures is_shape_vectors(*self, overlay_rule, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extract_separate_vectors(&self) -> (r: Vec<VectorEdge>)
        ensures is_separate_vectors(*self, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn mask(&self, overlay_rule: OverlayRule) -> (r: Vec<bool>)
        ensures is_masked(*self, overlay_rule, r@)
    { unimplemented!() }
//@ fn core/extract.rs OverlayGraph extract_shapes
//@ spec
        ensures extracted(*self, overlay_rule, ContourDirection::CounterClockwise, true, 0, r)
//@ endfn
//@ fn core/extract.rs OverlayGraph extract_shapes_custom
//@ sub <<<self.links.filter_by_rule(overlay_rule)>>> <<<self.mask(overlay_rule)>>>
//@ spec
        ensures extracted(*self, overlay_rule, main_direction, simplify_contour, min_area, r)
//@ endfn
}
impl StringGraph {
    #[verifier::external_body]
    pub fn new(solver: Solver, links: Vec<OverlayLink>) -> (r: StringGraph)
        ensures is_string_graph(solver, links, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extract_shapes_custom(&self, string_rule: StringRule, main_direction: ContourDirection, min_area: usize) -> (r: IntShapes)
        ensures is_sliced(*self, string_rule, main_direction, min_area, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_clip_string_lines(self) -> (r: Vec<IntPath>)
        ensures is_clipped(self, r)
    { unimplemented!() }
//@ fn string/extract.rs StringGraph extract_shapes
//@ spec
        ensures is_sliced(*self, string_rule, ContourDirection::CounterClockwise, 0, r)
//@ endfn
}

impl Overlay {
//@ fn core/overlay.rs Overlay new
//@ sub <<<Vec::with_capacity(capacity)>>> <<<Vec::<Segment<ShapeCountBoolean>>::with_capacity(capacity)>>>
//@ spec
        ensures r.segments@ =~= none::<ShapeCountBoolean>()
//@ endfn
//@ fn core/overlay.rs Overlay with_contour
//@ spec
        requires subj@.len() + clip@.len() <= usize::MAX
        ensures r.segments@ == with_path(with_path(none::<ShapeCountBoolean>(), subj@, ShapeType::Subject), clip@, ShapeType::Clip)
//@ endfn
//@ fn core/overlay.rs Overlay with_contours
//@ spec
        ensures r.segments@ == paths(paths(none::<ShapeCountBoolean>(), subj@, ShapeType::Subject), clip@, ShapeType::Clip)
//@ endfn
//@ fn core/overlay.rs Overlay with_shapes
//@ spec
        ensures r.segments@ == all_shapes(all_shapes(none::<ShapeCountBoolean>(), subj@, ShapeType::Subject), clip@, ShapeType::Clip)
//@ endfn
//@ fn core/overlay.rs Overlay add_path_iter
//@ sub <<<<I: Iterator<Item=IntPoint>>>>> <<<<I: Points>>>>
//@ spec
        ensures final(self).segments@ == with_path(old(self).segments@, iter.given(), shape_type)
//@ endfn
//@ fn core/overlay.rs Overlay add_contour
//@ sub <<<contour.iter().copied()>>> <<<each(contour)>>>
//@ spec
        ensures final(self).segments@ == with_path(old(self).segments@, contour@, shape_type)
//@ endfn
//@ fn core/overlay.rs Overlay add_contours
//@ index_loops
//@ spec
        ensures final(self).segments@ == paths(old(self).segments@, contours@, shape_type)
//@ entry
        let ghost s0 = self.segments@;
//@ loop 0
            invariant self.segments@ == with_paths(s0, contours@, shape_type, it0 as int)
//@ endfn
//@ fn core/overlay.rs Overlay add_shape
//@ spec
        ensures final(self).segments@ == paths(old(self).segments@, shape@, shape_type)
//@ endfn
//@ fn core/overlay.rs Overlay add_shapes
//@ index_loops
//@ spec
        ensures final(self).segments@ == all_shapes(old(self).segments@, shapes@, shape_type)
//@ entry
        let ghost s0 = self.segments@;
//@ loop 0
            invariant self.segments@ == with_shapes(s0, shapes@, shape_type, it0 as int)
//@ endfn
//@ fn core/overlay.rs Overlay into_shape_vectors
//@ spec
        ensures shaped(self.segments@, overlay_rule, fill_rule, solver, r)
//@ after links
        proof { assert forall|g: OverlayGraph| is_graph(solver, links, g) implies #[trigger] graphed(self.segments@, fill_rule, Filtered::Rule(overlay_rule), solver, g) by { assert(graphed_by(self.segments@, fill_rule, Filtered::Rule(overlay_rule), solver, g, links)); } }
//@ endfn
//@ fn core/overlay.rs Overlay into_separate_vectors
//@ spec
        ensures separated(self.segments@, fill_rule, solver, r)
//@ after links
        proof { assert forall|g: OverlayGraph| is_graph(solver, links, g) implies #[trigger] graphed(self.segments@, fill_rule, Filtered::Unfiltered, solver, g) by { assert(graphed_by(self.segments@, fill_rule, Filtered::Unfiltered, solver, g, links)); } }
//@ endfn
//@ fn core/overlay.rs Overlay into_graph
//@ spec
        ensures graphed(self.segments@, fill_rule, Filtered::Filler, default_solver(), r)
//@ endfn
//@ fn core/overlay.rs Overlay into_graph_with_solver
//@ spec
        ensures graphed(self.segments@, fill_rule, Filtered::Filler, solver, r)
//@ after links
        proof { assert forall|g: OverlayGraph| is_graph(solver, links, g) implies #[trigger] graphed(self.segments@, fill_rule, Filtered::Filler, solver, g) by { assert(graphed_by(self.segments@, fill_rule, Filtered::Filler, solver, g, links)); } }
//@ endfn
//@ fn core/overlay.rs Overlay overlay
//@ spec
        ensures overlaid(self.segments@, overlay_rule, fill_rule, ContourDirection::CounterClockwise, true, 0, default_solver(), r)
//@ endfn
//@ fn core/overlay.rs Overlay overlay_custom
//@ spec
        ensures overlaid(self.segments@, overlay_rule, fill_rule, main_direction, simplify_contour, min_area, solver, r)
//@ after links
        let ghost links0 = links;
//@ exit
        proof {
            let none_left = Seq::new(graph.links@.len(), |i: int| false);
            assert(none_left =~= filter@);
            assert forall|r: IntShapes| is_extract(graph, none_left, overlay_rule, main_direction, simplify_contour, min_area, r) implies
                #[trigger] overlaid(self.segments@, overlay_rule, fill_rule, main_direction, simplify_contour, min_area, solver, r) by {
                assert(overlaid_by(self.segments@, overlay_rule, fill_rule, main_direction, simplify_contour, min_area, solver, r, links0, graph));
            }
        }
//@ endfn
}

// ---- simplification: the overlay with the subject alone ----
pub open spec fn simplified(e: Seq<Segment<ShapeCountBoolean>>, fill_rule: FillRule, main: ContourDirection, simplify: bool, min_area: usize, r: IntShapes) -> bool {
    overlaid(e, OverlayRule::Subject, fill_rule, main, simplify, min_area, default_solver(), r)
}
pub trait Simplify {
    spec fn edges(&self) -> Seq<Segment<ShapeCountBoolean>>;
    fn simplify(&self, fill_rule: FillRule, main_direction: ContourDirection, simplify_contour: bool, min_area: usize) -> (r: IntShapes)
        ensures simplified(self.edges(), fill_rule, main_direction, simplify_contour, min_area, r);
}
impl Simplify for IntPath {
    open spec fn edges(&self) -> Seq<Segment<ShapeCountBoolean>> { with_path(none(), self@, ShapeType::Subject) }
//@ fn core/simplify.rs Simplify for IntPath simplify
//@ nopub
//@ endfn
}
impl Simplify for [IntPath] {
    open spec fn edges(&self) -> Seq<Segment<ShapeCountBoolean>> { paths(none(), self@, ShapeType::Subject) }
//@ fn core/simplify.rs Simplify for [IntPath] simplify
//@ nopub
//@ endfn
}
impl Simplify for IntShape {
    open spec fn edges(&self) -> Seq<Segment<ShapeCountBoolean>> { paths(none(), self@, ShapeType::Subject) }
//@ fn core/simplify.rs Simplify for IntShape simplify
//@ nopub
//@ endfn
}
impl Simplify for [IntShape] {
    open spec fn edges(&self) -> Seq<Segment<ShapeCountBoolean>> { all_shapes(none(), self@, ShapeType::Subject) }
//@ fn core/simplify.rs Simplify for [IntShape] simplify
//@ nopub
//@ endfn
}

// ---- lines ----
impl StringOverlay {
//@ fn string/overlay.rs StringOverlay with_shape_contour
//@ spec
        ensures r.segments@ == with_path(none::<ShapeCountString>(), contour@, ShapeType::Subject)
//@ after overlay
        proof { assert(overlay.segments@ =~= none::<ShapeCountString>()); }
//@ endfn
//@ fn string/overlay.rs StringOverlay with_shape_contours
//@ spec
        ensures r.segments@ == paths(none::<ShapeCountString>(), contours@, ShapeType::Subject)
//@ after overlay
        proof { assert(overlay.segments@ =~= none::<ShapeCountString>()); }
//@ endfn
//@ fn string/overlay.rs StringOverlay with_shape
//@ spec
        ensures r.segments@ == paths(none::<ShapeCountString>(), shape@, ShapeType::Subject)
//@ after overlay
        proof { assert(overlay.segments@ =~= none::<ShapeCountString>()); }
//@ endfn
//@ fn string/overlay.rs StringOverlay with_shapes
//@ spec
        ensures r.segments@ == all_shapes(none::<ShapeCountString>(), shapes@, ShapeType::Subject)
//@ after overlay
        proof { assert(overlay.segments@ =~= none::<ShapeCountString>()); }
//@ endfn
//@ fn string/overlay.rs StringOverlay add_shape_contour_iter
//@ sub <<<<I: Iterator<Item=IntPoint>>>>> <<<<I: Points>>>>
//@ spec
        ensures final(self).segments@ == with_path(old(self).segments@, iter.given(), ShapeType::Subject)
//@ endfn
//@ fn string/overlay.rs StringOverlay add_shape_contour
//@ sub <<<contour.iter().copied()>>> <<<each(contour)>>>
//@ spec
        ensures final(self).segments@ == with_path(old(self).segments@, contour@, ShapeType::Subject)
//@ endfn
//@ fn string/overlay.rs StringOverlay add_shape_contours
//@ index_loops
//@ spec
        ensures final(self).segments@ == paths(old(self).segments@, contours@, ShapeType::Subject)
//@ entry
        let ghost s0 = self.segments@;
//@ loop 0
            invariant self.segments@ == with_paths(s0, contours@, ShapeType::Subject, it0 as int)
//@ endfn
//@ fn string/overlay.rs StringOverlay add_shapes
//@ index_loops
//@ spec
        ensures final(self).segments@ == all_shapes(old(self).segments@, shapes@, ShapeType::Subject)
//@ entry
        let ghost s0 = self.segments@;
//@ loop 0
            invariant self.segments@ == with_shapes(s0, shapes@, ShapeType::Subject, it0 as int)
//@ endfn
//@ fn string/overlay.rs StringOverlay clip_string_lines
//@ spec
        ensures clip_of(self.segments@, fill_rule, clip_rule, r)
//@ endfn
//@ fn string/overlay.rs StringOverlay clip_string_lines_with_solver
//@ spec
        ensures clipped(self.segments@, fill_rule, clip_rule, solver, r)
//@ after links
        proof { assert forall|g: StringGraph| is_string_graph(solver, links, g) implies #[trigger] strung(self.segments@, fill_rule, FilteredString::Clip(clip_rule), solver, g) by { assert(strung_by(self.segments@, fill_rule, FilteredString::Clip(clip_rule), solver, g, links)); } }
//@ endfn
//@ fn string/overlay.rs StringOverlay into_graph
//@ spec
        ensures strung(self.segments@, fill_rule, FilteredString::All, default_solver(), r)
//@ endfn
//@ fn string/overlay.rs StringOverlay into_graph_with_solver
//@ spec
        ensures strung(self.segments@, fill_rule, FilteredString::All, solver, r)
//@ after links
        proof { assert forall|g: StringGraph| is_string_graph(solver, links, g) implies #[trigger] strung(self.segments@, fill_rule, FilteredString::All, solver, g) by { assert(strung_by(self.segments@, fill_rule, FilteredString::All, solver, g, links)); } }
//@ endfn
}
// the edges of the area, followed by those of the lines
pub trait IntSlice {
    spec fn area(&self) -> Seq<Segment<ShapeCountString>>;
    fn slice_by_line(&self, line: IntLine, fill_rule: FillRule) -> (r: IntShapes)
        ensures sliced(self.area() + step(line@[0], line@[1]), fill_rule, r);
    fn slice_by_lines(&self, lines: &[IntLine], fill_rule: FillRule) -> (r: IntShapes)
        ensures sliced(self.area() + apiece(lines@, lines@.len() as int), fill_rule, r);
    fn slice_by_path(&self, path: &IntPath, fill_rule: FillRule) -> (r: IntShapes)
        ensures sliced(self.area() + open_path(path@), fill_rule, r);
    fn slice_by_paths(&self, paths: &[IntPath], fill_rule: FillRule) -> (r: IntShapes)
        ensures sliced(self.area() + open_paths(paths@, paths@.len() as int), fill_rule, r);
}
impl IntSlice for IntShapes {
    open spec fn area(&self) -> Seq<Segment<ShapeCountString>> { all_shapes(none(), self@, ShapeType::Subject) }
//@ fn string/slice.rs IntSlice for IntShapes slice_by_line
//@ nopub
//@ endfn
//@ fn string/slice.rs IntSlice for IntShapes slice_by_lines
//@ nopub
//@ endfn
//@ fn string/slice.rs IntSlice for IntShapes slice_by_path
//@ nopub
//@ endfn
//@ fn string/slice.rs IntSlice for IntShapes slice_by_paths
//@ nopub
//@ endfn
}
impl IntSlice for IntShape {
    open spec fn area(&self) -> Seq<Segment<ShapeCountString>> { paths(none(), self@, ShapeType::Subject) }
//@ fn string/slice.rs IntSlice for IntShape slice_by_line
//@ nopub
//@ endfn
//@ fn string/slice.rs IntSlice for IntShape slice_by_lines
//@ nopub
//@ endfn
//@ fn string/slice.rs IntSlice for IntShape slice_by_path
//@ nopub
//@ endfn
//@ fn string/slice.rs IntSlice for IntShape slice_by_paths
//@ nopub
//@ endfn
}
impl IntSlice for [IntPoint] {
    open spec fn area(&self) -> Seq<Segment<ShapeCountString>> { with_path(none(), self@, ShapeType::Subject) }
//@ fn string/slice.rs IntSlice for [IntPoint] slice_by_line
//@ nopub
//@ endfn
//@ fn string/slice.rs IntSlice for [IntPoint] slice_by_lines
//@ nopub
//@ endfn
//@ fn string/slice.rs IntSlice for [IntPoint] slice_by_path
//@ nopub
//@ endfn
//@ fn string/slice.rs IntSlice for [IntPoint] slice_by_paths
//@ nopub
//@ endfn
}
// the edges of the area, followed by those of the lines
pub trait IntClip {
    spec fn area(&self) -> Seq<Segment<ShapeCountString>>;
    fn clip_line(&self, line: IntLine, fill_rule: FillRule, clip_rule: ClipRule) -> (r: Vec<IntPath>)
        ensures clip_of(self.area() + step(line@[0], line@[1]), fill_rule, clip_rule, r);
    fn clip_lines(&self, lines: &[IntLine], fill_rule: FillRule, clip_rule: ClipRule) -> (r: Vec<IntPath>)
        ensures clip_of(self.area() + apiece(lines@, lines@.len() as int), fill_rule, clip_rule, r);
    fn clip_path(&self, path: &IntPath, fill_rule: FillRule, clip_rule: ClipRule) -> (r: Vec<IntPath>)
        ensures clip_of(self.area() + open_path(path@), fill_rule, clip_rule, r);
    fn clip_paths(&self, paths: &[IntPath], fill_rule: FillRule, clip_rule: ClipRule) -> (r: Vec<IntPath>)
        ensures clip_of(self.area() + open_paths(paths@, paths@.len() as int), fill_rule, clip_rule, r);
}
impl IntClip for IntShapes {
    open spec fn area(&self) -> Seq<Segment<ShapeCountString>> { all_shapes(none(), self@, ShapeType::Subject) }
//@ fn string/clip.rs IntClip for IntShapes clip_line
//@ nopub
//@ endfn
//@ fn string/clip.rs IntClip for IntShapes clip_lines
//@ nopub
//@ endfn
//@ fn string/clip.rs IntClip for IntShapes clip_path
//@ nopub
//@ endfn
//@ fn string/clip.rs IntClip for IntShapes clip_paths
//@ nopub
//@ endfn
}
impl IntClip for IntShape {
    open spec fn area(&self) -> Seq<Segment<ShapeCountString>> { paths(none(), self@, ShapeType::Subject) }
//@ fn string/clip.rs IntClip for IntShape clip_line
//@ nopub
//@ endfn
//@ fn string/clip.rs IntClip for IntShape clip_lines
//@ nopub
//@ endfn
//@ fn string/clip.rs IntClip for IntShape clip_path
//@ nopub
//@ endfn
//@ fn string/clip.rs IntClip for IntShape clip_paths
//@ nopub
//@ endfn
}
impl IntClip for [IntPoint] {
    open spec fn area(&self) -> Seq<Segment<ShapeCountString>> { with_path(none(), self@, ShapeType::Subject) }
//@ fn string/clip.rs IntClip for [IntPoint] clip_line
//@ nopub
//@ endfn
//@ fn string/clip.rs IntClip for [IntPoint] clip_lines
//@ nopub
//@ endfn
//@ fn string/clip.rs IntClip for [IntPoint] clip_path
//@ nopub
//@ endfn
//@ fn string/clip.rs IntClip for [IntPoint] clip_paths
//@ nopub
//@ endfn
}
}
fn main() {}
