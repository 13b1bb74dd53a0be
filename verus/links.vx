// ---- core/link.rs, core/filter.rs: which edges become links, for every rule ----
//@ import graph.vx
verus! {
//@ item segm/winding_count.rs struct ShapeCountBoolean
//@ item segm/winding_count.rs struct ShapeCountString
//@ item segm/segment.rs struct Segment
//@ item segm/segment.rs const NONE
//@ item segm/segment.rs const SUBJ_TOP
//@ item segm/segment.rs const SUBJ_BOTTOM
//@ item segm/segment.rs const CLIP_TOP
//@ item segm/segment.rs const CLIP_BOTTOM
//@ item segm/segment.rs const SUBJ_BOTH
//@ item segm/segment.rs const CLIP_BOTH
//@ item segm/segment.rs const BOTH_TOP
//@ item segm/segment.rs const BOTH_BOTTOM
//@ item segm/segment.rs const ALL
//@ item core/fill_rule.rs enum FillRule
//@ item core/overlay_rule.rs enum OverlayRule
//@ item string/clip.rs struct ClipRule
pub assume_specification[ u8::count_ones ](x: u8) -> (r: u32)
    ensures r == (x & 1) + ((x >> 1) & 1) + ((x >> 2) & 1) + ((x >> 3) & 1) + ((x >> 4) & 1) + ((x >> 5) & 1) + ((x >> 6) & 1) + ((x >> 7) & 1);

// ---- what the rules mean ----
// the point-set meaning: is a point of the result, when it is in the subject (s) and in the clip (c)
pub open spec fn holds(rule: OverlayRule, s: bool, c: bool) -> bool {
    match rule {
        OverlayRule::Subject => s,
        OverlayRule::Clip => c,
        OverlayRule::Intersect => s && c,
        OverlayRule::Union => s || c,
        OverlayRule::Difference => s && !c,
        OverlayRule::InverseDifference => c && !s,
        OverlayRule::Xor => s != c,
    }
}
pub open spec fn above(rule: OverlayRule, f: SegmentFill) -> bool { holds(rule, f & 1 != 0, f & 4 != 0) }
pub open spec fn below(rule: OverlayRule, f: SegmentFill) -> bool { holds(rule, f & 2 != 0, f & 8 != 0) }
// the result lies on one side of the edge only
pub open spec fn borders(rule: OverlayRule, f: SegmentFill) -> bool { above(rule, f) != below(rule, f) }
// a line runs along the edge, and (not) inside: inside is both sides filled, or either if the boundary belongs to it
pub open spec fn inside(f: SegmentFill, with_boundary: bool) -> bool { if with_boundary { f & 1 != 0 || f & 2 != 0 } else { f & 1 != 0 && f & 2 != 0 } }
pub open spec fn clipped(rule: ClipRule, f: SegmentFill) -> bool { (f & 4 != 0 || f & 8 != 0) && inside(f, rule.boundary_included) != rule.invert }
// the edge divides something from something else
pub open spec fn divides(f: SegmentFill) -> bool { (f & 1 != 0) != (f & 2 != 0) || (f & 4 != 0) != (f & 8 != 0) }

pub proof fn lemma_sides(f: u8)
    requires f < 16
    ensures
        f & 1 == 0 || f & 1 == 1, f & 2 == 0 || f & 2 == 2, f & 4 == 0 || f & 4 == 4, f & 8 == 0 || f & 8 == 8,
        f == (f & 1) + (f & 2) + (f & 4) + (f & 8), f & 3 == (f & 1) + (f & 2), f & 12 == (f & 4) + (f & 8), f & 5 == (f & 1) + (f & 4), f & 10 == (f & 2) + (f & 8),
        SUBJ_BOTH == 3, CLIP_BOTH == 12, BOTH_TOP == 5, BOTH_BOTTOM == 10, ALL == 15,
        ((f & 3) & 1) == (f & 1), (((f & 3) >> 1) & 1) * 2 == (f & 2),
        ((f & 3) >> 2) & 1 == 0, ((f & 3) >> 3) & 1 == 0, ((f & 3) >> 4) & 1 == 0, ((f & 3) >> 5) & 1 == 0, ((f & 3) >> 6) & 1 == 0, ((f & 3) >> 7) & 1 == 0,
{
    assert(f & 1 == 0 || f & 1 == 1) by (bit_vector);
    assert(f & 2 == 0 || f & 2 == 2) by (bit_vector);
    assert(f & 4 == 0 || f & 4 == 4) by (bit_vector);
    assert(f & 8 == 0 || f & 8 == 8) by (bit_vector);
    assert(f < 16 ==> f == (f & 1) + (f & 2) + (f & 4) + (f & 8)) by (bit_vector);
    assert(f & 3 == (f & 1) + (f & 2)) by (bit_vector);
    assert(f & 12 == (f & 4) + (f & 8)) by (bit_vector);
    assert(f & 5 == (f & 1) + (f & 4)) by (bit_vector);
    assert(f & 10 == (f & 2) + (f & 8)) by (bit_vector);
    assert(1u8 | 2 == 3 && 4u8 | 8 == 12 && 1u8 | 4 == 5 && 2u8 | 8 == 10 && 3u8 | 12 == 15) by (bit_vector);
    assert(((f & 3) & 1) == (f & 1) && (((f & 3) >> 1) & 1) * 2 == (f & 2)) by (bit_vector);
    assert(((f & 3) >> 2) & 1 == 0 && ((f & 3) >> 3) & 1 == 0 && ((f & 3) >> 4) & 1 == 0 && ((f & 3) >> 5) & 1 == 0 && ((f & 3) >> 6) & 1 == 0 && ((f & 3) >> 7) & 1 == 0) by (bit_vector);
}
// ---- the filters ----
pub trait InclusionFilterStrategy {
    spec fn wants(fill: SegmentFill) -> bool;
    fn is_included(fill: SegmentFill) -> (r: bool)
        requires fill < 16
        ensures r == Self::wants(fill);
}
pub trait FillFilter {
    spec fn v(&self) -> u8;
    fn is_subject(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (borders(OverlayRule::Subject, self.v()));
    fn is_clip(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (borders(OverlayRule::Clip, self.v()));
    fn is_intersect(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (borders(OverlayRule::Intersect, self.v()));
    fn is_union(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (borders(OverlayRule::Union, self.v()));
    fn is_difference(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (borders(OverlayRule::Difference, self.v()));
    fn is_inverse_difference(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (borders(OverlayRule::InverseDifference, self.v()));
    fn is_xor(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (borders(OverlayRule::Xor, self.v()));
    fn is_filler(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (!divides(self.v()));
    fn is_string_clip_outside_boundary_included(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (clipped(ClipRule { invert: true, boundary_included: true }, self.v()));
    fn is_string_clip_outside_boundary_excluded(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (clipped(ClipRule { invert: true, boundary_included: false }, self.v()));
    fn is_string_clip_inside_boundary_included(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (clipped(ClipRule { invert: false, boundary_included: true }, self.v()));
    fn is_string_clip_inside_boundary_excluded(&self) -> (r: bool)
        requires self.v() < 16
        ensures r == (clipped(ClipRule { invert: false, boundary_included: false }, self.v()));
}
impl FillFilter for SegmentFill {
    open spec fn v(&self) -> u8 { *self }
//@ fn core/filter.rs FillFilter for SegmentFill is_subject
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_clip
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_intersect
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_union
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_difference
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_inverse_difference
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_xor
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_filler
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_string_clip_outside_boundary_included
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_string_clip_outside_boundary_excluded
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_string_clip_inside_boundary_included
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
//@ fn core/filter.rs FillFilter for SegmentFill is_string_clip_inside_boundary_excluded
//@ nopub
//@ entry
        proof { lemma_sides(*self); }
//@ endfn
}
pub struct SubjectFilter;
impl InclusionFilterStrategy for SubjectFilter {
    open spec fn wants(fill: SegmentFill) -> bool { borders(OverlayRule::Subject, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for SubjectFilter is_included
//@ nopub
//@ endfn
}
pub struct ClipFilter;
impl InclusionFilterStrategy for ClipFilter {
    open spec fn wants(fill: SegmentFill) -> bool { borders(OverlayRule::Clip, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for ClipFilter is_included
//@ nopub
//@ endfn
}
pub struct IntersectFilter;
impl InclusionFilterStrategy for IntersectFilter {
    open spec fn wants(fill: SegmentFill) -> bool { borders(OverlayRule::Intersect, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for IntersectFilter is_included
//@ nopub
//@ endfn
}
pub struct UnionFilter;
impl InclusionFilterStrategy for UnionFilter {
    open spec fn wants(fill: SegmentFill) -> bool { borders(OverlayRule::Union, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for UnionFilter is_included
//@ nopub
//@ endfn
}
pub struct DifferenceFilter;
impl InclusionFilterStrategy for DifferenceFilter {
    open spec fn wants(fill: SegmentFill) -> bool { borders(OverlayRule::Difference, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for DifferenceFilter is_included
//@ nopub
//@ endfn
}
pub struct InverseDifferenceFilter;
impl InclusionFilterStrategy for InverseDifferenceFilter {
    open spec fn wants(fill: SegmentFill) -> bool { borders(OverlayRule::InverseDifference, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for InverseDifferenceFilter is_included
//@ nopub
//@ endfn
}
pub struct XorFilter;
impl InclusionFilterStrategy for XorFilter {
    open spec fn wants(fill: SegmentFill) -> bool { borders(OverlayRule::Xor, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for XorFilter is_included
//@ nopub
//@ endfn
}
pub struct FillerFilter;
impl InclusionFilterStrategy for FillerFilter {
    open spec fn wants(fill: SegmentFill) -> bool { divides(fill) }
//@ fn core/filter.rs InclusionFilterStrategy for FillerFilter is_included
//@ nopub
//@ endfn
}
pub struct StringClipOutsideBoundaryIncludedFilter;
impl InclusionFilterStrategy for StringClipOutsideBoundaryIncludedFilter {
    open spec fn wants(fill: SegmentFill) -> bool { clipped(ClipRule { invert: true, boundary_included: true }, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for StringClipOutsideBoundaryIncludedFilter is_included
//@ nopub
//@ endfn
}
pub struct StringClipOutsideBoundaryExcludedFilter;
impl InclusionFilterStrategy for StringClipOutsideBoundaryExcludedFilter {
    open spec fn wants(fill: SegmentFill) -> bool { clipped(ClipRule { invert: true, boundary_included: false }, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for StringClipOutsideBoundaryExcludedFilter is_included
//@ nopub
//@ endfn
}
pub struct StringClipInsideBoundaryIncludedFilter;
impl InclusionFilterStrategy for StringClipInsideBoundaryIncludedFilter {
    open spec fn wants(fill: SegmentFill) -> bool { clipped(ClipRule { invert: false, boundary_included: true }, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for StringClipInsideBoundaryIncludedFilter is_included
//@ nopub
//@ endfn
}
pub struct StringClipInsideBoundaryExcludedFilter;
impl InclusionFilterStrategy for StringClipInsideBoundaryExcludedFilter {
    open spec fn wants(fill: SegmentFill) -> bool { clipped(ClipRule { invert: false, boundary_included: false }, fill) }
//@ fn core/filter.rs InclusionFilterStrategy for StringClipInsideBoundaryExcludedFilter is_included
//@ nopub
//@ endfn
}

// ---- the links ----
pub open spec fn wanted<F: InclusionFilterStrategy>() -> spec_fn(SegmentFill) -> bool { |f: SegmentFill| F::wants(f) }
// an edge as a link, its ends not numbered yet
pub open spec fn bare<C: Send>(s: Segment<C>, f: SegmentFill) -> OverlayLink { OverlayLink { a: IdPoint { id: 0, point: s.x_segment.a }, b: IdPoint { id: 0, point: s.x_segment.b }, fill: f } }
// the links of those of the first n edges that have a wanted fill, in the order of the edges
pub open spec fn kept<C: Send>(s: Seq<Segment<C>>, f: Seq<SegmentFill>, w: spec_fn(SegmentFill) -> bool, n: int) -> Seq<OverlayLink>
    decreases n
{
    if n <= 0 { Seq::empty() } else if w(f[n - 1]) { kept(s, f, w, n - 1).push(bare(s[n - 1], f[n - 1])) } else { kept(s, f, w, n - 1) }
}
pub open spec fn small(f: Seq<SegmentFill>) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) < 16 }
pub proof fn lemma_kept<C: Send>(s: Seq<Segment<C>>, f: Seq<SegmentFill>, w: spec_fn(SegmentFill) -> bool, n: int)
    requires 0 <= n
    ensures kept(s, f, w, n).len() <= n
    decreases n
{
    if n > 0 { lemma_kept(s, f, w, n - 1); }
}
pub proof fn lemma_fewer<C: Send>(s: Seq<Segment<C>>, f: Seq<SegmentFill>, w: spec_fn(SegmentFill) -> bool, m: int, n: int)
    requires 0 <= m <= n
    ensures kept(s, f, w, m).len() <= kept(s, f, w, n).len()
    decreases n
{
    if m < n { lemma_fewer(s, f, w, m, n - 1); }
}

impl IdPoint {
//@ fn geom/id_point.rs IdPoint new
//@ spec
        ensures r.id == id, r.point == point
//@ endfn
}
impl OverlayLink {
//@ fn core/link.rs OverlayLink new
//@ spec
        ensures r.a == a, r.b == b, r.fill == fill
//@ endfn
}
// ---- the fill rules, by the strategies that decide them (C01, C15) ----
pub trait FillStrategy<C> { }
pub struct EvenOddStrategy;
pub struct EvenOddStrategyString;
impl FillStrategy<ShapeCountBoolean> for EvenOddStrategy { }
impl FillStrategy<ShapeCountString> for EvenOddStrategyString { }
pub struct NonZeroStrategy;
pub struct NonZeroStrategyString;
impl FillStrategy<ShapeCountBoolean> for NonZeroStrategy { }
impl FillStrategy<ShapeCountString> for NonZeroStrategyString { }
pub struct PositiveStrategy;
pub struct PositiveStrategyString;
impl FillStrategy<ShapeCountBoolean> for PositiveStrategy { }
impl FillStrategy<ShapeCountString> for PositiveStrategyString { }
pub struct NegativeStrategy;
pub struct NegativeStrategyString;
impl FillStrategy<ShapeCountBoolean> for NegativeStrategy { }
impl FillStrategy<ShapeCountString> for NegativeStrategyString { }
// what the sweep says of the edges under the rule (C15: fill.vx), and what splitting makes of the edges (C06)
pub uninterp spec fn sides<F: FillStrategy<C>, C: Send>(s: Seq<Segment<C>>, f: Seq<SegmentFill>) -> bool;
pub uninterp spec fn parts<C: Send>(o: Seq<Segment<C>>, s: Seq<Segment<C>>) -> bool;
pub open spec fn sides_boolean(rule: FillRule, s: Seq<Segment<ShapeCountBoolean>>, f: Seq<SegmentFill>) -> bool {
    match rule {
        FillRule::EvenOdd => sides::<EvenOddStrategy, ShapeCountBoolean>(s, f),
        FillRule::NonZero => sides::<NonZeroStrategy, ShapeCountBoolean>(s, f),
        FillRule::Positive => sides::<PositiveStrategy, ShapeCountBoolean>(s, f),
        FillRule::Negative => sides::<NegativeStrategy, ShapeCountBoolean>(s, f),
    }
}
pub open spec fn sides_string(rule: FillRule, s: Seq<Segment<ShapeCountString>>, f: Seq<SegmentFill>) -> bool {
    match rule {
        FillRule::EvenOdd => sides::<EvenOddStrategyString, ShapeCountString>(s, f),
        FillRule::NonZero => sides::<NonZeroStrategyString, ShapeCountString>(s, f),
        FillRule::Positive => sides::<PositiveStrategyString, ShapeCountString>(s, f),
        FillRule::Negative => sides::<NegativeStrategyString, ShapeCountString>(s, f),
    }
}
pub struct FillSolver;
impl FillSolver {
    #[verifier::external_body]
    pub fn fill<F: FillStrategy<C>, C: Send>(is_list: bool, segments: &[Segment<C>]) -> (r: Vec<SegmentFill>)
        ensures sides::<F, C>(segments@, r@), r@.len() == segments@.len(), small(r@)
    { unimplemented!() }
}
impl Solver {
    #[verifier::external_body]
    pub fn is_list_fill<C: Send>(&self, segments: &[Segment<C>]) -> bool { unimplemented!() }
}
pub trait SplitSegments<C: Send>: Sized {
    spec fn list(&self) -> Seq<Segment<C>>;
    fn split_segments(self, solver: Solver) -> (r: Vec<Segment<C>>)
        ensures parts(self.list(), r@);
}
impl<C: Send> SplitSegments<C> for Vec<Segment<C>> {
    open spec fn list(&self) -> Seq<Segment<C>> { self@ }
    #[verifier::external_body]
    fn split_segments(self, solver: Solver) -> (r: Vec<Segment<C>>) { unimplemented!() }
}
// the links come from splitting the edges, asking what lies on their sides under the rule, and keeping the wanted ones
pub open spec fn linked_boolean(o: Seq<Segment<ShapeCountBoolean>>, rule: FillRule, w: spec_fn(SegmentFill) -> bool, l: Seq<OverlayLink>) -> bool {
    if o.len() == 0 { l.len() == 0 } else { exists|s: Seq<Segment<ShapeCountBoolean>>, f: Seq<SegmentFill>| #[trigger] linked_boolean_by(o, rule, w, l, s, f) }
}
pub open spec fn linked_boolean_by(o: Seq<Segment<ShapeCountBoolean>>, rule: FillRule, w: spec_fn(SegmentFill) -> bool, l: Seq<OverlayLink>, s: Seq<Segment<ShapeCountBoolean>>, f: Seq<SegmentFill>) -> bool {
    parts(o, s) && (s.len() == 0 && f.len() == 0 || sides_boolean(rule, s, f)) && f.len() == s.len() && l == kept(s, f, w, f.len() as int)
}
pub open spec fn linked_string(o: Seq<Segment<ShapeCountString>>, rule: FillRule, w: spec_fn(SegmentFill) -> bool, l: Seq<OverlayLink>) -> bool {
    if o.len() == 0 { l.len() == 0 } else { exists|s: Seq<Segment<ShapeCountString>>, f: Seq<SegmentFill>| #[trigger] linked_string_by(o, rule, w, l, s, f) }
}
pub open spec fn linked_string_by(o: Seq<Segment<ShapeCountString>>, rule: FillRule, w: spec_fn(SegmentFill) -> bool, l: Seq<OverlayLink>, s: Seq<Segment<ShapeCountString>>, f: Seq<SegmentFill>) -> bool {
    parts(o, s) && (s.len() == 0 && f.len() == 0 || sides_string(rule, s, f)) && f.len() == s.len() && l == kept(s, f, w, f.len() as int)
}
pub open spec fn all() -> spec_fn(SegmentFill) -> bool { |f: SegmentFill| true }
pub open spec fn bordering(rule: OverlayRule) -> spec_fn(SegmentFill) -> bool { |f: SegmentFill| borders(rule, f) }
pub open spec fn dividing() -> spec_fn(SegmentFill) -> bool { |f: SegmentFill| divides(f) }
pub open spec fn clipping(rule: ClipRule) -> spec_fn(SegmentFill) -> bool { |f: SegmentFill| clipped(rule, f) }

pub proof fn lemma_names()
    ensures
        wanted::<FillerFilter>() == dividing(),
        wanted::<SubjectFilter>() == bordering(OverlayRule::Subject),
        wanted::<ClipFilter>() == bordering(OverlayRule::Clip),
        wanted::<IntersectFilter>() == bordering(OverlayRule::Intersect),
        wanted::<UnionFilter>() == bordering(OverlayRule::Union),
        wanted::<DifferenceFilter>() == bordering(OverlayRule::Difference),
        wanted::<InverseDifferenceFilter>() == bordering(OverlayRule::InverseDifference),
        wanted::<XorFilter>() == bordering(OverlayRule::Xor),
        wanted::<StringClipOutsideBoundaryIncludedFilter>() == clipping(ClipRule { invert: true, boundary_included: true }),
        wanted::<StringClipOutsideBoundaryExcludedFilter>() == clipping(ClipRule { invert: true, boundary_included: false }),
        wanted::<StringClipInsideBoundaryIncludedFilter>() == clipping(ClipRule { invert: false, boundary_included: true }),
        wanted::<StringClipInsideBoundaryExcludedFilter>() == clipping(ClipRule { invert: false, boundary_included: false }),
{
    assert(wanted::<FillerFilter>() =~= dividing());
    assert(wanted::<SubjectFilter>() =~= bordering(OverlayRule::Subject));
    assert(wanted::<ClipFilter>() =~= bordering(OverlayRule::Clip));
    assert(wanted::<IntersectFilter>() =~= bordering(OverlayRule::Intersect));
    assert(wanted::<UnionFilter>() =~= bordering(OverlayRule::Union));
    assert(wanted::<DifferenceFilter>() =~= bordering(OverlayRule::Difference));
    assert(wanted::<InverseDifferenceFilter>() =~= bordering(OverlayRule::InverseDifference));
    assert(wanted::<XorFilter>() =~= bordering(OverlayRule::Xor));
    assert(wanted::<StringClipOutsideBoundaryIncludedFilter>() =~= clipping(ClipRule { invert: true, boundary_included: true }));
    assert(wanted::<StringClipOutsideBoundaryExcludedFilter>() =~= clipping(ClipRule { invert: true, boundary_included: false }));
    assert(wanted::<StringClipInsideBoundaryIncludedFilter>() =~= clipping(ClipRule { invert: false, boundary_included: true }));
    assert(wanted::<StringClipInsideBoundaryExcludedFilter>() =~= clipping(ClipRule { invert: false, boundary_included: false }));
}
pub struct OverlayLinkBuilder;
impl OverlayLinkBuilder {
//@ fn core/link.rs OverlayLinkBuilder build_links
//@ index_loops
//@ sub <<<fills.iter().fold(0, |s, &fill| s + F::is_included(fill) as usize)>>> <<<{ let mut s: usize = 0; for k in 0..fills.len() { let fill = fills[k]; s = s + F::is_included(fill) as usize; } s }>>>
//@ spec
        requires segments@.len() == fills@.len(), small(fills@)
        ensures r@ == kept(segments@, fills@, wanted::<F>(), fills@.len() as int)
//@ loop 0
            invariant segments@.len() == fills@.len(), s == kept(segments@, fills@, wanted::<F>(), k as int).len(), s <= k, small(fills@)
//@ loop 1
            invariant segments@.len() == fills@.len(), small(fills@), links@.len() == kept(segments@, fills@, wanted::<F>(), fills@.len() as int).len(),
                i == kept(segments@, fills@, wanted::<F>(), it1 as int).len(),
                links@.take(i as int) == kept(segments@, fills@, wanted::<F>(), it1 as int)
//@ loopbody 1
            proof { lemma_kept(segments@, fills@, wanted::<F>(), it1 + 1); }
            proof { lemma_fewer(segments@, fills@, wanted::<F>(), it1 + 1, fills@.len() as int); }
            let ghost l0 = links@;
            let ghost i0 = i as int;
//@ loopend 1
            proof { if wanted::<F>()(fills@[it1 as int]) { assert(links@.take(i as int) =~= l0.take(i0).push(bare(segments@[it1 as int], fills@[it1 as int]))); } }
//@ after_loop 1
        assert(links@.take(i as int) =~= links@);
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder build_all_links
//@ index_loops
//@ spec
        requires segments@.len() == fills@.len()
        ensures r@ == kept(segments@, fills@, all(), fills@.len() as int)
//@ loop 0
            invariant segments@.len() == fills@.len(), links@.len() == fills@.len(),
                kept(segments@, fills@, all(), it0 as int).len() == it0,
                links@.take(it0 as int) == kept(segments@, fills@, all(), it0 as int)
//@ loopbody 0
            let ghost l0 = links@;
//@ loopend 0
            assert(links@.take(it0 + 1) =~= l0.take(it0 as int).push(bare(segments@[it0 as int], fills@[it0 as int])));
//@ after_loop 0
        assert(links@.take(fills@.len() as int) =~= links@);
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder fill_boolean
//@ spec
        ensures sides_boolean(fill_rule, segments@, r@), r@.len() == segments@.len(), small(r@)
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder fill_string
//@ spec
        ensures sides_string(fill_rule, segments@, r@), r@.len() == segments@.len(), small(r@)
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder build_boolean
//@ spec
        ensures linked_boolean(segments@, fill_rule, wanted::<F>(), r@)
//@ entry
        let ghost o = segments@;
//@ sub <<<if segments.is_empty() { return vec![]; } let fills>>> <<<if segments.is_empty() { proof { assert(linked_boolean_by(o, fill_rule, wanted::<F>(), Seq::empty(), segments@, Seq::empty())); } return vec![]; } let fills>>>
//@ after fills
        let ghost s1 = segments@;
        let ghost f1 = fills@;
        proof { assert(linked_boolean_by(o, fill_rule, wanted::<F>(), kept(s1, f1, wanted::<F>(), f1.len() as int), s1, f1)); }
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder build_boolean_all
//@ spec
        ensures linked_boolean(segments@, fill_rule, all(), r@)
//@ entry
        let ghost o = segments@;
//@ sub <<<if segments.is_empty() { return vec![]; } let fills>>> <<<if segments.is_empty() { proof { assert(linked_boolean_by(o, fill_rule, all(), Seq::empty(), segments@, Seq::empty())); } return vec![]; } let fills>>>
//@ after fills
        let ghost s1 = segments@;
        let ghost f1 = fills@;
        proof { assert(linked_boolean_by(o, fill_rule, all(), kept(s1, f1, all(), f1.len() as int), s1, f1)); }
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder build_string_all
//@ spec
        ensures linked_string(segments@, fill_rule, all(), r@)
//@ entry
        let ghost o = segments@;
//@ sub <<<if segments.is_empty() { return vec![]; } let fills>>> <<<if segments.is_empty() { proof { assert(linked_string_by(o, fill_rule, all(), Seq::empty(), segments@, Seq::empty())); } return vec![]; } let fills>>>
//@ after fills
        let ghost s1 = segments@;
        let ghost f1 = fills@;
        proof { assert(linked_string_by(o, fill_rule, all(), kept(s1, f1, all(), f1.len() as int), s1, f1)); }
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder build_string_with_clip_rule
//@ spec
        ensures linked_string(segments@, fill_rule, clipping(clip_rule), r@)
//@ entry
        let ghost o = segments@;
//@ sub <<<if segments.is_empty() { return vec![]; } let fills>>> <<<if segments.is_empty() { proof { assert(linked_string_by(o, fill_rule, clipping(clip_rule), Seq::empty(), segments@, Seq::empty())); } return vec![]; } let fills>>>
//@ after fills
        let ghost s1 = segments@;
        let ghost f1 = fills@;
        proof { assert(linked_string_by(o, fill_rule, clipping(clip_rule), kept(s1, f1, clipping(clip_rule), f1.len() as int), s1, f1)); }
//@ entry
        proof { lemma_names(); }
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder build_without_filter
//@ spec
        ensures linked_boolean(segments@, fill_rule, all(), r@)
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder build_with_filler_filter
//@ spec
        ensures linked_boolean(segments@, fill_rule, dividing(), r@)
//@ entry
        proof { lemma_names(); }
//@ endfn
//@ fn core/link.rs OverlayLinkBuilder build_with_overlay_filter
//@ spec
        ensures linked_boolean(segments@, fill_rule, bordering(overlay_rule), r@)
//@ entry
        proof { lemma_names(); }
//@ endfn
}

impl OverlayRule {
//@ fn core/overlay_rule.rs OverlayRule is_fill_top
//@ spec
        requires fill < 16, borders(*self, fill)
        ensures r == above(*self, fill)
//@ entry
        proof { lemma_sides(fill); }
//@ endfn
}
// ---- the edges a rule does not use are marked as visited before the walk ----
pub open spec fn unused(l: Seq<OverlayLink>, rule: OverlayRule, v: Seq<bool>) -> bool {
    v.len() == l.len() && forall|i: int| #![trigger v[i]] 0 <= i < l.len() ==> v[i] == !borders(rule, l[i].fill)
}
pub open spec fn low(l: Seq<OverlayLink>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).fill < 16 }
//@ fn core/filter.rs - filter_subject
//@ sub <<<links.iter().map(|link| !link.fill.is_subject()).collect()>>> <<<{ let mut v: Vec<bool> = Vec::new(); for k in 0..links.len() { let link = &links[k]; v.push(!link.fill.is_subject()); } v }>>>
//@ spec
        requires low(links@)
        ensures unused(links@, OverlayRule::Subject, r@)
//@ loop 0
            invariant low(links@), v@.len() == k, forall|i: int| #![trigger v@[i]] 0 <= i < k ==> v@[i] == !borders(OverlayRule::Subject, links@[i].fill)
//@ endfn
//@ fn core/filter.rs - filter_clip
//@ sub <<<links.iter().map(|link| !link.fill.is_clip()).collect()>>> <<<{ let mut v: Vec<bool> = Vec::new(); for k in 0..links.len() { let link = &links[k]; v.push(!link.fill.is_clip()); } v }>>>
//@ spec
        requires low(links@)
        ensures unused(links@, OverlayRule::Clip, r@)
//@ loop 0
            invariant low(links@), v@.len() == k, forall|i: int| #![trigger v@[i]] 0 <= i < k ==> v@[i] == !borders(OverlayRule::Clip, links@[i].fill)
//@ endfn
//@ fn core/filter.rs - filter_intersect
//@ sub <<<links.iter().map(|link| !link.fill.is_intersect()).collect()>>> <<<{ let mut v: Vec<bool> = Vec::new(); for k in 0..links.len() { let link = &links[k]; v.push(!link.fill.is_intersect()); } v }>>>
//@ spec
        requires low(links@)
        ensures unused(links@, OverlayRule::Intersect, r@)
//@ loop 0
            invariant low(links@), v@.len() == k, forall|i: int| #![trigger v@[i]] 0 <= i < k ==> v@[i] == !borders(OverlayRule::Intersect, links@[i].fill)
//@ endfn
//@ fn core/filter.rs - filter_union
//@ sub <<<links.iter().map(|link| !link.fill.is_union()).collect()>>> <<<{ let mut v: Vec<bool> = Vec::new(); for k in 0..links.len() { let link = &links[k]; v.push(!link.fill.is_union()); } v }>>>
//@ spec
        requires low(links@)
        ensures unused(links@, OverlayRule::Union, r@)
//@ loop 0
            invariant low(links@), v@.len() == k, forall|i: int| #![trigger v@[i]] 0 <= i < k ==> v@[i] == !borders(OverlayRule::Union, links@[i].fill)
//@ endfn
//@ fn core/filter.rs - filter_difference
//@ sub <<<links.iter().map(|link| !link.fill.is_difference()).collect()>>> <<<{ let mut v: Vec<bool> = Vec::new(); for k in 0..links.len() { let link = &links[k]; v.push(!link.fill.is_difference()); } v }>>>
//@ spec
        requires low(links@)
        ensures unused(links@, OverlayRule::Difference, r@)
//@ loop 0
            invariant low(links@), v@.len() == k, forall|i: int| #![trigger v@[i]] 0 <= i < k ==> v@[i] == !borders(OverlayRule::Difference, links@[i].fill)
//@ endfn
//@ fn core/filter.rs - filter_inverse_difference
//@ sub <<<links.iter().map(|link| !link.fill.is_inverse_difference()).collect()>>> <<<{ let mut v: Vec<bool> = Vec::new(); for k in 0..links.len() { let link = &links[k]; v.push(!link.fill.is_inverse_difference()); } v }>>>
//@ spec
        requires low(links@)
        ensures unused(links@, OverlayRule::InverseDifference, r@)
//@ loop 0
            invariant low(links@), v@.len() == k, forall|i: int| #![trigger v@[i]] 0 <= i < k ==> v@[i] == !borders(OverlayRule::InverseDifference, links@[i].fill)
//@ endfn
//@ fn core/filter.rs - filter_xor
//@ sub <<<links.iter().map(|link| !link.fill.is_xor()).collect()>>> <<<{ let mut v: Vec<bool> = Vec::new(); for k in 0..links.len() { let link = &links[k]; v.push(!link.fill.is_xor()); } v }>>>
//@ spec
        requires low(links@)
        ensures unused(links@, OverlayRule::Xor, r@)
//@ loop 0
            invariant low(links@), v@.len() == k, forall|i: int| #![trigger v@[i]] 0 <= i < k ==> v@[i] == !borders(OverlayRule::Xor, links@[i].fill)
//@ endfn
pub trait MaskFilter: Sized {
    spec fn items(&self) -> Seq<OverlayLink>;
    fn filter_by_rule(&self, overlay_rule: OverlayRule) -> (r: Vec<bool>)
        requires low(self.items())
        ensures unused(self.items(), overlay_rule, r@);
}
impl MaskFilter for Vec<OverlayLink> {
    open spec fn items(&self) -> Seq<OverlayLink> { self@ }
//@ fn core/filter.rs MaskFilter for Vec<OverlayLink> filter_by_rule
//@ nopub
//@ endfn
}
}
fn main() {}
