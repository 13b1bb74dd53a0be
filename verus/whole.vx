// ---- the whole split: sorted, merged and handed to one of the strategies ----
#![feature(allocator_api)]
//@ import strategy.vx
verus! {
use Strategy::{Auto, Frag, List, Tree};
// edges as they are built: in any order, and the same edge any number of times
pub open spec fn raw<C: WindingCount>(s: Seq<Segment<C>>) -> bool { segs_ok(s) && counts_ok(s) && smag(s) <= i32::MAX }
// sorted and merged they are ready to be split
pub proof fn lemma_ready<C: WindingCount>(o: Seq<Segment<C>>, s: Seq<Segment<C>>)
    requires raw(o), same_segs(o, s), sorted(s)
    ensures all_live(s), all_wf(s), smag(s) <= i32::MAX, ready(live(runs(s))), balanced(o, live(runs(s)))
{
    lemma_smag_bag(o, s);
    assert forall|i: int| 0 <= i < s.len() implies !C::none((#[trigger] s[i]).count) && C::wf(s[i].count) && seg_ok(s[i].x_segment) by {
        let j = lemma_bag_in(o, s, i);
        assert(!C::none(o[j].count));
        assert(seg_ok(o[j].x_segment));
    }
    lemma_runs_bound(s);
    lemma_runs_total(s);
    lemma_live_total(runs(s));
    let r = live(runs(s));
    assert forall|i: int| 0 <= i < r.len() implies seg_ok((#[trigger] r[i]).x_segment) && !C::none(r[i].count) && C::wf(r[i].count) && C::mag(r[i].count) <= i32::MAX by {
        let j = lemma_live_from(runs(s), i);
        lemma_mag_one(runs(s), j);
        assert(C::wf(runs(s)[j].count));
        let k = lemma_runs_from(s, j);
        assert(!C::none(s[k].count));
    }
    assert forall|w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int| linear(w) implies #[trigger] flow(r, w, f) == flow(o, w, f) by {
        lemma_flow_live(runs(s), w, f);
        lemma_flow_runs(s, w, f);
        lemma_flow_bag(o, s, w, f);
    }
}
pub proof fn lemma_no_edges<C: WindingCount>(o: Seq<Segment<C>>, s: Seq<Segment<C>>)
    requires ready(s), balanced(o, s), s.len() == 0
    ensures split_from(o, s)
{}
// the sort of the key-sort crate (or of rayon): the same items, in the order of the given comparison
#[verifier::external_body]
pub fn sort_segs<C: WindingCount, F: Fn(&Segment<C>, &Segment<C>) -> Ordering>(v: &mut Vec<Segment<C>>, solver: &Solver, compare: F)
    requires
        forall|a: &Segment<C>, b: &Segment<C>| #[trigger] compare.requires((a, b)),
        forall|a: &Segment<C>, b: &Segment<C>, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> o == seg_ord(a.x_segment, b.x_segment),
    ensures same_segs(old(v)@, final(v)@), sorted(final(v)@)
{ unimplemented!() }
impl Solver {
//@ item core/solver.rs const MAX_SPLIT_LIST_COUNT in Solver
//@ item core/solver.rs const MIN_FRAGMENT_COUNT in Solver
//@ fn core/solver.rs Solver is_list_split
//@ spec
        ensures true
//@ endfn
//@ fn core/solver.rs Solver is_fragmentation_required
//@ sub <<<self.strategy == Frag>>> <<<matches!(self.strategy, Frag)>>>
//@ spec
        ensures true
//@ endfn
}
impl SplitSolver {
    #[verifier::external_body]
    pub fn list_split<C: WindingCount>(&self, snap_radius: SnapRadius, segments: Vec<Segment<C>>) -> (r: Vec<Segment<C>>)
        requires ready(segments@), snap_radius.ok()
        ensures split_from(segments@, r@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tree_split<C: WindingCount>(&self, snap_radius: SnapRadius, segments: Vec<Segment<C>>) -> (r: Vec<Segment<C>>)
        requires ready(segments@), snap_radius.ok()
        ensures split_from(segments@, r@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fragment_split<C: WindingCount>(&self, snap_radius: SnapRadius, segments: Vec<Segment<C>>) -> (r: Vec<Segment<C>>)
        requires ready(segments@), snap_radius.ok()
        ensures split_from(segments@, r@)
    { unimplemented!() }
//@ fn split/solver.rs SplitSolver new
//@ spec
        ensures r.solver == solver
//@ endfn
//@ fn split/solver.rs SplitSolver split
//@ spec
        requires ready(segments@)
        ensures split_from(segments@, r@)
//@ endfn
}
pub trait SplitSegments<C: WindingCount> {
    spec fn edges(&self) -> Seq<Segment<C>>;
    fn split_segments(self, solver: Solver) -> (r: Vec<Segment<C>>) where Self: Sized
        requires raw(self.edges())
        ensures split_from(self.edges(), r@);
}
impl<C: WindingCount> SplitSegments<C> for Vec<Segment<C>> {
    open spec fn edges(&self) -> Seq<Segment<C>> { self@ }
//@ fn split/solver.rs SplitSegments<C> for Vec<Segment<C>> split_segments
//@ nopub
//@ sub <<<segments.smart_bin_sort_by(&solver, |$A, $B| $C);>>> <<<sort_segs(&mut segments, &solver, |$A: &Segment<C>, $B: &Segment<C>| -> (o: Ordering) ensures o == seg_ord($A.x_segment, $B.x_segment) { $C }); let ghost s1 = segments@; proof { lemma_ready(self@, s1); }>>>
//@ sub <<<if segments.is_empty() {>>> <<<let ghost s2 = segments@; if segments.is_empty() {>>>
//@ sub <<<SplitSolver::new(solver).split(segments)>>> <<<let r = SplitSolver::new(solver).split(segments); proof { lemma_balanced(self@, s2, r@); } r>>>
//@ endfn
}
}
fn main() {}
