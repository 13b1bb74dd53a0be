// ---- the tree strategy: each edge against those the tree holds ----
// (std's reserve_exact needs the allocator parameter)
#![feature(allocator_api)]
//@ import strategy.vx
verus! {
//@ item split/solver_tree.rs struct IdSegment
pub struct SegRange<R> { pub min: R, pub max: R }
impl<R: Copy> Clone for SegRange<R> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<R: Copy> Copy for SegRange<R> {}
pub open spec fn expires(v: IdSegment) -> int { v.x_segment.b.x as int }
pub trait ExpiredVal<E> { fn expiration(&self) -> E; }
impl IdSegment {
//@ fn split/solver_tree.rs ExpiredVal<i32> for IdSegment expiration
//@ spec
        ensures r == expires(*self)
//@ endfn
}
impl SegRange<i32> {
//@ fn split/solver_tree.rs From<LineRange> for SegRange<i32> from
//@ spec
        ensures r.min == value.min, r.max == value.max
//@ endfn
}
impl<C: Send> Segment<C> {
//@ fn split/solver_tree.rs Segment<C> id_segment
//@ spec
        ensures r.id == id, r.x_segment == self.x_segment
//@ endfn
}
pub fn min_i32y(a: i32, b: i32) -> (r: i32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn max_i32y(a: i32, b: i32) -> (r: i32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub trait VerticalRange {
    spec fn runs_within(&self, lo: int, hi: int) -> bool;
    spec fn some(&self) -> bool;
    fn ver_range(&self) -> (r: LineRange)
        requires self.some()
        ensures self.runs_within(r.min as int, r.max as int), r.min <= r.max;
}
impl<C: Send> VerticalRange for Vec<Segment<C>> {
    open spec fn runs_within(&self, lo: int, hi: int) -> bool { framed(self@, between(lo, hi)) }
    open spec fn some(&self) -> bool { self@.len() > 0 }
//@ fn split/solver_tree.rs VerticalRange for Vec<Segment<C>> ver_range
//@ nopub
//@ index_loops
//@ sub <<<min_y = min_y.min($A);>>> <<<min_y = min_i32y(min_y, $A);>>>
//@ sub <<<max_y = max_y.max($A);>>> <<<max_y = max_i32y(max_y, $A);>>>
//@ loop 0
            invariant min_y <= max_y, forall|n: int| 0 <= n < it0 ==> spans((#[trigger] self@[n]).x_segment, between(min_y as int, max_y as int))
//@ endfn
}

// ---- the tree of the i_tree crate (trusted): what was put in for a range of rows is met again by every range that
// has a row in common with it, until it has run out ----
pub open spec fn put_in(held: Set<Held>, v: IdSegment) -> bool { exists|h: Held| #[trigger] held.contains(h) && h.val == v }
pub struct Held { pub val: IdSegment, pub min: int, pub max: int }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(V)]
pub struct SegExpTree<R, E, V> { r: core::marker::PhantomData<(R, E, V)> }
impl SegExpTree<i32, i32, IdSegment> {
    pub uninterp spec fn lo(&self) -> int;
    pub uninterp spec fn hi(&self) -> int;
    pub uninterp spec fn held(&self) -> Set<Held>;
    #[verifier::external_body]
    pub fn new(range: SegRange<i32>) -> (r: Option<Self>)
        requires range.min <= range.max
        ensures r is Some ==> r->Some_0.lo() == range.min && r->Some_0.hi() == range.max && r->Some_0.held() == Set::<Held>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_by_range(&mut self, range: SegRange<i32>, val: IdSegment)
        requires old(self).lo() <= range.min <= range.max <= old(self).hi()
        ensures
            final(self).lo() == old(self).lo(), final(self).hi() == old(self).hi(),
            final(self).held() == old(self).held().insert(Held { val, min: range.min as int, max: range.max as int })
    { unimplemented!() }
    // all that the iterator yields, at once
    #[verifier::external_body]
    pub fn iter_by_range(&mut self, range: SegRange<i32>, time: i32) -> (r: Vec<IdSegment>)
        requires old(self).lo() <= range.min <= range.max <= old(self).hi()
        ensures
            final(self).lo() == old(self).lo(), final(self).hi() == old(self).hi(),
            forall|h: Held| #[trigger] final(self).held().contains(h) ==> old(self).held().contains(h),
            forall|h: Held| #[trigger] old(self).held().contains(h) && expires(h.val) >= time ==> final(self).held().contains(h),
            forall|n: int| 0 <= n < r@.len() ==> put_in(old(self).held(), #[trigger] r@[n]),
            forall|h: Held| #[trigger] old(self).held().contains(h) && expires(h.val) >= time && h.min <= range.max && range.min <= h.max ==> r@.contains(h.val)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self).lo() == old(self).lo(), final(self).hi() == old(self).hi(), final(self).held() == Set::<Held>::empty()
    { unimplemented!() }
}

// ---- what the tree holds when edge number i comes ----
pub open spec fn holding<C: Send>(segs: Seq<Segment<C>>, k: int) -> Held {
    Held { val: IdSegment { id: k as usize, x_segment: seg_at(segs, k) }, min: y_min(seg_at(segs, k)), max: y_max(seg_at(segs, k)) }
}
#[verifier::opaque]
pub open spec fn filled_to<C: Send>(segs: Seq<Segment<C>>, held: Set<Held>, i: int, time: int) -> bool {
    &&& forall|h: Held| #[trigger] held.contains(h) ==> h.val.id < i && h == holding(segs, h.val.id as int)
    &&& forall|k: int| 0 <= k < i && seg_at(segs, k).b.x >= time ==> held.contains(#[trigger] holding(segs, k))
}
// pairs of the edges before number i, and of number i with those found so far or never to be found
pub open spec fn meeting(i: int, found: Seq<IdSegment>, n: int) -> spec_fn(int, int) -> bool {
    |x: int, y: int| y < i || y == i && exists|q: int| 0 <= q < n && #[trigger] found[q].id == x
}
pub open spec fn up_to(i: int) -> spec_fn(int, int) -> bool { |x: int, y: int| y < i }
pub open spec fn all_found<C: Send>(segs: Seq<Segment<C>>, found: Seq<IdSegment>, i: int) -> bool {
    &&& forall|q: int| 0 <= q < found.len() ==> (#[trigger] found[q]).id < i && found[q].x_segment == seg_at(segs, found[q].id as int)
    &&& forall|k: int| 0 <= k < i && !apart(seg_at(segs, k), seg_at(segs, i)) ==> exists|q: int| 0 <= q < found.len() && #[trigger] found[q].id == k
}
pub proof fn lemma_all_found<C: WindingCount>(segs: Seq<Segment<C>>, h0: Set<Held>, h1: Set<Held>, found: Seq<IdSegment>, i: int)
    requires
        ready(segs), 0 <= i < segs.len() <= usize::MAX, filled_to(segs, h0, i, seg_at(segs, i).a.x as int),
        forall|h: Held| #[trigger] h1.contains(h) ==> h0.contains(h),
        forall|h: Held| #[trigger] h0.contains(h) && expires(h.val) >= seg_at(segs, i).a.x ==> h1.contains(h),
        forall|n: int| 0 <= n < found.len() ==> put_in(h0, #[trigger] found[n]),
        forall|h: Held| #[trigger] h0.contains(h) && expires(h.val) >= seg_at(segs, i).a.x && h.min <= y_max(seg_at(segs, i)) && y_min(seg_at(segs, i)) <= h.max ==> found.contains(h.val)
    ensures all_found(segs, found, i), filled_to(segs, h1, i, seg_at(segs, i).a.x as int)
{
    reveal(filled_to);
    assert forall|k: int| 0 <= k < i && seg_at(segs, k).b.x >= seg_at(segs, i).a.x implies h1.contains(#[trigger] holding(segs, k)) by { assert(h0.contains(holding(segs, k))); }
    assert forall|q: int| 0 <= q < found.len() implies (#[trigger] found[q]).id < i && found[q].x_segment == seg_at(segs, found[q].id as int) by {
        assert(put_in(h0, found[q]));
        let h = choose|h: Held| #[trigger] h0.contains(h) && h.val == found[q];
        assert(h == holding(segs, h.val.id as int));
    }
    assert forall|k: int| 0 <= k < i && !apart(seg_at(segs, k), seg_at(segs, i)) implies exists|q: int| 0 <= q < found.len() && #[trigger] found[q].id == k by {
        assert(seg_ok(segs[k].x_segment) && seg_ok(segs[i].x_segment));
        let (t, o) = (seg_at(segs, k), seg_at(segs, i));
        if t.b.x < o.a.x { lemma_apart_x(t, o); }
        else if y_max(t) < y_min(o) || y_max(o) < y_min(t) { lemma_apart_y(t, o); }
        else {
            assert(h0.contains(holding(segs, k)));
            let q = choose|q: int| 0 <= q < found.len() && found[q] == holding(segs, k).val;
            assert(found[q].id == k);
        }
    }
}
pub proof fn lemma_put<C: WindingCount>(segs: Seq<Segment<C>>, h1: Set<Held>, h2: Set<Held>, i: int)
    requires ready(segs), 0 <= i < segs.len() <= usize::MAX, filled_to(segs, h1, i, seg_at(segs, i).a.x as int), h2 == h1.insert(holding(segs, i))
    ensures i + 1 < segs.len() ==> filled_to(segs, h2, i + 1, seg_at(segs, i + 1).a.x as int)
{
    reveal(filled_to);
    if i + 1 < segs.len() {
        assert(seg_lt(segs[i].x_segment, segs[i + 1].x_segment));
        assert forall|k: int| 0 <= k < i + 1 && seg_at(segs, k).b.x >= seg_at(segs, i + 1).a.x implies h2.contains(#[trigger] holding(segs, k)) by {
            if k < i { assert(h1.contains(holding(segs, k))); }
        }
    }
}
pub proof fn lemma_first<C: Send>(segs: Seq<Segment<C>>, time: int)
    ensures filled_to(segs, Set::<Held>::empty(), 0, time)
{
    reveal(filled_to);
}

impl SplitSolver {
    // the other strategy, to which flat lists are handed over
    #[verifier::external_body]
    pub fn list_split<C: WindingCount>(&self, snap_radius: SnapRadius, segments: Vec<Segment<C>>) -> (r: Vec<Segment<C>>)
        requires ready(segments@), snap_radius.ok()
        ensures split_from(segments@, r@)
    { unimplemented!() }
//@ fn split/solver_tree.rs SplitSolver tree_split
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::loop_isolation(false)]
//@ index_loops
//@ sub <<<segments.ver_range().into()>>> <<<SegRange::<i32>::from(segments.ver_range())>>>
//@ sub <<<si.x_segment.y_range().into()>>> <<<SegRange::<i32>::from(si.x_segment.y_range())>>>
//@ sub <<<let mut marks = Vec::new();>>> <<<let mut marks: Vec<LineMark> = Vec::new(); let ghost (lo, hi) = (tree.lo(), tree.hi());>>>
//@ sub <<<for sj in tree.iter_by_range($A) {>>> <<<let ghost h0 = tree.held(); let found = tree.iter_by_range($A); proof { lemma_all_found(segments@, h0, tree.held(), found@, i as int); lemma_marked_with(segments@, marks@, need_to_fix, up_to(i as int), meeting(i as int, found@, 0)); } for sj in found.iter() {>>>
//@ sub <<<let is_round = SplitSolver::cross($A);>>> <<<let ghost m0 = marks@; let is_round = SplitSolver::cross($A); proof { lemma_marked_more(segments@, m0, marks@, need_to_fix, is_round, this_index, scan_index, radius as int, meeting(i as int, found@, it2 as int), meeting(i as int, found@, it2 + 1)); }>>>
//@ sub <<<if marks.is_empty() {>>> <<<proof { lemma_marked_with(segments@, marks@, need_to_fix, up_to(n), all_pairs()); if marks@.len() == 0 { lemma_unmarked(segments@, marks@, need_to_fix); assert(split_from(begun, segments@)); } } if marks.is_empty() {>>>
//@ sub <<<segments = self.apply(&mut marks, $A);>>> <<<let ghost (s1, m1) = (segments@, marks@); proof { lemma_fair(s1, m1, need_to_fix); /* room: the pieces of one pass, and their counts, fit in memory and in 32 bits */ assume(smag(s1) + mark_mag(s1, m1) <= i32::MAX && s1.len() + m1.len() < usize::MAX); } segments = self.apply(&mut marks, $A); proof { lemma_passed(begun, s1, m1, marks@, segments@, need_to_fix); }>>>
//@ spec
        requires ready(segments@), snap_radius.ok()
        ensures split_from(segments@, r@)
//@ entry
        let ghost begun = segments@;
        proof { lemma_begun(begun); assert(begun.len() == 0 ==> planar(begun)); }
//@ loop 0
            invariant snap_radius.ok(), under_way(begun, segments@, need_to_fix), marks@.len() == 0, tree.held() == Set::<Held>::empty(), tree.lo() == lo, tree.hi() == hi, framed(segments@, between(lo, hi))
//@ loopbody 0
            let ghost n = segments@.len() as int;
            proof { lemma_first(segments@, segments@[0].x_segment.a.x as int); lemma_marked_none(segments@, marks@, up_to(0)); }
//@ loop 1
                invariant
                    segments@.len() == n, tree.lo() == lo, tree.hi() == hi,
                    it1 < n ==> filled_to(segments@, tree.held(), it1 as int, segments@[it1 as int].x_segment.a.x as int),
                    marked_on(segments@, marks@, need_to_fix, up_to(it1 as int))
//@ loopbody 1
                let ghost h9 = tree.held();
                proof { assert(spans(segments@[it1 as int].x_segment, between(lo, hi))); }
//@ loop 2
                    invariant
                        all_found(segments@, found@, i as int),
                        marked_on(segments@, marks@, need_to_fix, meeting(i as int, found@, it2 as int))
//@ loopbody 2
                    proof { assert(seg_lt(segments@[found@[it2 as int].id as int].x_segment, segments@[i as int].x_segment)); }
//@ after_loop 2
                proof { lemma_marked_with(segments@, marks@, need_to_fix, meeting(i as int, found@, found@.len() as int), up_to(i + 1)); }
                let ghost h1 = tree.held();
//@ loopend 1
                proof { lemma_put(segments@, h1, tree.held(), i as int); }
//@ endfn
}
}
fn main() {}
