// (std's reserve_exact needs the allocator parameter)
#![feature(allocator_api)]
//@ import pieces.vx
// ---- SplitSolver::apply: the pieces are placed by bins, sorted within them and merged ----
use std::ops::Range;
verus! {
//@ item i_key_sort:key_sort.rs struct Bin
//@ item i_key_sort:index.rs struct BinLayout
pub trait BinLayoutOp: Sized {
    spec fn at(self) -> int;
    fn offset(self, other: Self) -> (r: usize)
        ensures self.at() >= other.at() ==> r == self.at() - other.at();
}
impl BinLayoutOp for i32 {
    open spec fn at(self) -> int { self as int }
//@ fn i_key_sort:index.rs BinLayoutOp for i32 offset
//@ nopub
//@ endfn
}
impl<T: Copy + BinLayoutOp + PartialOrd> BinLayout<T> {
    pub open spec fn ok(&self) -> bool { self.power < 64 }
    // the bin of a coordinate that is not below the first
    pub open spec fn slot(&self, x: T) -> int { (x.at() - self.min_key.at()) / (pow2(self.power as nat) as int) }
//@ fn i_key_sort:index.rs BinLayout<T> index
//@ spec
        requires self.ok(), value.at() >= self.min_key.at(), value.at() - self.min_key.at() <= u32::MAX
        ensures r == self.slot(value)
//@ entry
        proof {
            let d = (value.at() - self.min_key.at()) as u64;
            lemma_u64_shr_is_div(d, self.power as u64);
            let w = self.power;
            assert(w < 64 ==> (d as usize) >> w == (d >> (w as u64)) as usize) by (bit_vector);
        }
//@ endfn
//@ fn i_key_sort:index.rs BinLayout<T> new
//@ sub <<<?delta.min(elements_count >> 1).min(16384)>>> <<<min_usize(min_usize(delta, elements_count >> 1), 16384)>>>
//@ spec
        requires 0 <= range.end.at() - range.start.at() <= u32::MAX
        ensures r is Some ==> r->Some_0.ok() && r->Some_0.min_key == range.start
//@ endfn
}
pub assume_specification [ usize::leading_zeros ](v: usize) -> (r: u32)
    ensures r == vstd::std_specs::bits::u64_leading_zeros(v as u64);
//@ fn i_key_sort:index.rs - log2
//@ spec
    ensures value < 0x8000_0000_0000_0000 ==> r < 64
//@ entry
    proof {
        vstd::std_specs::bits::axiom_u64_leading_zeros(value as u64);
        let v = value as u64;
        if v < 0x8000_0000_0000_0000u64 && vstd::std_specs::bits::u64_leading_zeros(v) == 0 {
            assert(v < 0x8000_0000_0000_0000u64 ==> (v >> 63u64) & 1u64 == 0u64) by (bit_vector);
        }
    }
//@ endfn
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

// ---- where the pieces start ----
pub open spec fn min_x(p: IntPoint, q: IntPoint) -> i32 { if p.x <= q.x { p.x } else { q.x } }
pub open spec fn chain_x(a: IntPoint, pts: Seq<IntPoint>) -> Seq<i32>
    decreases pts.len(),
{
    if pts.len() == 0 { Seq::empty() } else { chain_x(a, pts.drop_last()).push(min_x(last_of(a, pts.drop_last()), pts.last())) }
}
pub open spec fn cut_x<C: Send>(s: Segment<C>, pts: Seq<IntPoint>) -> Seq<i32> {
    if pts.len() == 0 { seq![s.x_segment.a.x] } else { chain_x(s.x_segment.a, pts.push(s.x_segment.b)) }
}
pub open spec fn starts<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int) -> Seq<i32>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { starts(segs, marks, n - 1) + cut_x(segs[n - 1], pts_of(marks, n - 1)) }
}
pub proof fn lemma_chain_x<C: WindingCount>(a: IntPoint, pts: Seq<IntPoint>, c: C)
    ensures chain_x(a, pts).len() == pts.len(), chain(a, pts, c).len() == pts.len(), forall|i: int| 0 <= i < pts.len() ==> #[trigger] chain_x(a, pts)[i] == chain(a, pts, c)[i].x_segment.a.x
    decreases pts.len()
{
    if pts.len() > 0 { lemma_chain_x(a, pts.drop_last(), c); }
}
pub proof fn lemma_chain_x_len(a: IntPoint, pts: Seq<IntPoint>)
    ensures chain_x(a, pts).len() == pts.len()
    decreases pts.len()
{
    if pts.len() > 0 { lemma_chain_x_len(a, pts.drop_last()); }
}
pub proof fn lemma_starts<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int)
    requires 0 <= n <= segs.len()
    ensures starts(segs, marks, n).len() == pieces(segs, marks, n).len(), forall|i: int| 0 <= i < starts(segs, marks, n).len() ==> #[trigger] starts(segs, marks, n)[i] == pieces(segs, marks, n)[i].x_segment.a.x
    decreases n
{
    if n > 0 {
        lemma_starts(segs, marks, n - 1);
        let (s, pts) = (segs[n - 1], pts_of(marks, n - 1));
        lemma_chain_x(s.x_segment.a, pts.push(s.x_segment.b), s.count);
        let (p, q) = (pieces(segs, marks, n - 1), cut(s, pts));
        let (px, qx) = (starts(segs, marks, n - 1), cut_x(s, pts));
        assert forall|i: int| 0 <= i < (px + qx).len() implies #[trigger] (px + qx)[i] == (p + q)[i].x_segment.a.x by {
            if i < px.len() { assert(px[i] == p[i].x_segment.a.x); } else { assert(qx[i - px.len()] == q[i - p.len()].x_segment.a.x); }
        }
    }
}
// ---- how many start in a bin ----
pub open spec fn count_at(l: BinLayout<i32>, xs: Seq<i32>, k: int) -> nat
    decreases xs.len(),
{
    if xs.len() == 0 { 0 } else { count_at(l, xs.drop_last(), k) + if l.slot(xs.last()) == k { 1nat } else { 0 } }
}
pub open spec fn below(l: BinLayout<i32>, xs: Seq<i32>, k: int) -> nat
    decreases k,
{
    if k <= 0 { 0 } else { below(l, xs, k - 1) + count_at(l, xs, k - 1) }
}
pub proof fn lemma_count_push(l: BinLayout<i32>, xs: Seq<i32>, x: i32)
    ensures forall|k: int| #[trigger] count_at(l, xs.push(x), k) == count_at(l, xs, k) + if l.slot(x) == k { 1nat } else { 0 }, forall|k: int| #[trigger] count_at(l, xs, k) <= xs.len()
{
    assert(xs.push(x).drop_last() =~= xs);
    assert forall|k: int| #[trigger] count_at(l, xs, k) <= xs.len() by { lemma_count_max(l, xs, k); }
}
pub proof fn lemma_count_max(l: BinLayout<i32>, xs: Seq<i32>, k: int)
    ensures count_at(l, xs, k) <= xs.len()
    decreases xs.len()
{
    if xs.len() > 0 { lemma_count_max(l, xs.drop_last(), k); }
}
pub proof fn lemma_below_max(l: BinLayout<i32>, xs: Seq<i32>, k: int)
    ensures below(l, xs, k) <= xs.len()
    decreases xs.len()
{
    if xs.len() > 0 {
        lemma_below_max(l, xs.drop_last(), k);
        lemma_below_last(l, xs, k);
    } else { lemma_below_none(l, xs, k); }
}
pub proof fn lemma_below_none(l: BinLayout<i32>, xs: Seq<i32>, k: int)
    requires xs.len() == 0
    ensures below(l, xs, k) == 0
    decreases k
{
    if k > 0 { lemma_below_none(l, xs, k - 1); }
}
pub proof fn lemma_below_last(l: BinLayout<i32>, xs: Seq<i32>, k: int)
    requires xs.len() > 0
    ensures below(l, xs, k) <= below(l, xs.drop_last(), k) + 1, below(l, xs, k) == below(l, xs.drop_last(), k) + (if 0 <= l.slot(xs.last()) < k { 1int } else { 0 })
    decreases k
{
    if k > 0 { lemma_below_last(l, xs, k - 1); }
}
pub proof fn lemma_slot(l: BinLayout<i32>, x: i32, y: i32)
    requires l.ok(), l.min_key <= x <= y
    ensures 0 <= l.slot(x) <= l.slot(y) <= u32::MAX
{
    let p = pow2(l.power as nat) as int;
    vstd::arithmetic::power2::lemma_pow2_pos(l.power as nat);
    lemma_div_is_ordered(x - l.min_key, y - l.min_key, p);
    lemma_div_pos_is_pos(x - l.min_key, p);
    assert((y - l.min_key) / p <= y - l.min_key) by (nonlinear_arith) requires p >= 1, y >= l.min_key;
}
// ---- the marks of the segment i are the ones from j to j2 ----
pub open spec fn group_at(marks: Seq<LineMark>, i: int, j: int, j2: int) -> bool {
    0 <= j <= j2 <= marks.len() && forall|m: int| #![trigger marks[m]] 0 <= m < marks.len() ==> (m < j ==> marks[m].index < i) && (j <= m < j2 ==> marks[m].index == i) && (m >= j2 ==> marks[m].index > i)
}
pub proof fn lemma_group_pts(marks: Seq<LineMark>, i: int, j: int, j2: int)
    requires group_at(marks, i, j, j2)
    ensures pts_of(marks, i) =~= points(marks.subrange(j, j2))
{
    let (a, g, r) = (marks.take(j), marks.subrange(j, j2), marks.skip(j2));
    assert(marks =~= a + g + r);
    lemma_pts_absent(a, i);
    lemma_pts_group(a, g, i);
    lemma_pts_skip(a + g, r, i);
}
pub proof fn lemma_pts_skip(m: Seq<LineMark>, r: Seq<LineMark>, k: int)
    requires forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).index != k
    ensures pts_of(m + r, k) == pts_of(m, k)
    decreases r.len()
{
    if r.len() == 0 { assert(m + r =~= m); }
    else {
        assert forall|i: int| 0 <= i < r.drop_last().len() implies (#[trigger] r.drop_last()[i]).index != k by { assert(r[i].index != k); }
        assert(r[r.len() - 1].index != k);
        assert((m + r).drop_last() =~= m + r.drop_last());
        lemma_pts_skip(m, r.drop_last(), k);
    }
}
// the walk through the marks: j is the first one for the segment i or a later one
pub open spec fn at_mark(marks: Seq<LineMark>, i: int, j: int, mj: LineMark) -> bool {
    &&& 0 <= j <= marks.len() && mj == (if j < marks.len() { marks[j] } else { marks[marks.len() - 1] })
    &&& forall|m: int| #![trigger marks[m]] 0 <= m < marks.len() ==> (m < j ==> marks[m].index < i) && (m >= j ==> marks[m].index >= i)
}
// every start lies in the range of the bins
pub open spec fn in_bins<C: Send>(l: BinLayout<i32>, max: i32, segs: Seq<Segment<C>>, marks: Seq<LineMark>) -> bool {
    &&& l.ok() && l.min_key <= max
    &&& forall|i: int| #![trigger segs[i]] 0 <= i < segs.len() ==> l.min_key <= segs[i].x_segment.a.x <= segs[i].x_segment.b.x <= max
    &&& forall|j: int| #![trigger marks[j]] 0 <= j < marks.len() ==> l.min_key <= marks[j].point.x <= max
}
pub fn min_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub open spec fn counted(bins: Seq<Bin>, l: BinLayout<i32>, xs: Seq<i32>) -> bool {
    forall|k: int| 0 <= k < bins.len() ==> (#[trigger] bins[k]).data == count_at(l, xs, k)
}
#[verifier::external_body]
pub fn empty_bins(n: usize) -> (r: Vec<Bin>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k]).data == 0 && r@[k].offset == 0
{ vec![Bin { offset: 0, data: 0 }; n] }

pub proof fn lemma_tally(b0: Seq<Bin>, b: Seq<Bin>, l: BinLayout<i32>, xs: Seq<i32>, x: i32)
    requires
        counted(b0, l, xs), b.len() == b0.len(), 0 <= l.slot(x) < b.len(),
        forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]).data == b0[k].data + (if k == l.slot(x) { 1int } else { 0 }),
    ensures counted(b, l, xs.push(x))
{
    lemma_count_push(l, xs, x);
}
pub proof fn lemma_chain_x_push(a: IntPoint, pts: Seq<IntPoint>, q: IntPoint)
    ensures chain_x(a, pts.push(q)) == chain_x(a, pts).push(min_x(last_of(a, pts), q))
{
    assert(pts.push(q).drop_last() =~= pts);
}
pub proof fn lemma_points_push(m: Seq<LineMark>, j0: int, j: int)
    requires 0 <= j0 <= j < m.len()
    ensures points(m.subrange(j0, j + 1)) =~= points(m.subrange(j0, j)).push(m[j].point)
{}

impl SplitSolver {
//@ fn split/solver.rs SplitSolver init_bins
//@ index_loops
//@ sub <<<vec![Bin { offset: 0, data: 0 }; bin_count]>>> <<<empty_bins(bin_count)>>>
//@ sub <<<let min_x = $A.min($B);>>> <<<let min_x = min_i32($A, $B);>>>
//@ sub <<<let bin_index = layout.index($A); unsafe { bins.get_unchecked_mut(bin_index) }.data += 1;>>> <<<let ghost b0 = bins@; proof { lemma_slot(*layout, $A, max); lemma_count_push(*layout, xs, $A); } let bin_index = layout.index($A); bins[bin_index].data += 1; proof { lemma_tally(b0, bins@, *layout, xs, $A); xs = xs.push($A); }>>>
//@ sub <<<unsafe { bins.get_unchecked_mut(layout.index($A)) }.data += 1;>>> <<<let ghost b0 = bins@; proof { lemma_slot(*layout, $A, max); lemma_count_push(*layout, xs, $A); } let vx_k = layout.index($A); bins[vx_k].data += 1; proof { lemma_tally(b0, bins@, *layout, xs, $A); xs = xs.push($A); }>>>
//@ spec
        requires
            in_bins(*layout, max, segments@, marks@), marks@.len() > 0, by_index(marks@), segments@.len() + marks@.len() < usize::MAX
        ensures
            r@.len() == layout.slot(max) + 1,
            forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).offset == below(*layout, starts(segments@, marks@, segments@.len() as int), k) && r@[k].data == r@[k].offset
//@ entry
        let ghost mut xs: Seq<i32> = Seq::empty();
        proof { lemma_slot(*layout, max, max); }
//@ loop 0
            invariant
                it0 <= segments@.len(), at_mark(marks@, it0 as int, j as int, mj), marks@.len() > 0, by_index(marks@), in_bins(*layout, max, segments@, marks@), segments@.len() + marks@.len() < usize::MAX,
                bins@.len() == layout.slot(max) + 1, xs == starts(segments@, marks@, it0 as int), xs.len() == it0 + j, counted(bins@, *layout, xs),
                forall|k: int| 0 <= k < bins@.len() ==> (#[trigger] bins@[k]).offset == 0
//@ loopbody 0
            let ghost j0 = j as int;
//@ loop 1
                invariant_except_break mj == m0
                invariant
                    0 <= j0 < j <= marks@.len(), it0 < segments@.len(), m0 == marks@[j - 1], by_index(marks@), in_bins(*layout, max, segments@, marks@), segments@.len() + marks@.len() < usize::MAX,
                    forall|m: int| j0 <= m < j ==> (#[trigger] marks@[m]).index == it0,
                    bins@.len() == layout.slot(max) + 1, counted(bins@, *layout, xs), xs.len() == it0 + j,
                    xs == starts(segments@, marks@, it0 as int) + chain_x(segments@[it0 as int].x_segment.a, points(marks@.subrange(j0, j as int))),
                    forall|k: int| 0 <= k < bins@.len() ==> (#[trigger] bins@[k]).offset == 0
                ensures
                    j < marks@.len() ==> mj == marks@[j as int] && mj.index != it0, j == marks@.len() ==> mj == m0
                decreases marks@.len() - j
//@ before_loop 1
                proof {
                    let a = s.x_segment.a;
                    assert(points(marks@.subrange(j0, j0)) =~= Seq::empty());
                    lemma_points_push(marks@, j0, j0);
                    lemma_chain_x_push(a, Seq::empty(), marks@[j0].point);
                    assert(xs =~= starts(segments@, marks@, it0 as int) + chain_x(a, points(marks@.subrange(j0, j as int))));
                }
//@ loopbody 1
                    let ghost (xs0, jj) = (xs, j as int);
//@ loopend 1
                    proof {
                        let a = segments@[it0 as int].x_segment.a;
                        lemma_points_push(marks@, j0, jj);
                        lemma_chain_x_push(a, points(marks@.subrange(j0, jj)), marks@[jj].point);
                        assert(xs =~= starts(segments@, marks@, it0 as int) + chain_x(a, points(marks@.subrange(j0, j as int))));
                    }
//@ after_loop 1
                let ghost xs1 = xs;
//@ loopend 0
            proof {
                let g = points(marks@.subrange(j0, j as int));
                assert(group_at(marks@, it0 as int, j0, j as int));
                lemma_group_pts(marks@, it0 as int, j0, j as int);
                if j == j0 { assert(g =~= Seq::empty()); }
                else { lemma_chain_x_push(s.x_segment.a, g, s.x_segment.b); }
                assert(xs =~= starts(segments@, marks@, it0 + 1));
            }
//@ loop 2 for it
            invariant
                it.seq().len() == bins@.len(), forall|n: int| 0 <= n < it.seq().len() ==> it.seq()[n] == n,
                it2 <= bins@.len(), xs == starts(segments@, marks@, segments@.len() as int), xs.len() < usize::MAX, offset == below(*layout, xs, it2 as int),
                bins@.len() == layout.slot(max) + 1,
                forall|k: int| 0 <= k < it2 ==> (#[trigger] bins@[k]).offset == below(*layout, xs, k) && bins@[k].data == bins@[k].offset,
                forall|k: int| it2 <= k < bins@.len() ==> (#[trigger] bins@[k]).data == count_at(*layout, xs, k)
//@ loopbody 2
            proof { lemma_below_max(*layout, xs, it2 + 1); }
//@ endfn
}

// ---- the pieces in their bins ----
pub open spec fn keyed<C: Send>(l: BinLayout<i32>, x: Segment<C>) -> int { l.slot(x.x_segment.a.x) }
pub open spec fn sel<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, k: int) -> Seq<Segment<C>>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else if keyed(l, p.last()) == k { sel(l, p.drop_last(), k).push(p.last()) } else { sel(l, p.drop_last(), k) }
}
pub open spec fn lower<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, k: int) -> Seq<Segment<C>>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else if keyed(l, p.last()) < k { lower(l, p.drop_last(), k).push(p.last()) } else { lower(l, p.drop_last(), k) }
}
pub open spec fn off<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, k: int) -> int { lower(l, p, k).len() as int }
// the bins cover all the pieces
pub open spec fn covered<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, nb: int) -> bool {
    l.ok() && forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i].x_segment.a.x >= l.min_key && 0 <= keyed(l, p[i]) < nb
}
pub proof fn lemma_covered_part<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, nb: int)
    requires covered(l, p, nb), p.len() > 0
    ensures covered(l, p.drop_last(), nb), p.last().x_segment.a.x >= l.min_key && 0 <= keyed(l, p.last()) < nb
{
    assert forall|i: int| #![trigger p.drop_last()[i]] 0 <= i < p.drop_last().len() implies p.drop_last()[i].x_segment.a.x >= l.min_key && 0 <= keyed(l, p.drop_last()[i]) < nb by { assert(p[i].x_segment.a.x >= l.min_key); }
    assert(p[p.len() - 1] == p.last());
}
pub proof fn lemma_lower<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, k: int)
    ensures
        off(l, p, k + 1) == off(l, p, k) + sel(l, p, k).len(),
        lower(l, p, k + 1).to_multiset() =~= lower(l, p, k).to_multiset().add(sel(l, p, k).to_multiset()),
        forall|i: int| 0 <= i < sel(l, p, k).len() ==> keyed(l, #[trigger] sel(l, p, k)[i]) == k
    decreases p.len()
{
    if p.len() > 0 {
        let t = p.drop_last();
        lemma_lower(l, t, k);
        lemma_bag_push(lower(l, t, k + 1), p.last());
        lemma_bag_push(lower(l, t, k), p.last());
        lemma_bag_push(sel(l, t, k), p.last());
    } else {
        Seq::<Segment<C>>::empty().to_multiset_ensures();
        assert(Seq::<Segment<C>>::empty().to_multiset() =~= vstd::multiset::Multiset::empty());
    }
}
pub proof fn lemma_off_mono<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, k: int, m: int)
    requires k <= m
    ensures off(l, p, k) <= off(l, p, m) <= p.len(), k < m ==> off(l, p, k) + sel(l, p, k).len() <= off(l, p, m)
    decreases m - k
{
    lemma_lower_len(l, p, m);
    if k < m { lemma_off_mono(l, p, k + 1, m); lemma_lower(l, p, k); }
}
pub proof fn lemma_lower_len<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, k: int)
    ensures off(l, p, k) <= p.len()
    decreases p.len()
{
    if p.len() > 0 { lemma_lower_len(l, p.drop_last(), k); }
}
pub proof fn lemma_lower_ends<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, nb: int)
    requires covered(l, p, nb)
    ensures lower(l, p, 0) =~= Seq::empty(), lower(l, p, nb) =~= p
    decreases p.len()
{
    if p.len() > 0 {
        lemma_covered_part(l, p, nb);
        lemma_lower_ends(l, p.drop_last(), nb);
    }
}
// the counts of the starts are the sizes of the bins
pub proof fn lemma_below_off<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, xs: Seq<i32>, k: int, nb: int)
    requires xs.len() == p.len(), forall|i: int| 0 <= i < xs.len() ==> #[trigger] xs[i] == p[i].x_segment.a.x, 0 <= k, covered(l, p, nb)
    ensures below(l, xs, k) == off(l, p, k)
    decreases p.len()
{
    if p.len() > 0 {
        lemma_covered_part(l, p, nb);
        assert forall|i: int| 0 <= i < xs.drop_last().len() implies #[trigger] xs.drop_last()[i] == p.drop_last()[i].x_segment.a.x by { assert(xs[i] == p[i].x_segment.a.x); }
        lemma_below_off(l, p.drop_last(), xs.drop_last(), k, nb);
        lemma_below_last(l, xs, k);
        assert(xs[xs.len() - 1] == p[p.len() - 1].x_segment.a.x);
    } else { lemma_below_none(l, xs, k); }
}
pub proof fn lemma_sel_prefix<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, n: int, k: int)
    requires 0 <= n <= p.len()
    ensures sel(l, p.take(n), k).len() <= sel(l, p, k).len()
    decreases p.len()
{
    if n == p.len() { assert(p.take(n) =~= p); }
    else { assert(p.drop_last().take(n) =~= p.take(n)); lemma_sel_prefix(l, p.drop_last(), n, k); }
}
// of the pieces p those of d are in their places
#[verifier::opaque]
pub open spec fn placed<C: Send>(buf: Seq<Segment<C>>, bins: Seq<Bin>, l: BinLayout<i32>, p: Seq<Segment<C>>, d: Seq<Segment<C>>) -> bool {
    &&& buf.len() == p.len() && d.len() <= p.len() && p.take(d.len() as int) == d
    &&& forall|k: int| #![trigger bins[k]] 0 <= k < bins.len() ==> bins[k].offset == off(l, p, k) && bins[k].data == off(l, p, k) + sel(l, d, k).len() <= buf.len()
            && buf.subrange(off(l, p, k), bins[k].data as int) == sel(l, d, k)
}
pub proof fn lemma_room<C: Send>(buf: Seq<Segment<C>>, bins: Seq<Bin>, l: BinLayout<i32>, p: Seq<Segment<C>>, d: Seq<Segment<C>>, x: Segment<C>)
    requires placed(buf, bins, l, p, d), covered(l, p, bins.len() as int), d.len() < p.len(), p[d.len() as int] == x
    ensures
        x.x_segment.a.x >= l.min_key, 0 <= keyed(l, x) < bins.len(), bins[keyed(l, x)].data < buf.len(), buf.len() == p.len(),
        forall|k: int| #![trigger sel(l, p, k)] sel(l, d.push(x), k).len() <= sel(l, p, k).len()
{
    reveal(placed);
    let k = keyed(l, x);
    let b = bins[k];
    assert(p.take(d.len() as int + 1) =~= d.push(x));
    assert forall|k: int| #![trigger sel(l, p, k)] sel(l, d.push(x), k).len() <= sel(l, p, k).len() by { lemma_sel_prefix(l, p, d.len() as int + 1, k); }
    assert(d.push(x).drop_last() =~= d);
    assert(sel(l, d.push(x), k).len() <= sel(l, p, k).len());
    lemma_off_mono(l, p, k, k + 1);
}
pub proof fn lemma_place<C: Send>(buf: Seq<Segment<C>>, bins: Seq<Bin>, buf1: Seq<Segment<C>>, bins1: Seq<Bin>, l: BinLayout<i32>, p: Seq<Segment<C>>, d: Seq<Segment<C>>, x: Segment<C>)
    requires
        placed(buf, bins, l, p, d), covered(l, p, bins.len() as int), d.len() < p.len(), p[d.len() as int] == x,
        buf1 == buf.update(bins[keyed(l, x)].data as int, x), bins1.len() == bins.len(),
        forall|k: int| #![trigger bins1[k]] 0 <= k < bins.len() ==> bins1[k].offset == bins[k].offset && bins1[k].data == bins[k].data + (if k == keyed(l, x) { 1int } else { 0 }),
    ensures placed(buf1, bins1, l, p, d.push(x))
{
    lemma_room(buf, bins, l, p, d, x);
    reveal(placed);
    let kx = keyed(l, x);
    assert(p.take(d.len() as int + 1) =~= d.push(x));
    assert(d.push(x).drop_last() =~= d);
    let at = bins[kx].data as int;
    assert forall|k: int| #![trigger bins1[k]] 0 <= k < bins1.len() implies bins1[k].offset == off(l, p, k) && bins1[k].data == off(l, p, k) + sel(l, d.push(x), k).len() <= buf1.len()
            && buf1.subrange(off(l, p, k), bins1[k].data as int) == sel(l, d.push(x), k) by {
        let b = bins[k];
        assert(sel(l, d.push(x), k).len() <= sel(l, p, k).len());
        assert(sel(l, d.push(x), kx).len() <= sel(l, p, kx).len());
        lemma_off_mono(l, p, k, k + 1);
        if k < kx { lemma_off_mono(l, p, k, kx); } else if kx < k { lemma_off_mono(l, p, kx, k); }
        let o = buf.subrange(off(l, p, k), b.data as int);
        assert(o == sel(l, d, k));
        if k == kx { assert(buf1.subrange(off(l, p, k), bins1[k].data as int) =~= o.push(x)); }
        else { assert(buf1.subrange(off(l, p, k), bins1[k].data as int) =~= o); }
    }
}
pub proof fn lemma_place_start<C: Send>(buf: Seq<Segment<C>>, bins: Seq<Bin>, l: BinLayout<i32>, p: Seq<Segment<C>>)
    requires buf.len() == p.len(), forall|k: int| #![trigger bins[k]] 0 <= k < bins.len() ==> bins[k].offset == off(l, p, k) && bins[k].data == off(l, p, k)
    ensures placed(buf, bins, l, p, Seq::empty())
{
    reveal(placed);
    assert(p.take(0) =~= Seq::empty());
    assert forall|k: int| #![trigger bins[k]] 0 <= k < bins.len() implies bins[k].data == off(l, p, k) + sel(l, Seq::<Segment<C>>::empty(), k).len() <= buf.len()
            && buf.subrange(off(l, p, k), bins[k].data as int) == sel(l, Seq::<Segment<C>>::empty(), k) by {
        lemma_off_mono(l, p, k, k);
        assert(buf.subrange(off(l, p, k), bins[k].data as int) =~= Seq::empty());
    }
}
// all placed: the same segments, each bin in its range
pub open spec fn regions<C: Send>(buf: Seq<Segment<C>>, l: BinLayout<i32>, p: Seq<Segment<C>>, nb: int) -> bool {
    forall|k: int, t: int| 0 <= k < nb && off(l, p, k) <= t < off(l, p, k + 1) ==> #[trigger] at_bin(buf, l, t, k)
}
pub open spec fn at_bin<C: Send>(buf: Seq<Segment<C>>, l: BinLayout<i32>, t: int, k: int) -> bool { keyed(l, buf[t]) == k && buf[t].x_segment.a.x >= l.min_key }
pub proof fn lemma_all_placed<C: WindingCount>(buf: Seq<Segment<C>>, bins: Seq<Bin>, l: BinLayout<i32>, p: Seq<Segment<C>>)
    requires placed(buf, bins, l, p, p), covered(l, p, bins.len() as int)
    ensures
        same_segs(p, buf), regions(buf, l, p, bins.len() as int), off(l, p, 0) == 0, off(l, p, bins.len() as int) == p.len(),
        forall|k: int| #![trigger bins[k]] 0 <= k < bins.len() ==> bins[k].offset == off(l, p, k) && bins[k].data == off(l, p, k + 1) && off(l, p, k) <= off(l, p, k + 1) <= buf.len()
{
    lemma_lower_ends(l, p, bins.len() as int);
    lemma_placed_bag(buf, bins, l, p, bins.len() as int);
    reveal(placed);
    assert(buf.take(p.len() as int) =~= buf);
    assert forall|k: int| #![trigger bins[k]] 0 <= k < bins.len() implies bins[k].offset == off(l, p, k) && bins[k].data == off(l, p, k + 1) && off(l, p, k) <= off(l, p, k + 1) <= buf.len() by {
        lemma_lower(l, p, k);
        lemma_off_mono(l, p, k, k + 1);
    }
    assert forall|k: int, t: int| 0 <= k < bins.len() && off(l, p, k) <= t < off(l, p, k + 1) implies #[trigger] at_bin(buf, l, t, k) by {
        let b = bins[k];
        lemma_lower(l, p, k);
        let o = buf.subrange(off(l, p, k), b.data as int);
        assert(o[t - off(l, p, k)] == buf[t]);
        let q = sel(l, p, k)[t - off(l, p, k)];
        assert(keyed(l, q) == k);
        lemma_bag_contains(p, buf, buf[t]);
        assert(buf.contains(buf[t]));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == buf[t];
        assert(p[i].x_segment.a.x >= l.min_key);
    }
}
pub proof fn lemma_placed_bag<C: Send>(buf: Seq<Segment<C>>, bins: Seq<Bin>, l: BinLayout<i32>, p: Seq<Segment<C>>, k: int)
    requires placed(buf, bins, l, p, p), covered(l, p, bins.len() as int), 0 <= k <= bins.len()
    ensures buf.take(off(l, p, k)).to_multiset() == lower(l, p, k).to_multiset()
    decreases k
{
    reveal(placed);
    lemma_off_mono(l, p, k, k);
    if k == 0 {
        lemma_lower_ends(l, p, bins.len() as int);
        assert(buf.take(0) =~= Seq::empty());
    } else {
        lemma_placed_bag(buf, bins, l, p, k - 1);
        lemma_lower(l, p, k - 1);
        let b = bins[k - 1];
        let (t, o) = (buf.take(off(l, p, k - 1)), buf.subrange(off(l, p, k - 1), b.data as int));
        assert(buf.take(off(l, p, k)) =~= t + o);
        lemma_bag_add(t, o);
    }
}
// ---- sorting the bins ----
pub open spec fn pairs_sorted<C: Send>(s: Seq<Segment<C>>, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < n ==> !seg_lt((#[trigger] s[j]).x_segment, (#[trigger] s[i]).x_segment)
}
pub proof fn lemma_bin_sorted<C: WindingCount>(o: Seq<Segment<C>>, n: Seq<Segment<C>>, part: Seq<Segment<C>>, l: BinLayout<i32>, p: Seq<Segment<C>>, nb: int, k: int)
    requires
        l.ok(), off(l, p, 0) == 0, o.len() == p.len(), same_segs(p, o), regions(o, l, p, nb), 0 <= k < nb, pairs_sorted(o, off(l, p, k)),
        0 <= off(l, p, k) <= off(l, p, k + 1) <= p.len(),
        n == o.take(off(l, p, k)) + part + o.skip(off(l, p, k + 1)), same_segs(o.subrange(off(l, p, k), off(l, p, k + 1)), part), pairs_sorted(part, part.len() as int)
    ensures same_segs(p, n), regions(n, l, p, nb), pairs_sorted(n, off(l, p, k + 1)), n.len() == p.len()
{
    let (a, b) = (off(l, p, k), off(l, p, k + 1));
    lemma_bag_part(o, a, b, part);
    assert forall|kk: int, t: int| 0 <= kk < nb && off(l, p, kk) <= t < off(l, p, kk + 1) implies #[trigger] at_bin(n, l, t, kk) by {
        assert(at_bin(o, l, t, kk));
        if kk < k { lemma_off_mono(l, p, kk + 1, k); assert(n[t] == o[t]); }
        else if kk > k { lemma_off_mono(l, p, k + 1, kk); lemma_off_mono(l, p, kk + 1, kk + 1); assert(n[t] == o[t]); }
        else {
            assert(n[t] == part[t - a]);
            let j = lemma_bag_in(o.subrange(a, b), part, t - a);
            assert(o[a + j] == n[t]);
            assert(at_bin(o, l, a + j, k));
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < b implies !seg_lt((#[trigger] n[j]).x_segment, (#[trigger] n[i]).x_segment) by {
        if j < a { assert(n[i] == o[i] && n[j] == o[j]); }
        else if i >= a { assert(n[i] == part[i - a] && n[j] == part[j - a]); }
        else {
            assert(at_bin(n, l, j, k));
            let q = lemma_which_bin(l, p, i, k);
            assert(at_bin(n, l, i, q));
            if n[j].x_segment.a.x <= n[i].x_segment.a.x { lemma_slot(l, n[j].x_segment.a.x, n[i].x_segment.a.x); }
        }
    }
}
pub proof fn lemma_which_bin<C: Send>(l: BinLayout<i32>, p: Seq<Segment<C>>, i: int, k: int) -> (q: int)
    requires off(l, p, 0) <= i < off(l, p, k), 0 <= k
    ensures 0 <= q < k, off(l, p, q) <= i < off(l, p, q + 1)
    decreases k
{
    if i >= off(l, p, k - 1) { k - 1 } else { lemma_which_bin(l, p, i, k - 1) }
}
// std: a stable sort of a part of the slice
#[verifier::external_body]
pub fn sort_part<C: WindingCount, F: Fn(&Segment<C>, &Segment<C>) -> Ordering>(v: &mut [Segment<C>], start: usize, end: usize, compare: F)
    requires
        start <= end <= old(v)@.len(),
        forall|a: &Segment<C>, b: &Segment<C>| #[trigger] compare.requires((a, b)),
        forall|a: &Segment<C>, b: &Segment<C>, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> o == seg_ord(a.x_segment, b.x_segment),
    ensures
        same_segs(old(v)@.subrange(start as int, end as int), final(v)@.subrange(start as int, end as int)),
        pairs_sorted(final(v)@.subrange(start as int, end as int), end - start),
        final(v)@ == old(v)@.take(start as int) + final(v)@.subrange(start as int, end as int) + old(v)@.skip(end as int)
{ unimplemented!() }
// ---- where the pieces are while they are placed ----
pub proof fn lemma_pieces_prefix<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, i: int, n: int)
    requires 0 <= i <= n <= segs.len()
    ensures pieces(segs, marks, i).len() <= pieces(segs, marks, n).len(), pieces(segs, marks, n).take(pieces(segs, marks, i).len() as int) =~= pieces(segs, marks, i)
    decreases n - i
{
    if i < n {
        lemma_pieces_prefix(segs, marks, i, n - 1);
        let q = pieces(segs, marks, n - 1);
        assert(pieces(segs, marks, n).take(q.len() as int) =~= q);
        assert(pieces(segs, marks, n).take(pieces(segs, marks, i).len() as int) =~= q.take(pieces(segs, marks, i).len() as int));
    }
}
// the t-th piece of the segment i
pub proof fn lemma_piece_at<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, i: int, t: int)
    requires 0 <= i < segs.len(), 0 <= t < cut(segs[i], pts_of(marks, i)).len()
    ensures ({
        let (p, d) = (pieces(segs, marks, segs.len() as int), pieces(segs, marks, i).len() + t);
        d < p.len() && p[d] == cut(segs[i], pts_of(marks, i))[t]
    })
{
    lemma_pieces_prefix(segs, marks, i + 1, segs.len() as int);
    let (p, q) = (pieces(segs, marks, segs.len() as int), pieces(segs, marks, i + 1));
    let d = pieces(segs, marks, i).len() + t;
    assert(p.take(q.len() as int)[d] == q[d]);
}
pub proof fn lemma_group_end(marks: Seq<LineMark>, i: int, j: int, mj: LineMark) -> (j2: int)
    requires at_mark(marks, i, j, mj), by_index(marks)
    ensures group_at(marks, i, j, j2)
    decreases marks.len() - j
{
    lemma_group_grow(marks, i, j, j)
}
pub proof fn lemma_group_grow(marks: Seq<LineMark>, i: int, j: int, m: int) -> (j2: int)
    requires
        by_index(marks), 0 <= j <= m <= marks.len(),
        forall|q: int| #![trigger marks[q]] 0 <= q < marks.len() ==> (q < j ==> marks[q].index < i) && (j <= q < m ==> marks[q].index == i) && (q >= m ==> marks[q].index >= i)
    ensures group_at(marks, i, j, j2), j2 >= m
    decreases marks.len() - m
{
    if m < marks.len() && marks[m].index == i { lemma_group_grow(marks, i, j, m + 1) } else {
        assert forall|q: int| #![trigger marks[q]] 0 <= q < marks.len() && q >= m implies marks[q].index > i by { assert(marks[m].index <= marks[q].index); }
        m
    }
}
pub proof fn lemma_mark_mag_sub<C: WindingCount>(segs: Seq<Segment<C>>, o: Seq<LineMark>, n: Seq<LineMark>)
    requires n.no_duplicates(), forall|x: LineMark| n.contains(x) ==> o.contains(x)
    ensures mark_mag(segs, n) <= mark_mag(segs, o), n.len() <= o.len()
    decreases n.len()
{
    if n.len() > 0 {
        let x = n.last();
        assert(n[n.len() - 1] == x);
        assert(n.contains(x));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == x;
        let (o1, n1) = (o.remove(j), n.drop_last());
        assert forall|y: LineMark| n1.contains(y) implies o1.contains(y) by {
            let q = choose|q: int| 0 <= q < n1.len() && n1[q] == y;
            assert(n[q] == y);
            assert(n.contains(y) && y != x);
            let w = choose|w: int| 0 <= w < o.len() && o[w] == y;
            assert(o1[if w < j { w } else { w - 1 }] == y);
        }
        lemma_mark_mag_sub(segs, o1, n1);
        lemma_mark_mag_remove(segs, o, j);
    }
}
pub proof fn lemma_mark_mag_remove<C: WindingCount>(segs: Seq<Segment<C>>, o: Seq<LineMark>, j: int)
    requires 0 <= j < o.len()
    ensures mark_mag(segs, o) == mark_mag(segs, o.remove(j)) + C::mag(segs[o[j].index as int].count)
    decreases o.len()
{
    if j == o.len() - 1 { assert(o.remove(j) =~= o.drop_last()); }
    else {
        lemma_mark_mag_remove(segs, o.drop_last(), j);
        assert(o.remove(j).drop_last() =~= o.drop_last().remove(j));
        assert(o.remove(j).last() == o.last());
    }
}
// ---- every piece has a bin ----
pub open spec fn within(l: BinLayout<i32>, xs: Seq<i32>, max: i32) -> bool { forall|i: int| 0 <= i < xs.len() ==> l.min_key <= #[trigger] xs[i] <= max }
pub proof fn lemma_chain_within(l: BinLayout<i32>, max: i32, a: IntPoint, pts: Seq<IntPoint>)
    requires l.min_key <= a.x <= max, forall|i: int| 0 <= i < pts.len() ==> l.min_key <= (#[trigger] pts[i]).x <= max
    ensures within(l, chain_x(a, pts), max)
    decreases pts.len()
{
    if pts.len() > 0 {
        assert forall|i: int| 0 <= i < pts.drop_last().len() implies l.min_key <= (#[trigger] pts.drop_last()[i]).x <= max by { assert(pts[i].x <= max); }
        lemma_chain_within(l, max, a, pts.drop_last());
        lemma_chain_x_len(a, pts.drop_last());
        assert(pts[pts.len() - 1].x <= max);
        if pts.len() > 1 { assert(pts[pts.len() - 2].x <= max); }
    }
}
pub proof fn lemma_pts_from(marks: Seq<LineMark>, k: int)
    ensures forall|i: int| 0 <= i < pts_of(marks, k).len() ==> exists|m: int| 0 <= m < marks.len() && (#[trigger] marks[m]).point == #[trigger] pts_of(marks, k)[i]
    decreases marks.len()
{
    if marks.len() > 0 {
        let q = marks.drop_last();
        lemma_pts_from(q, k);
        assert forall|i: int| 0 <= i < pts_of(marks, k).len() implies exists|m: int| 0 <= m < marks.len() && (#[trigger] marks[m]).point == #[trigger] pts_of(marks, k)[i] by {
            if i < pts_of(q, k).len() {
                assert(pts_of(q, k)[i] == pts_of(marks, k)[i]);
                let m = choose|m: int| 0 <= m < q.len() && (#[trigger] q[m]).point == pts_of(q, k)[i];
                assert(marks[m].point == pts_of(marks, k)[i]);
            } else { assert(marks[marks.len() - 1].point == pts_of(marks, k)[i]); }
        }
    }
}
pub proof fn lemma_starts_within<C: WindingCount>(l: BinLayout<i32>, max: i32, segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int)
    requires in_bins(l, max, segs, marks), 0 <= n <= segs.len()
    ensures within(l, starts(segs, marks, n), max)
    decreases n
{
    if n > 0 {
        lemma_starts_within(l, max, segs, marks, n - 1);
        let (s, pts) = (segs[n - 1], pts_of(marks, n - 1));
        lemma_pts_from(marks, n - 1);
        if pts.len() > 0 {
            let all = pts.push(s.x_segment.b);
            assert forall|i: int| 0 <= i < all.len() implies l.min_key <= (#[trigger] all[i]).x <= max by {
                if i < pts.len() { assert(all[i] == pts[i]); let m = choose|m: int| 0 <= m < marks.len() && (#[trigger] marks[m]).point == pts[i]; assert(marks[m].point.x <= max); }
            }
            lemma_chain_within(l, max, s.x_segment.a, all);
        }
    }
}
pub proof fn lemma_covered<C: WindingCount>(l: BinLayout<i32>, max: i32, segs: Seq<Segment<C>>, marks: Seq<LineMark>)
    requires in_bins(l, max, segs, marks)
    ensures covered(l, pieces(segs, marks, segs.len() as int), l.slot(max) + 1), 0 <= l.slot(max)
{
    let p = pieces(segs, marks, segs.len() as int);
    let xs = starts(segs, marks, segs.len() as int);
    lemma_starts(segs, marks, segs.len() as int);
    lemma_starts_within(l, max, segs, marks, segs.len() as int);
    lemma_slot(l, l.min_key, max);
    assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies p[i].x_segment.a.x >= l.min_key && 0 <= keyed(l, p[i]) < l.slot(max) + 1 by {
        assert(xs[i] == p[i].x_segment.a.x);
        lemma_slot(l, xs[i], max);
    }
}
pub fn max_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
#[verifier::external_body]
pub fn filled<C: WindingCount>(e: Segment<C>, n: usize) -> (r: Vec<Segment<C>>)
    ensures r@.len() == n
{ vec![e; n] }
#[verifier::external_body]
pub fn as_mut_segments<C: WindingCount>(v: &mut Vec<Segment<C>>) -> (r: &mut [Segment<C>])
    ensures r@ == old(v)@, final(v)@ == final(r)@
{ v.as_mut_slice() }
#[verifier::external_body]
pub fn as_mut_marks(v: &mut Vec<LineMark>) -> (r: &mut [LineMark])
    ensures r@ == old(v)@, final(v)@ == final(r)@
{ v.as_mut_slice() }
impl XSegment {
//@ fn geom/x_segment.rs BinKey<i32> for XSegment bin_index
//@ nopub
//@ spec
        requires layout.ok(), self.a.x >= layout.min_key
        ensures r == layout.slot(self.a.x)
//@ endfn
}
impl<C: Send> Segment<C> {
//@ fn segm/segment.rs BinKey<i32> for Segment<C> bin_index
//@ nopub
//@ spec
        requires layout.ok(), self.x_segment.a.x >= layout.min_key
        ensures r == keyed(*layout, *self)
//@ endfn
}
impl SplitSolver {
//@ fn split/solver.rs SplitSolver apply
//@ index_loops
//@ sub <<<max = max.max($A);>>> <<<max = max_i32(max, $A);>>>
//@ sub <<<vec![empty; new_len]>>> <<<filled(empty, new_len)>>>
//@ sub <<<buffer.as_mut_slice()>>> <<<as_mut_segments(&mut buffer)>>>
//@ sub <<<Self::one_bin_merge(marks, $A)>>> <<<Self::one_bin_merge(as_mut_marks(marks), $A)>>>
//@ sub <<<let mut bins = $A;>>> <<<let mut bins = $A; proof { lemma_covered(layout, max, gs, ms); }>>>
//@ sub <<<slice[$A..$B].sort_by(|$P, $Q| $C);>>> <<<sort_part(slice, $A, $B, |$P: &Segment<C>, $Q: &Segment<C>| -> (o: Ordering) ensures o == seg_ord($P.x_segment, $Q.x_segment) { $C });>>>
//@ sub <<<let $K = $S.bin_index(&layout);>>> <<<let ghost (b0, u0) = (bins@, slice@); proof { lemma_room(u0, b0, layout, all, d, all[d.len() as int]); } let $K = $S.bin_index(&layout);>>>
//@ sub <<<$B.data += 1;>>> <<<$B.data += 1; proof { lemma_place(u0, b0, slice@, bins@, layout, all, d, all[d.len() as int]); d = d.push(all[d.len() as int]); }>>>
//@ spec
        requires
            old(marks)@.len() > 0, marks_in(old(marks)@, segments@), counts_ok(segments@), segments@.len() > 0,
            smag(segments@) + mark_mag(segments@, old(marks)@) <= i32::MAX, segments@.len() + old(marks)@.len() < usize::MAX,
            forall|i: int| 0 <= i < segments@.len() ==> pt_lt((#[trigger] segments@[i]).x_segment.a, segments@[i].x_segment.b) && segments@[0].x_segment.a.x <= segments@[i].x_segment.a.x,
            forall|j: int| 0 <= j < old(marks)@.len() ==> segments@[0].x_segment.a.x <= (#[trigger] old(marks)@[j]).point.x,
        ensures
            divided(r@, segments@, final(marks)@),
            forall|m: LineMark| final(marks)@.contains(m) <==> old(marks)@.contains(m), final(marks)@.no_duplicates(), by_index(final(marks)@),
            forall|k: int, up: bool| 0 <= k < segments@.len() && #[trigger] steady(final(marks)@, k, segments@[k].x_segment, up) ==> onward(final(marks)@, k, up)
//@ entry
        let ghost gs = segments@;
        let ghost m_old = marks@;
        let ghost mut d: Seq<Segment<C>> = Seq::empty();
//@ before_loop 0
        let ghost ms = marks@;
        let ghost all = pieces(gs, ms, gs.len() as int);
        proof {
            lemma_mark_mag_sub(gs, m_old, ms);
            lemma_pieces_mag(gs, ms);
            assert forall|j: int| 0 <= j < ms.len() implies min <= (#[trigger] ms[j]).point.x by {
                assert(m_old.contains(ms[j]));
                let q = choose|q: int| 0 <= q < m_old.len() && m_old[q] == ms[j];
                assert(m_old[q].point.x >= min);
            }
        }
//@ loop 0
            invariant it0 <= ms.len(), marks@ == ms, min <= max, max >= gs[0].x_segment.b.x, forall|j: int| 0 <= j < it0 ==> (#[trigger] ms[j]).point.x <= max
//@ loop 1
            invariant it1 <= gs.len(), segments@ == gs, min <= max, forall|j: int| 0 <= j < ms.len() ==> (#[trigger] ms[j]).point.x <= max, forall|i: int| 0 <= i < it1 ==> (#[trigger] gs[i]).x_segment.b.x <= max, gs.len() > 0, max >= gs[0].x_segment.b.x
//@ before_loop 2
        proof {
            lemma_starts(gs, ms, gs.len() as int);
            assert forall|k: int| #![trigger bins@[k]] 0 <= k < bins@.len() implies bins@[k].offset == off(layout, all, k) && bins@[k].data == off(layout, all, k) by {
                lemma_below_off(layout, all, starts(gs, ms, gs.len() as int), k, bins@.len() as int);
            }
            lemma_place_start(slice@, bins@, layout, all);
        }
//@ loop 2
            invariant
                it2 <= gs.len(), segments@ == gs, marks@ == ms, ms.len() > 0, by_index(ms), at_mark(ms, it2 as int, j as int, mj), all == pieces(gs, ms, gs.len() as int), counts_ok(gs),
                covered(layout, all, bins@.len() as int), placed(slice@, bins@, layout, all, d), d == pieces(gs, ms, it2 as int), gs.len() + ms.len() < usize::MAX,
//@ loopbody 2
            let ghost d0 = pieces(gs, ms, it2 as int);
            let ghost seg = gs[it2 as int];
            let ghost j0 = j as int;
            let ghost j2 = lemma_group_end(ms, it2 as int, j0, mj);
            let ghost pts = points(ms.subrange(j0, j2));
            let ghost ch = cut(seg, pts);
            proof {
                lemma_group_pts(ms, it2 as int, j0, j2);
                lemma_chain_len(seg.x_segment.a, pts.push(seg.x_segment.b), seg.count);
                lemma_piece_at(gs, ms, it2 as int, 0);
                if j2 > j0 { lemma_piece_at(gs, ms, it2 as int, j2 - j0); }
            }
//@ loop 3
                invariant_except_break mj == m0
                invariant
                    0 <= j0 < j <= j2 <= ms.len(), m0 == ms[j - 1], it2 < gs.len(), seg == gs[it2 as int], *s == seg, counts_ok(gs), marks@ == ms, group_at(ms, it2 as int, j0, j2),
                    all == pieces(gs, ms, gs.len() as int), pts == points(ms.subrange(j0, j2)), pts_of(ms, it2 as int) == pts, ch == cut(seg, pts), ch.len() == j2 - j0 + 1,
                    forall|i: int| 0 <= i < ch.len() ==> #[trigger] ch[i] == stored(if i == 0 { seg.x_segment.a } else { pts[i - 1] }, if i < pts.len() { pts[i] } else { seg.x_segment.b }, seg.count),
                    covered(layout, all, bins@.len() as int), placed(slice@, bins@, layout, all, d), d0 == pieces(gs, ms, it2 as int), d == d0 + ch.take(j - j0), d.len() < all.len(),
                    all[d.len() as int] == ch[j - j0], gs.len() + ms.len() < usize::MAX,
                ensures
                    j == j2, j < ms.len() ==> mj == ms[j as int], j == ms.len() ==> mj == m0
                decreases ms.len() - j
//@ before_loop 3
                proof {
                    assert(d =~= d0 + ch.take(1));
                    lemma_piece_at(gs, ms, it2 as int, 1);
                }
//@ loopend 3
                    proof {
                        assert(d =~= d0 + ch.take(j - j0));
                        lemma_piece_at(gs, ms, it2 as int, j - j0);
                    }
//@ loopend 2
            proof { assert(d =~= pieces(gs, ms, it2 + 1)); }
//@ before_loop 4
        proof {
            assert(d == all);
            lemma_all_placed(slice@, bins@, layout, all);
            assert(slice@.len() == all.len());
        }
//@ loop 4
            invariant
                it4 <= bins@.len(), layout.ok(), off(layout, all, 0) == 0, slice@.len() == all.len(), same_segs(all, slice@), regions(slice@, layout, all, bins@.len() as int), pairs_sorted(slice@, off(layout, all, it4 as int)),
                forall|k: int| #![trigger bins@[k]] 0 <= k < bins@.len() ==> bins@[k].offset == off(layout, all, k) && bins@[k].data == off(layout, all, k + 1) && off(layout, all, k) <= off(layout, all, k + 1) <= all.len()
//@ loopbody 4
            let ghost u0 = slice@;
//@ loopend 4
            proof { if start < end { lemma_bin_sorted(u0, slice@, slice@.subrange(start as int, end as int), layout, all, bins@.len() as int, it4 as int); } }
//@ after_loop 4
        proof {
            assert(sorted(buffer@));
            lemma_mergeable(gs, ms, buffer@);
        }
//@ endfn
}
}
fn main() {}
