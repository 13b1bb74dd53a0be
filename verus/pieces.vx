// (std's reserve_exact needs the allocator parameter)
#![feature(allocator_api)]
//@ import merge.vx
// ---- from marks to pieces: SplitSolver::apply and what it is made of ----
verus! {
global size_of usize == 8;
//@ item core/solver.rs enum Strategy
//@ item core/solver.rs struct Precision
//@ item core/solver.rs struct MultithreadOptions
//@ item core/solver.rs struct Solver
//@ item split/line_mark.rs struct LineMark
//@ item split/solver.rs struct SplitSolver

pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::reserve_exact] (v: &mut Vec<T, A>, additional: usize)
    ensures final(v)@ == old(v)@;

// the points marked on the segment k, in the order of the marks
pub open spec fn pts_of(m: Seq<LineMark>, k: int) -> Seq<IntPoint>
    decreases m.len(),
{
    if m.len() == 0 { Seq::empty() }
    else if m.last().index == k { pts_of(m.drop_last(), k).push(m.last().point) }
    else { pts_of(m.drop_last(), k) }
}
pub open spec fn points(m: Seq<LineMark>) -> Seq<IntPoint> { Seq::new(m.len(), |i: int| m[i].point) }
pub open spec fn last_of(a: IntPoint, pts: Seq<IntPoint>) -> IntPoint { if pts.len() == 0 { a } else { pts.last() } }
// the edges from a through the points, one after another
pub open spec fn chain<C: WindingCount>(a: IntPoint, pts: Seq<IntPoint>, c: C) -> Seq<Segment<C>>
    decreases pts.len(),
{
    if pts.len() == 0 { Seq::empty() }
    else { chain(a, pts.drop_last(), c).push(stored(last_of(a, pts.drop_last()), pts.last(), c)) }
}
// what becomes of a segment: itself, or the way from its start to its end through the marked points
pub open spec fn cut<C: WindingCount>(s: Segment<C>, pts: Seq<IntPoint>) -> Seq<Segment<C>> {
    if pts.len() == 0 { seq![s] } else { chain(s.x_segment.a, pts.push(s.x_segment.b), s.count) }
}
// all the pieces of the first n segments
pub open spec fn pieces<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int) -> Seq<Segment<C>>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { pieces(segs, marks, n - 1) + cut(segs[n - 1], pts_of(marks, n - 1)) }
}
pub open spec fn same_segs<C: WindingCount>(o: Seq<Segment<C>>, n: Seq<Segment<C>>) -> bool { o.len() == n.len() && o.to_multiset() == n.to_multiset() }
pub open spec fn mark_mag<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>) -> nat
    decreases marks.len(),
{
    if marks.len() == 0 { 0 } else { mark_mag(segs, marks.drop_last()) + C::mag(segs[marks.last().index as int].count) }
}
// the pieces, coincident ones combined and the empty ones dropped
pub open spec fn divided<C: WindingCount>(r: Seq<Segment<C>>, segs: Seq<Segment<C>>, marks: Seq<LineMark>) -> bool {
    exists|s: Seq<Segment<C>>| #[trigger] sorted(s) && same_segs(pieces(segs, marks, segs.len() as int), s) && r == live(runs(s))
}
pub open spec fn marks_in<C: Send>(marks: Seq<LineMark>, segs: Seq<Segment<C>>) -> bool {
    forall|i: int| 0 <= i < marks.len() ==> (#[trigger] marks[i]).index < segs.len()
}
pub open spec fn by_index(marks: Seq<LineMark>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < marks.len() ==> (#[trigger] marks[i]).index <= (#[trigger] marks[j]).index
}
pub open spec fn seg_ord(a: XSegment, b: XSegment) -> Ordering {
    if a == b { Ordering::Equal } else if seg_lt(a, b) { Ordering::Less } else { Ordering::Greater }
}

// ---- sequences as bags ----
pub proof fn lemma_bag_push<T>(s: Seq<T>, x: T)
    ensures s.push(x).to_multiset() == s.to_multiset().insert(x)
{ s.to_multiset_ensures(); }
pub proof fn lemma_bag_add<T>(a: Seq<T>, b: Seq<T>)
    ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset())
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }

pub proof fn lemma_chain_len<C: WindingCount>(a: IntPoint, pts: Seq<IntPoint>, c: C)
    ensures chain(a, pts, c).len() == pts.len(),
        forall|i: int| 0 <= i < pts.len() ==> #[trigger] chain(a, pts, c)[i] == stored(if i == 0 { a } else { pts[i - 1] }, pts[i], c)
    decreases pts.len(),
{
    if pts.len() > 0 {
        lemma_chain_len(a, pts.drop_last(), c);
    }
}
pub proof fn lemma_pts_absent(m: Seq<LineMark>, k: int)
    requires forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).index != k
    ensures pts_of(m, k) =~= Seq::empty()
    decreases m.len()
{
    if m.len() > 0 {
        assert(m[m.len() - 1].index != k);
        assert forall|i: int| 0 <= i < m.drop_last().len() implies (#[trigger] m.drop_last()[i]).index != k by { assert(m[i].index != k); }
        lemma_pts_absent(m.drop_last(), k);
    }
}
// a group of marks of one segment added
pub proof fn lemma_pts_group(m: Seq<LineMark>, g: Seq<LineMark>, k: int)
    requires forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).index == k
    ensures pts_of(m + g, k) =~= pts_of(m, k) + points(g), forall|j: int| j != k ==> #[trigger] pts_of(m + g, j) == pts_of(m, j)
    decreases g.len()
{
    if g.len() == 0 { assert(m + g =~= m); }
    else {
        assert forall|i: int| 0 <= i < g.drop_last().len() implies (#[trigger] g.drop_last()[i]).index == k by { assert(g[i].index == k); }
        assert(g[g.len() - 1].index == k);
        lemma_pts_group(m, g.drop_last(), k);
        assert((m + g).drop_last() =~= m + g.drop_last());
        assert((m + g).last() == g.last());
        assert(points(g) =~= points(g.drop_last()).push(g.last().point));
        assert forall|j: int| j != k implies #[trigger] pts_of(m + g, j) == pts_of(m, j) by { assert(pts_of(m + g.drop_last(), j) == pts_of(m, j)); }
    }
}
// the pieces of all but one segment stay
pub proof fn lemma_pieces_change<C: WindingCount>(segs: Seq<Segment<C>>, m1: Seq<LineMark>, m2: Seq<LineMark>, n: int, k: int)
    requires 0 <= n <= segs.len(), 0 <= k < segs.len(), forall|j: int| j != k ==> #[trigger] pts_of(m2, j) == pts_of(m1, j)
    ensures
        k >= n ==> pieces(segs, m2, n) == pieces(segs, m1, n),
        k < n ==> pieces(segs, m2, n).to_multiset().add(cut(segs[k], pts_of(m1, k)).to_multiset()) =~= pieces(segs, m1, n).to_multiset().add(cut(segs[k], pts_of(m2, k)).to_multiset())
    decreases n
{
    if n > 0 {
        lemma_pieces_change(segs, m1, m2, n - 1, k);
        lemma_bag_add(pieces(segs, m1, n - 1), cut(segs[n - 1], pts_of(m1, n - 1)));
        lemma_bag_add(pieces(segs, m2, n - 1), cut(segs[n - 1], pts_of(m2, n - 1)));
        let (a1, a2) = (pieces(segs, m1, n - 1).to_multiset(), pieces(segs, m2, n - 1).to_multiset());
        let (c1, c2) = (cut(segs[k], pts_of(m1, k)).to_multiset(), cut(segs[k], pts_of(m2, k)).to_multiset());
        if n - 1 != k {
            assert(pts_of(m2, n - 1) == pts_of(m1, n - 1));
            if k < n - 1 {
                let d = cut(segs[n - 1], pts_of(m1, n - 1)).to_multiset();
                assert(a2.add(d).add(c1) =~= a2.add(c1).add(d));
                assert(a1.add(d).add(c2) =~= a1.add(c2).add(d));
            }
        } else {
            assert(a2.add(c2).add(c1) =~= a1.add(c1).add(c2));
        }
    }
}
pub proof fn lemma_pieces_none<C: WindingCount>(segs: Seq<Segment<C>>, n: int)
    requires 0 <= n <= segs.len()
    ensures pieces(segs, Seq::empty(), n) =~= segs.take(n)
    decreases n
{
    if n > 0 { lemma_pieces_none(segs, n - 1); assert(pts_of(Seq::<LineMark>::empty(), n - 1) =~= Seq::empty()); }
}

// ---- the pieces can be merged ----
pub proof fn lemma_smag_add<C: WindingCount>(a: Seq<Segment<C>>, b: Seq<Segment<C>>)
    ensures smag(a + b) == smag(a) + smag(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_smag_add(a, b.drop_last()); }
}
pub proof fn lemma_smag_bag<C: WindingCount>(o: Seq<Segment<C>>, n: Seq<Segment<C>>)
    requires same_segs(o, n)
    ensures smag(o) == smag(n)
    decreases n.len()
{
    if n.len() > 0 {
        let x = n.last();
        let j = lemma_bag_last(o, n);
        assert(n =~= n.drop_last().push(x));
        lemma_bag_push(n.drop_last(), x);
        o.to_multiset_ensures();
        assert(o.remove(j).to_multiset() =~= n.drop_last().to_multiset());
        lemma_smag_bag(o.remove(j), n.drop_last());
        assert(o =~= o.take(j).push(x) + o.skip(j + 1));
        assert(o.remove(j) =~= o.take(j) + o.skip(j + 1));
        lemma_smag_add(o.take(j).push(x), o.skip(j + 1));
        lemma_smag_add(o.take(j), o.skip(j + 1));
        lemma_smag_push(o.take(j), x);
    }
}
pub proof fn lemma_bag_last<T>(o: Seq<T>, n: Seq<T>) -> (j: int)
    requires o.len() == n.len(), o.to_multiset() == n.to_multiset(), n.len() > 0
    ensures 0 <= j < o.len(), o[j] == n.last()
{
    o.to_multiset_ensures();
    n.to_multiset_ensures();
    assert(n[n.len() - 1] == n.last());
    assert(n.contains(n.last()));
    assert(o.to_multiset().count(n.last()) > 0);
    choose|j: int| 0 <= j < o.len() && o[j] == n.last()
}
pub proof fn lemma_bag_in<T>(o: Seq<T>, n: Seq<T>, i: int) -> (j: int)
    requires o.to_multiset() == n.to_multiset(), 0 <= i < n.len()
    ensures 0 <= j < o.len(), o[j] == n[i]
{
    o.to_multiset_ensures();
    n.to_multiset_ensures();
    assert(n.contains(n[i]));
    assert(o.to_multiset().count(n[i]) > 0);
    choose|j: int| 0 <= j < o.len() && o[j] == n[i]
}
pub proof fn lemma_bag_contains<T>(o: Seq<T>, n: Seq<T>, x: T)
    requires o.to_multiset() == n.to_multiset()
    ensures o.contains(x) <==> n.contains(x)
{
    if n.contains(x) { let i = choose|i: int| 0 <= i < n.len() && n[i] == x; let j = lemma_bag_in(o, n, i); assert(o[j] == x); }
    if o.contains(x) { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; let j = lemma_bag_in(n, o, i); assert(n[j] == x); }
}
pub open spec fn counts_ok<C: WindingCount>(s: Seq<Segment<C>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !C::none((#[trigger] s[i]).count) && C::wf(s[i].count) && C::mag(s[i].count) <= i32::MAX
}
pub proof fn lemma_cut_ok<C: WindingCount>(s: Segment<C>, pts: Seq<IntPoint>)
    requires !C::none(s.count), C::wf(s.count), C::mag(s.count) <= i32::MAX
    ensures counts_ok(cut(s, pts)), cut(s, pts).len() == pts.len() + 1, smag(cut(s, pts)) == (pts.len() + 1) * C::mag(s.count)
{
    if pts.len() > 0 {
        lemma_chain_len(s.x_segment.a, pts.push(s.x_segment.b), s.count);
        lemma_chain_mag(s.x_segment.a, pts.push(s.x_segment.b), s.count);
        C::lemma_inv(s.count);
    } else {
        assert(seq![s].drop_last() =~= Seq::empty());
        assert(smag(Seq::<Segment<C>>::empty()) == 0);
        assert(smag(seq![s]) == C::mag(s.count));
        assert((pts.len() + 1) * C::mag(s.count) == C::mag(s.count));
    }
}
pub proof fn lemma_chain_mag<C: WindingCount>(a: IntPoint, pts: Seq<IntPoint>, c: C)
    requires C::wf(c), C::mag(c) <= i32::MAX
    ensures smag(chain(a, pts, c)) == pts.len() * C::mag(c)
    decreases pts.len()
{
    if pts.len() > 0 {
        C::lemma_inv(c);
        lemma_chain_mag(a, pts.drop_last(), c);
        lemma_smag_push(chain(a, pts.drop_last(), c), stored(last_of(a, pts.drop_last()), pts.last(), c));
        assert(pts.len() * C::mag(c) == (pts.len() - 1) * C::mag(c) + C::mag(c)) by (nonlinear_arith) requires pts.len() > 0;
    }
}
pub proof fn lemma_pieces_ok<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int)
    requires 0 <= n <= segs.len(), counts_ok(segs)
    ensures counts_ok(pieces(segs, marks, n))
    decreases n
{
    if n > 0 {
        lemma_pieces_ok(segs, marks, n - 1);
        assert(!C::none(segs[n - 1].count));
        lemma_cut_ok(segs[n - 1], pts_of(marks, n - 1));
        let (p, q) = (pieces(segs, marks, n - 1), cut(segs[n - 1], pts_of(marks, n - 1)));
        assert forall|i: int| 0 <= i < (p + q).len() implies !C::none((#[trigger] (p + q)[i]).count) && C::wf((p + q)[i].count) && C::mag((p + q)[i].count) <= i32::MAX by {
            if i < p.len() { assert(!C::none(p[i].count)); } else { assert(!C::none(q[i - p.len()].count)); }
        }
    }
}
// one more mark: one more piece
pub proof fn lemma_pieces_mark<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int)
    requires 0 <= n <= segs.len(), counts_ok(segs), marks.len() > 0
    ensures
        smag(pieces(segs, marks, n)) == smag(pieces(segs, marks.drop_last(), n)) + (if marks.last().index < n { C::mag(segs[marks.last().index as int].count) } else { 0 }),
        pieces(segs, marks, n).len() == pieces(segs, marks.drop_last(), n).len() + (if marks.last().index < n { 1int } else { 0 })
    decreases n
{
    if n > 0 {
        let m0 = marks.drop_last();
        lemma_pieces_mark(segs, marks, n - 1);
        assert(!C::none(segs[n - 1].count));
        lemma_cut_ok(segs[n - 1], pts_of(marks, n - 1));
        lemma_cut_ok(segs[n - 1], pts_of(m0, n - 1));
        lemma_smag_add(pieces(segs, marks, n - 1), cut(segs[n - 1], pts_of(marks, n - 1)));
        lemma_smag_add(pieces(segs, m0, n - 1), cut(segs[n - 1], pts_of(m0, n - 1)));
        let (l, c) = (pts_of(m0, n - 1).len(), C::mag(segs[n - 1].count));
        assert((l + 2) * c == (l + 1) * c + c) by (nonlinear_arith);
    }
}
pub proof fn lemma_pieces_mag<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>)
    requires counts_ok(segs), marks_in(marks, segs)
    ensures
        smag(pieces(segs, marks, segs.len() as int)) == smag(segs) + mark_mag(segs, marks),
        pieces(segs, marks, segs.len() as int).len() == segs.len() + marks.len()
    decreases marks.len()
{
    if marks.len() > 0 {
        lemma_pieces_mark(segs, marks, segs.len() as int);
        assert(marks[marks.len() - 1].index < segs.len());
        assert(marks_in(marks.drop_last(), segs)) by {
            assert forall|i: int| 0 <= i < marks.drop_last().len() implies (#[trigger] marks.drop_last()[i]).index < segs.len() by { assert(marks[i].index < segs.len()); }
        }
        lemma_pieces_mag(segs, marks.drop_last());
    } else {
        assert(marks =~= Seq::empty());
        lemma_pieces_none(segs, segs.len() as int);
        assert(segs.take(segs.len() as int) =~= segs);
    }
}
// what the merge expects of the sorted pieces
pub proof fn lemma_mergeable<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, s: Seq<Segment<C>>)
    requires counts_ok(segs), marks_in(marks, segs), smag(segs) + mark_mag(segs, marks) <= i32::MAX, same_segs(pieces(segs, marks, segs.len() as int), s)
    ensures all_live(s), all_wf(s), smag(s) <= i32::MAX
{
    let p = pieces(segs, marks, segs.len() as int);
    lemma_pieces_ok(segs, marks, segs.len() as int);
    lemma_pieces_mag(segs, marks);
    lemma_smag_bag(p, s);
    assert forall|i: int| 0 <= i < s.len() implies !C::none((#[trigger] s[i]).count) && C::wf(s[i].count) by {
        let j = lemma_bag_in(p, s, i);
        assert(!C::none(p[j].count));
    }
}
// one segment replaced by its pieces
pub proof fn lemma_bag_cut<T>(s: Seq<T>, k: int, ch: Seq<T>)
    requires 0 <= k < s.len(), ch.len() > 0
    ensures (s.update(k, ch[0]) + ch.skip(1)).to_multiset().insert(s[k]) =~= s.to_multiset().add(ch.to_multiset())
{
    assert(s =~= s.take(k).push(s[k]) + s.skip(k + 1));
    assert(s.update(k, ch[0]) =~= s.take(k).push(ch[0]) + s.skip(k + 1));
    assert(ch =~= Seq::empty().push(ch[0]) + ch.skip(1));
    lemma_bag_add(s.take(k).push(s[k]), s.skip(k + 1));
    lemma_bag_add(s.take(k).push(ch[0]), s.skip(k + 1));
    lemma_bag_push(s.take(k), s[k]);
    lemma_bag_push(s.take(k), ch[0]);
    lemma_bag_add(s.update(k, ch[0]), ch.skip(1));
    lemma_bag_add(Seq::empty().push(ch[0]), ch.skip(1));
    lemma_bag_push(Seq::<T>::empty(), ch[0]);
    assert(Seq::<T>::empty().to_multiset() =~= vstd::multiset::Multiset::empty()) by { Seq::<T>::empty().to_multiset_ensures(); }
}
// the marks m1 are done, the group g of segment k is next
pub proof fn lemma_group<C: WindingCount>(segs: Seq<Segment<C>>, s: Seq<Segment<C>>, m1: Seq<LineMark>, g: Seq<LineMark>, k: int)
    requires
        0 <= k < segs.len(), k < s.len(), s[k] == segs[k], same_segs(pieces(segs, m1, segs.len() as int), s), counts_ok(segs), marks_in(m1, segs),
        forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).index == k, g.len() > 0,
        forall|i: int| 0 <= i < m1.len() ==> (#[trigger] m1[i]).index != k,
    ensures ({
        let ch = cut(segs[k], points(g));
        ch.len() == g.len() + 1 && same_segs(pieces(segs, m1 + g, segs.len() as int), s.update(k, ch[0]) + ch.skip(1))
    })
{
    let n = segs.len() as int;
    let ch = cut(segs[k], points(g));
    lemma_pts_group(m1, g, k);
    lemma_pts_absent(m1, k);
    assert(pts_of(m1 + g, k) =~= points(g));
    lemma_pieces_change(segs, m1, m1 + g, n, k);
    assert(!C::none(segs[k].count));
    lemma_cut_ok(segs[k], points(g));
    lemma_bag_cut(s, k, ch);
    let (t, p1, p2) = ((s.update(k, ch[0]) + ch.skip(1)).to_multiset(), pieces(segs, m1, n).to_multiset(), pieces(segs, m1 + g, n).to_multiset());
    lemma_bag_push(Seq::<Segment<C>>::empty(), segs[k]);
    assert(Seq::<Segment<C>>::empty().push(segs[k]) =~= seq![segs[k]]);
    assert(Seq::<Segment<C>>::empty().to_multiset() =~= vstd::multiset::Multiset::empty()) by { Seq::<Segment<C>>::empty().to_multiset_ensures(); }
    assert(p2.insert(segs[k]) =~= p1.add(ch.to_multiset()));
    assert(t.insert(segs[k]) =~= p1.add(ch.to_multiset()));
    assert(t =~= p2) by {
        assert(t =~= t.insert(segs[k]).remove(segs[k]));
        assert(p2 =~= p2.insert(segs[k]).remove(segs[k]));
    }
    lemma_pieces_mag(segs, m1);
    assert(marks_in(m1 + g, segs));
    lemma_pieces_mag(segs, m1 + g);
}

impl PartialOrdSpecImpl for XSegment {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(seg_ord(*self, *other)) }
}
impl OrdSpecImpl for XSegment {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { seg_ord(*self, *other) }
}
impl PartialOrd for XSegment {
//@ fn geom/x_segment.rs PartialOrd for XSegment partial_cmp
//@ nopub
//@ endfn
}
impl Ord for XSegment {
//@ fn geom/x_segment.rs Ord for XSegment cmp
//@ sub <<<?a == Ordering::Equal>>> <<<matches!(a, Ordering::Equal)>>>
//@ nopub
//@ endfn
}
// the std sort: the same items, in the order of the given comparison
#[verifier::external_body]
pub fn sort_by_x<C: WindingCount, F: Fn(&Segment<C>, &Segment<C>) -> Ordering>(v: &mut Vec<Segment<C>>, compare: F)
    requires
        forall|a: &Segment<C>, b: &Segment<C>| #[trigger] compare.requires((a, b)),
        forall|a: &Segment<C>, b: &Segment<C>, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> o == seg_ord(a.x_segment, b.x_segment),
    ensures same_segs(old(v)@, final(v)@), sorted(final(v)@)
{ unimplemented!() }

// ---- the marks in order along their segments ----
pub open spec fn le_to(a: i32, b: i32, up: bool) -> bool { if up { a <= b } else { a >= b } }
// the points marked on the segment k, as if they lay on it: between its ends, and going the way it goes
pub open spec fn steady(m: Seq<LineMark>, k: int, s: XSegment, up: bool) -> bool {
    &&& forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]).index == k ==> le_to(s.a.y, m[i].point.y, up) && le_to(m[i].point.y, s.b.y, up)
    &&& forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && (#[trigger] m[i]).index == k && (#[trigger] m[j]).index == k && m[i].point.x < m[j].point.x
            ==> le_to(m[i].point.y, m[j].point.y, up)
}
pub open spec fn next_ok(p: IntPoint, q: IntPoint, up: bool) -> bool { p.x <= q.x && le_to(p.y, q.y, up) }
pub open spec fn onward(m: Seq<LineMark>, k: int, up: bool) -> bool {
    forall|i: int, j: int| 0 <= i < j < m.len() && (#[trigger] m[i]).index == k && (#[trigger] m[j]).index == k ==> next_ok(m[i].point, m[j].point, up)
}
pub open spec fn same_marks(o: Seq<LineMark>, n: Seq<LineMark>) -> bool { o.len() == n.len() && o.to_multiset() == n.to_multiset() }
pub open spec fn mark_lt(a: LineMark, b: LineMark) -> bool { a.index < b.index || a.index == b.index && pt_lt(a.point, b.point) }
pub open spec fn mark_ord(a: LineMark, b: LineMark) -> Ordering { if a == b { Ordering::Equal } else if mark_lt(a, b) { Ordering::Less } else { Ordering::Greater } }
#[verifier::opaque]
pub open spec fn rising(m: Seq<LineMark>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> pt_lt((#[trigger] m[i]).point, (#[trigger] m[j]).point) }
pub open spec fn all_of(m: Seq<LineMark>, k: int) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).index == k }
pub proof fn lemma_steady_bag(o: Seq<LineMark>, n: Seq<LineMark>, k: int, s: XSegment, up: bool)
    requires same_marks(o, n), steady(o, k, s, up)
    ensures steady(n, k, s, up)
{
    assert forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).index == k implies le_to(s.a.y, n[i].point.y, up) && le_to(n[i].point.y, s.b.y, up) by {
        let i0 = lemma_bag_in(o, n, i);
        assert(o[i0].index == k);
    }
    assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && (#[trigger] n[i]).index == k && (#[trigger] n[j]).index == k && n[i].point.x < n[j].point.x
            implies le_to(n[i].point.y, n[j].point.y, up) by {
        let (i0, j0) = (lemma_bag_in(o, n, i), lemma_bag_in(o, n, j));
        assert(o[i0].index == k && o[j0].index == k);
    }
}
pub proof fn lemma_bag_part<T>(s: Seq<T>, a: int, b: int, p: Seq<T>)
    requires 0 <= a <= b <= s.len(), p.len() == b - a, p.to_multiset() == s.subrange(a, b).to_multiset()
    ensures (s.take(a) + p + s.skip(b)).to_multiset() == s.to_multiset(), (s.take(a) + p + s.skip(b)).len() == s.len()
{
    assert(s =~= s.take(a) + s.subrange(a, b) + s.skip(b));
    lemma_bag_add(s.take(a), p);
    lemma_bag_add(s.take(a), s.subrange(a, b));
    lemma_bag_add(s.take(a) + p, s.skip(b));
    lemma_bag_add(s.take(a) + s.subrange(a, b), s.skip(b));
}
pub proof fn lemma_bag_reverse<T>(s: Seq<T>)
    ensures s.reverse().to_multiset() == s.to_multiset()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_bag_reverse(s.drop_last());
        assert(s.reverse() =~= Seq::empty().push(s.last()) + s.drop_last().reverse());
        assert(s =~= s.drop_last() + Seq::empty().push(s.last()));
        lemma_bag_add(Seq::empty().push(s.last()), s.drop_last().reverse());
        lemma_bag_add(s.drop_last(), Seq::empty().push(s.last()));
        assert(s.reverse().to_multiset() =~= s.to_multiset());
    } else { assert(s.reverse() =~= s); }
}
pub assume_specification<T> [ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
// std: a part of a slice, mutably
#[verifier::external_body]
pub fn part_mut(v: &mut [LineMark], a: usize, b: usize) -> (r: &mut [LineMark])
    requires a <= b <= old(v)@.len()
    ensures r@ == old(v)@.subrange(a as int, b as int), final(r)@.len() == r@.len(), final(v)@ == old(v)@.take(a as int) + final(r)@ + old(v)@.skip(b as int), final(v)@.subrange(a as int, b as int) == final(r)@
{ &mut v[a..b] }
// the marks of one segment with the same x turned, or not
pub open spec fn turned(o: Seq<LineMark>, n: Seq<LineMark>, j0: int, j: int, rev: bool) -> bool {
    n == o.take(j0) + (if rev { o.subrange(j0, j).reverse() } else { o.subrange(j0, j) }) + o.skip(j)
}
pub proof fn lemma_column_keep(m0: Seq<LineMark>, o: Seq<LineMark>, n: Seq<LineMark>, k: int, j0: int, j: int, rev: bool)
    requires
        0 <= j0 < j <= m0.len(), same_marks(m0, o), all_of(m0, k),
        o.skip(j0) == m0.skip(j0), forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i].point.x == m0[i].point.x,
        forall|i: int| j0 <= i < j ==> (#[trigger] m0[i]).point.x == m0[j0].point.x,
        turned(o, n, j0, j, rev)
    ensures
        same_marks(m0, n), n.skip(j) == m0.skip(j), forall|i: int| #![trigger n[i]] 0 <= i < n.len() ==> n[i].point.x == m0[i].point.x,
        all_of(n, k), all_of(o, k), forall|i: int| #![trigger o[i]] j0 <= i < o.len() ==> o[i] == m0[i]
{
    let part = o.subrange(j0, j);
    let np = if rev { part.reverse() } else { part };
    lemma_bag_reverse(part);
    lemma_bag_part(o, j0, j, np);
    assert forall|i: int| #![trigger o[i]] j0 <= i < o.len() implies o[i] == m0[i] by {
        let (a, b) = (o.skip(j0), m0.skip(j0));
        assert(a[i - j0] == o[i] && b[i - j0] == m0[i] && a == b);
    }
    assert(n.skip(j) =~= m0.skip(j));
    assert forall|i: int| #![trigger n[i]] 0 <= i < n.len() implies n[i].point.x == m0[i].point.x by {
        if i < j0 { assert(n[i] == o[i]); }
        else if i < j { let q = if rev { j - 1 - (i - j0) } else { i }; assert(n[i] == o[q] && o[q] == m0[q]); assert(m0[i].point.x == m0[j0].point.x); }
        else { assert(n[i] == o[i]); }
    }
    lemma_all_of_bag(m0, n, k);
    lemma_all_of_bag(m0, o, k);
}
pub proof fn lemma_all_of_bag(o: Seq<LineMark>, n: Seq<LineMark>, k: int)
    requires same_marks(o, n), all_of(o, k)
    ensures all_of(n, k)
{
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).index == k by { let q = lemma_bag_in(o, n, i); assert(o[q].index == k); }
}
pub open spec fn same_x(m0: Seq<LineMark>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> (#[trigger] m0[i]).point.x == m0[a].point.x }
// the marks m0 so far: the first j0 in order along the segment, the rest untouched
#[verifier::opaque]
pub open spec fn ordered_to(m0: Seq<LineMark>, o: Seq<LineMark>, k: int, s: XSegment, j0: int) -> bool {
    &&& same_marks(m0, o) && all_of(o, k) && o.skip(j0) == m0.skip(j0)
    &&& forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i].point.x == m0[i].point.x
    &&& forall|up: bool| #[trigger] steady(m0, k, s, up) ==> onward(o.take(j0), k, up)
}
pub proof fn lemma_ordered_start(m0: Seq<LineMark>, k: int, s: XSegment)
    requires all_of(m0, k)
    ensures ordered_to(m0, m0, k, s, 0)
{
    reveal(ordered_to);
    assert forall|up: bool| #[trigger] steady(m0, k, s, up) implies onward(m0.take(0), k, up) by {}
}
pub proof fn lemma_ordered_at(m0: Seq<LineMark>, o: Seq<LineMark>, k: int, s: XSegment, j0: int, i: int)
    requires ordered_to(m0, o, k, s, j0), 0 <= j0 <= i < m0.len()
    ensures o.len() == m0.len(), o[i] == m0[i]
{
    reveal(ordered_to);
    let (a, b) = (o.skip(j0), m0.skip(j0));
    assert(a[i - j0] == o[i] && b[i - j0] == m0[i] && a == b);
}
pub proof fn lemma_ordered_end(m0: Seq<LineMark>, o: Seq<LineMark>, k: int, s: XSegment)
    requires ordered_to(m0, o, k, s, m0.len() as int)
    ensures same_marks(m0, o), all_of(o, k), forall|up: bool| #[trigger] steady(m0, k, s, up) ==> onward(o, k, up)
{
    reveal(ordered_to);
    assert(o.take(o.len() as int) =~= o);
}
pub proof fn lemma_column(m0: Seq<LineMark>, o: Seq<LineMark>, n: Seq<LineMark>, k: int, s: XSegment, j0: int, j: int, y0: i32, y1: i32)
    requires
        0 <= j0 < j <= m0.len(), o.len() == m0.len(), ordered_to(m0, o, k, s, j0), all_of(m0, k), rising(m0), same_x(m0, j0, j),
        j0 > 0 ==> m0[j0 - 1].point.x < m0[j0].point.x,
        j < m0.len() ==> m0[j0].point.x < m0[j].point.x,
        if j0 + 1 < j { turned(o, n, j0, j, y0 > y1) && y0 == (if j0 == 0 { s.a.y } else { o[j0 - 1].point.y }) && y1 == (if j == o.len() { s.b.y } else { o[j].point.y }) }
        else { n == o },
    ensures ordered_to(m0, n, k, s, j)
{
    let rev = j0 + 1 < j && y0 > y1;
    if j0 + 1 == j { assert(o =~= o.take(j0) + o.subrange(j0, j) + o.skip(j)); }
    assert(turned(o, n, j0, j, rev));
    assert(same_marks(m0, o) && all_of(o, k) && o.skip(j0) == m0.skip(j0) && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i].point.x == m0[i].point.x) by { reveal(ordered_to); }
    lemma_column_keep(m0, o, n, k, j0, j, rev);
    lemma_column_facts(m0, o, j0, j);
    reveal(ordered_to);
    assert forall|up: bool| #[trigger] steady(m0, k, s, up) implies onward(n.take(j), k, up) by {
        lemma_steady_bag(m0, o, k, s, up);
        lemma_column_up(o, n, k, s, j0, j, y0, y1, rev, up);
    }
}
pub proof fn lemma_column_up(o: Seq<LineMark>, n: Seq<LineMark>, k: int, s: XSegment, j0: int, j: int, y0: i32, y1: i32, rev: bool, up: bool)
    requires
        0 <= j0 < j <= o.len(), all_of(o, k), steady(o, k, s, up), onward(o.take(j0), k, up), rev == (j0 + 1 < j && y0 > y1), turned(o, n, j0, j, rev),
        forall|i: int| 0 <= i < j0 ==> (#[trigger] o[i]).point.x < o[j0].point.x,
        forall|i: int, l: int| j0 <= i < l < j ==> (#[trigger] o[i]).point.y < (#[trigger] o[l]).point.y,
        forall|i: int| j0 <= i < j ==> (#[trigger] o[i]).point.x == o[j0].point.x,
        j0 > 0 ==> o[j0 - 1].point.x < o[j0].point.x,
        j < o.len() ==> o[j - 1].point.x < o[j].point.x,
        j0 + 1 < j ==> y0 == (if j0 == 0 { s.a.y } else { o[j0 - 1].point.y }) && y1 == (if j == o.len() { s.b.y } else { o[j].point.y })
    ensures onward(n.take(j), k, up)
{
    let ol = o.take(j0);
    assert forall|i: int, l: int| 0 <= i < l < j0 implies next_ok((#[trigger] o[i]).point, (#[trigger] o[l]).point, up) by {
        assert(ol[i] == o[i] && ol[l] == o[l]);
        assert(o[i].index == k && o[l].index == k);
    }
    lemma_column_way(o, k, s, j0, j, y0, y1, up);
    lemma_column_on(o, n, k, s, j0, j, rev, up);
}
pub proof fn lemma_column_facts(m0: Seq<LineMark>, o: Seq<LineMark>, j0: int, j: int)
    requires
        0 <= j0 < j <= m0.len(), o.len() == m0.len(), rising(m0), same_x(m0, j0, j),
        forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i].point.x == m0[i].point.x,
        forall|i: int| #![trigger o[i]] j0 <= i < o.len() ==> o[i] == m0[i],
        j0 > 0 ==> m0[j0 - 1].point.x < m0[j0].point.x,
        j < m0.len() ==> m0[j0].point.x < m0[j].point.x,
    ensures
        forall|i: int| 0 <= i < j0 ==> (#[trigger] o[i]).point.x < o[j0].point.x,
        forall|i: int, l: int| j0 <= i < l < j ==> (#[trigger] o[i]).point.y < (#[trigger] o[l]).point.y,
        forall|i: int| j0 <= i < j ==> (#[trigger] o[i]).point.x == o[j0].point.x,
        j0 > 0 ==> o[j0 - 1].point.x < o[j0].point.x,
        j < o.len() ==> o[j - 1].point.x < o[j].point.x,
{
    reveal(rising);
    assert(o[j0] == m0[j0]);
    assert forall|i: int| 0 <= i < j0 implies (#[trigger] o[i]).point.x < o[j0].point.x by {
        if i < j0 - 1 { assert(pt_lt(m0[i].point, m0[j0 - 1].point)); }
    }
    assert forall|i: int, l: int| j0 <= i < l < j implies (#[trigger] o[i]).point.y < (#[trigger] o[l]).point.y by {
        assert(pt_lt(m0[i].point, m0[l].point));
        assert(m0[i].point.x == m0[j0].point.x && m0[l].point.x == m0[j0].point.x);
    }
    assert forall|i: int| j0 <= i < j implies (#[trigger] o[i]).point.x == o[j0].point.x by { assert(m0[i].point.x == m0[j0].point.x); }
    assert(o[j - 1].point.x == m0[j - 1].point.x && m0[j - 1].point.x == m0[j0].point.x);
    if j < o.len() { assert(o[j] == m0[j]); }
}
// the column is turned just when the segment goes down
pub proof fn lemma_column_way(o: Seq<LineMark>, k: int, s: XSegment, j0: int, j: int, y0: i32, y1: i32, up: bool)
    requires
        0 <= j0 < j <= o.len(), all_of(o, k), steady(o, k, s, up),
        j0 > 0 ==> o[j0 - 1].point.x < o[j0].point.x,
        j < o.len() ==> o[j - 1].point.x < o[j].point.x,
        forall|i: int, l: int| j0 <= i < l < j ==> (#[trigger] o[i]).point.y < (#[trigger] o[l]).point.y,
        forall|i: int| j0 <= i < j ==> (#[trigger] o[i]).point.x == o[j0].point.x,
        j0 + 1 < j ==> y0 == (if j0 == 0 { s.a.y } else { o[j0 - 1].point.y }) && y1 == (if j == o.len() { s.b.y } else { o[j].point.y })
    ensures j0 + 1 < j ==> ((y0 > y1) == !up)
{
    if j0 + 1 < j {
        assert(o[j0].index == k && o[j - 1].index == k && o[j0].point.y < o[j - 1].point.y);
        assert(o[j - 1].point.x == o[j0].point.x);
        if j0 > 0 { assert(o[j0 - 1].index == k); }
        if j < o.len() { assert(o[j].index == k); }
    }
}
pub proof fn lemma_column_on(o: Seq<LineMark>, n: Seq<LineMark>, k: int, s: XSegment, j0: int, j: int, rev: bool, up: bool)
    requires
        0 <= j0 < j <= o.len(), all_of(o, k), steady(o, k, s, up),
        forall|i: int, l: int| 0 <= i < l < j0 ==> next_ok((#[trigger] o[i]).point, (#[trigger] o[l]).point, up),
        forall|i: int| 0 <= i < j0 ==> (#[trigger] o[i]).point.x < o[j0].point.x,
        forall|i: int, l: int| j0 <= i < l < j ==> (#[trigger] o[i]).point.y < (#[trigger] o[l]).point.y,
        forall|i: int| j0 <= i < j ==> (#[trigger] o[i]).point.x == o[j0].point.x,
        turned(o, n, j0, j, rev), j0 + 1 < j ==> rev == !up, j0 + 1 == j ==> !rev
    ensures onward(n.take(j), k, up)
{
    let t = n.take(j);
    assert forall|i: int, l: int| 0 <= i < l < t.len() && (#[trigger] t[i]).index == k && (#[trigger] t[l]).index == k implies next_ok(t[i].point, t[l].point, up) by {
        if l < j0 {
            assert(t[i] == o[i] && t[l] == o[l]);
        } else {
            let ql = if rev { j - 1 - (l - j0) } else { l };
            assert(t[l] == o[ql] && o[ql].index == k);
            if i < j0 {
                assert(t[i] == o[i] && o[i].index == k);
                assert(o[i].point.x < o[ql].point.x);
            } else {
                let qi = if rev { j - 1 - (i - j0) } else { i };
                assert(t[i] == o[qi]);
            }
        }
    }
}

// ---- all the marks: sorted by segment and point, repeated ones dropped, each group in order ----
pub open spec fn marks_rise(m: Seq<LineMark>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> mark_lt(#[trigger] m[i], #[trigger] m[j]) }
// what a vector's dedup leaves: of equal neighbours the first
pub open spec fn thin(m: Seq<LineMark>) -> Seq<LineMark>
    decreases m.len(),
{
    if m.len() == 0 { m } else if m.len() > 1 && m[m.len() - 2] == m.last() { thin(m.drop_last()) } else { thin(m.drop_last()).push(m.last()) }
}
pub open spec fn marks_sorted(m: Seq<LineMark>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> !mark_lt(#[trigger] m[j], #[trigger] m[i]) }
pub proof fn lemma_thin(m: Seq<LineMark>)
    requires marks_sorted(m)
    ensures marks_rise(thin(m)), thin(m).len() <= m.len(), m.len() > 0 ==> thin(m).len() > 0 && thin(m).last() == m.last(),
        forall|x: LineMark| thin(m).contains(x) <==> m.contains(x)
    decreases m.len()
{
    if m.len() > 0 {
        let t = m.drop_last();
        assert(marks_sorted(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies !mark_lt(#[trigger] t[j], #[trigger] t[i]) by { assert(!mark_lt(m[j], m[i])); } }
        lemma_thin(t);
        let (r, q) = (thin(m), thin(t));
        if m.len() > 1 {
            assert(t.last() == m[m.len() - 2]);
            assert(!mark_lt(m[m.len() - 1], m[m.len() - 2]));
        }
        assert(m =~= t.push(m.last()));
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies mark_lt(#[trigger] r[i], #[trigger] r[j]) by {
            if j < q.len() { assert(mark_lt(q[i], q[j])); }
            else if i < q.len() - 1 { assert(mark_lt(q[i], q[q.len() - 1])); }
        }
        assert forall|x: LineMark| r.contains(x) <==> m.contains(x) by {
            lemma_push_contains(t, m.last(), x);
            lemma_push_contains(q, m.last(), x);
            if m.len() > 1 && t.last() == m.last() { assert(t[t.len() - 1] == x ==> t.contains(x)); }
        }
    } else { assert(thin(m) =~= m); }
}
pub proof fn lemma_push_contains(t: Seq<LineMark>, x: LineMark, m: LineMark)
    ensures t.push(x).contains(m) <==> t.contains(m) || m == x
{
    let u = t.push(x);
    if t.contains(m) { let k = choose|k: int| 0 <= k < t.len() && t[k] == m; assert(u[k] == m); }
    if m == x { assert(u[t.len() as int] == x); }
    if u.contains(m) { let k = choose|k: int| 0 <= k < u.len() && u[k] == m; if k < t.len() { assert(t[k] == m); } }
}
// std: dedup
#[verifier::external_body]
pub fn dedup_marks(v: &mut Vec<LineMark>)
    ensures final(v)@ == thin(old(v)@)
{ unimplemented!() }
// the sort of the key-sort crate (or of rayon): the same items, in the order of the given comparison
#[verifier::external_body]
pub fn sort_marks<F: Fn(&LineMark, &LineMark) -> Ordering>(v: &mut Vec<LineMark>, solver: &Solver, compare: F)
    requires
        forall|a: &LineMark, b: &LineMark| #[trigger] compare.requires((a, b)),
        forall|a: &LineMark, b: &LineMark, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> o == mark_ord(*a, *b),
    ensures same_marks(old(v)@, final(v)@), marks_sorted(final(v)@)
{ unimplemented!() }
pub assume_specification [ Ordering::then ](a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a is Equal { b } else { a });
#[verifier::external_body]
pub fn part_of(v: &mut Vec<LineMark>, a: usize, b: usize) -> (r: &mut [LineMark])
    requires a <= b <= old(v)@.len()
    ensures r@ == old(v)@.subrange(a as int, b as int), final(r)@.len() == r@.len(), final(v)@ == old(v)@.take(a as int) + final(r)@ + old(v)@.skip(b as int), final(v)@.subrange(a as int, b as int) == final(r)@
{ &mut v[a..b] }
#[verifier::opaque]
pub open spec fn grouped_to<C: Send>(m1: Seq<LineMark>, o: Seq<LineMark>, segs: Seq<Segment<C>>, n: int) -> bool {
    &&& same_marks(m1, o) && o.skip(n) == m1.skip(n)
    &&& forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i].index == m1[i].index
    &&& forall|k: int, up: bool| 0 <= k < segs.len() && #[trigger] steady(m1, k, segs[k].x_segment, up) ==> onward(o.take(n), k, up)
}
pub proof fn lemma_grouped_start<C: Send>(m1: Seq<LineMark>, segs: Seq<Segment<C>>)
    ensures grouped_to(m1, m1, segs, 0)
{
    reveal(grouped_to);
    assert forall|k: int, up: bool| 0 <= k < segs.len() && #[trigger] steady(m1, k, segs[k].x_segment, up) implies onward(m1.take(0), k, up) by {}
}
// the group from i0 to i as it is now
pub proof fn lemma_grouped_at<C: Send>(m1: Seq<LineMark>, o: Seq<LineMark>, segs: Seq<Segment<C>>, i0: int, i: int)
    requires grouped_to(m1, o, segs, i0), 0 <= i0 < i <= m1.len(), marks_rise(m1), forall|n: int| i0 <= n < i ==> (#[trigger] m1[n]).index == m1[i0].index
    ensures o.len() == m1.len(), o.subrange(i0, i) =~= m1.subrange(i0, i), rising(o.subrange(i0, i)), all_of(o.subrange(i0, i), m1[i0].index as int),
        forall|n: int| i0 <= n < m1.len() ==> #[trigger] o[n] == m1[n]
{
    reveal(grouped_to);
    assert forall|n: int| i0 <= n < m1.len() implies #[trigger] o[n] == m1[n] by {
        let (a, b) = (o.skip(i0), m1.skip(i0));
        assert(a[n - i0] == o[n] && b[n - i0] == m1[n] && a == b);
    }
    let g = o.subrange(i0, i);
    assert(rising(g)) by {
        reveal(rising);
        assert forall|p: int, q: int| 0 <= p < q < g.len() implies pt_lt((#[trigger] g[p]).point, (#[trigger] g[q]).point) by {
            assert(g[p] == m1[i0 + p] && g[q] == m1[i0 + q]);
            assert(mark_lt(m1[i0 + p], m1[i0 + q]));
        }
    }
    assert forall|n: int| 0 <= n < g.len() implies (#[trigger] g[n]).index == m1[i0].index by { assert(g[n] == m1[i0 + n]); }
}
pub proof fn lemma_group_step<C: Send>(m1: Seq<LineMark>, o: Seq<LineMark>, n: Seq<LineMark>, p: Seq<LineMark>, segs: Seq<Segment<C>>, i0: int, i: int)
    requires
        grouped_to(m1, o, segs, i0), 0 <= i0 < i <= m1.len(), marks_rise(m1), forall|q: int| i0 <= q < i ==> (#[trigger] m1[q]).index == m1[i0].index,
        i0 > 0 ==> m1[i0 - 1].index < m1[i0].index,
        n == o.take(i0) + p + o.skip(i), same_marks(o.subrange(i0, i), p), all_of(p, m1[i0].index as int), m1[i0].index < segs.len(),
        ({ let k = m1[i0].index as int; let s = segs[k].x_segment;
           forall|up: bool| #[trigger] steady(o.subrange(i0, i), k, s, up) ==> onward(p, k, up) })
    ensures grouped_to(m1, n, segs, i)
{
    lemma_grouped_at(m1, o, segs, i0, i);
    reveal(grouped_to);
    let k = m1[i0].index as int;
    let g = o.subrange(i0, i);
    lemma_bag_part(o, i0, i, p);
    assert(n.skip(i) =~= m1.skip(i));
    assert forall|q: int| #![trigger n[q]] 0 <= q < n.len() implies n[q].index == m1[q].index by {
        if q < i0 { assert(n[q] == o[q]); } else if q < i { assert(n[q] == p[q - i0]); assert(m1[q].index == k); } else { assert(n[q] == o[q]); }
    }
    assert forall|q: int| 0 <= q < i0 implies (#[trigger] m1[q]).index < k by { if q < i0 - 1 { assert(mark_lt(m1[q], m1[i0 - 1])); } }
    let t = n.take(i);
    assert forall|kk: int, up: bool| 0 <= kk < segs.len() && #[trigger] steady(m1, kk, segs[kk].x_segment, up) implies onward(t, kk, up) by {
        let ot = o.take(i0);
        if kk == k { lemma_steady_part(m1, i0, i, k, segs[k].x_segment, up); assert(onward(p, k, up)); } else { assert(onward(ot, kk, up)); }
        assert forall|a: int, b: int| 0 <= a < b < t.len() && (#[trigger] t[a]).index == kk && (#[trigger] t[b]).index == kk implies next_ok(t[a].point, t[b].point, up) by {
            assert(t[a] == n[a] && t[b] == n[b]);
            if kk == k { assert(t[a] == p[a - i0] && t[b] == p[b - i0]); }
            else { assert(m1[a].index == kk && m1[b].index == kk); assert(t[a] == ot[a] && t[b] == ot[b]); }
        }
    }
}
pub proof fn lemma_steady_part(m: Seq<LineMark>, a: int, b: int, k: int, s: XSegment, up: bool)
    requires 0 <= a <= b <= m.len(), steady(m, k, s, up)
    ensures steady(m.subrange(a, b), k, s, up)
{
    let g = m.subrange(a, b);
    assert forall|i: int| 0 <= i < g.len() && (#[trigger] g[i]).index == k implies le_to(s.a.y, g[i].point.y, up) && le_to(g[i].point.y, s.b.y, up) by { assert(g[i] == m[a + i]); }
    assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && (#[trigger] g[i]).index == k && (#[trigger] g[j]).index == k && g[i].point.x < g[j].point.x
            implies le_to(g[i].point.y, g[j].point.y, up) by { assert(g[i] == m[a + i] && g[j] == m[a + j]); }
}
pub proof fn lemma_onward_one(p: Seq<LineMark>, k: int)
    requires p.len() == 1
    ensures forall|up: bool| #[trigger] onward(p, k, up)
{}
pub proof fn lemma_start<C: Send>(m0: Seq<LineMark>, m2: Seq<LineMark>, m1: Seq<LineMark>, segs: Seq<Segment<C>>)
    requires marks_in(m0, segs), same_marks(m0, m2), m1 == thin(m2), forall|x: LineMark| m1.contains(x) <==> m2.contains(x), m0.len() > 0, m1.len() > 0
    ensures marks_in(m1, segs), forall|x: LineMark| m1.contains(x) <==> m0.contains(x), grouped_to(m1, m1, segs, 0)
{
    lemma_grouped_start(m1, segs);
    m0.to_multiset_ensures();
    m2.to_multiset_ensures();
    assert forall|x: LineMark| m1.contains(x) <==> m0.contains(x) by { lemma_bag_contains(m0, m2, x); }
    assert forall|i: int| 0 <= i < m1.len() implies (#[trigger] m1[i]).index < segs.len() by {
        assert(m1.contains(m1[i]));
        let q = choose|q: int| 0 <= q < m0.len() && m0[q] == m1[i];
        assert(m0[q].index < segs.len());
    }
}
pub proof fn lemma_grouped_end<C: Send>(m0: Seq<LineMark>, m1: Seq<LineMark>, o: Seq<LineMark>, segs: Seq<Segment<C>>)
    requires grouped_to(m1, o, segs, m1.len() as int), marks_rise(m1), marks_in(m1, segs), forall|x: LineMark| m1.contains(x) <==> m0.contains(x)
    ensures
        o.len() == m1.len(), marks_in(o, segs), forall|x: LineMark| o.contains(x) <==> m0.contains(x), o.no_duplicates(), by_index(o),
        forall|k: int, up: bool| 0 <= k < segs.len() && #[trigger] steady(o, k, segs[k].x_segment, up) ==> onward(o, k, up)
{
    reveal(grouped_to);
    assert(o.take(o.len() as int) =~= o);
    assert forall|x: LineMark| o.contains(x) <==> m0.contains(x) by {
        lemma_bag_contains(o, m1, x);
    }
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).index < segs.len() by { assert(m1[i].index < segs.len()); }
    assert forall|i: int, j: int| 0 <= i <= j < o.len() implies (#[trigger] o[i]).index <= (#[trigger] o[j]).index by { if i < j { assert(mark_lt(m1[i], m1[j])); } }
    assert(o.no_duplicates()) by {
        assert(m1.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < m1.len() implies m1[i] != m1[j] by { assert(mark_lt(m1[i], m1[j])); } }
        m1.lemma_multiset_has_no_duplicates();
        o.lemma_multiset_has_no_duplicates_conv();
    }
    assert forall|k: int, up: bool| 0 <= k < segs.len() && #[trigger] steady(o, k, segs[k].x_segment, up) implies onward(o, k, up) by {
        lemma_steady_bag(o, m1, k, segs[k].x_segment, up);
    }
}

impl SplitSolver {
//@ fn split/solver.rs SplitSolver multi_split_edge
//@ sub <<<?let mut iter = marks.iter(); let m0 = iter.next().unwrap();>>> <<<let m0 = &marks[0];>>>
//@ sub <<<?for mj in iter {>>> <<<for vx_k in 1..marks.len() { let mj = &marks[vx_k];>>>
//@ spec
        requires
            marks@.len() > 0, marks@[0].index < old(segments)@.len(), old(segments)@.len() + marks@.len() < usize::MAX,
            C::wf(old(segments)@[marks@[0].index as int].count), C::mag(old(segments)@[marks@[0].index as int].count) <= i32::MAX,
        ensures
            final(segments)@ == ({
                let k = marks@[0].index as int;
                let ch = cut(old(segments)@[k], points(marks@));
                old(segments)@.update(k, ch[0]) + ch.skip(1)
            })
//@ entry
        let ghost s0 = segments@;
        let ghost k = marks@[0].index as int;
        let ghost all = points(marks@).push(s0[k].x_segment.b);
        let ghost ch = cut(s0[k], points(marks@));
        proof { lemma_chain_len(s0[k].x_segment.a, all, s0[k].count); }
//@ loop 0 for it
            invariant
                1 <= vx_k <= marks@.len(), it.seq().len() == marks@.len() - 1, forall|n: int| 0 <= n < it.seq().len() ==> it.seq()[n] == n + 1,
                p == marks@[vx_k - 1].point, all == points(marks@).push(b), b == s0[k].x_segment.b, count == s0[k].count, ch == chain(s0[k].x_segment.a, all, count),
                C::wf(count), C::mag(count) <= i32::MAX, ch.len() == marks@.len() + 1,
                forall|i: int| 0 <= i < all.len() ==> #[trigger] ch[i] == stored(if i == 0 { s0[k].x_segment.a } else { all[i - 1] }, all[i], count),
                segments@ =~= s0.update(k, ch[0]) + ch.subrange(1, vx_k as int),
//@ exit
        proof { assert(segments@ =~= s0.update(k, ch[0]) + ch.skip(1)); }
//@ endfn
//@ fn split/solver.rs SplitSolver one_bin_merge
//@ sub <<<segments.sort_unstable_by(|$A, $B| $C);>>> <<<sort_by_x(&mut segments, |$A: &Segment<C>, $B: &Segment<C>| -> (o: Ordering) ensures o == seg_ord($A.x_segment, $B.x_segment) { $C }); let ghost s1 = segments@; proof { lemma_mergeable(s0, ms, s1); }>>>
//@ spec
        requires
            counts_ok(segments@), marks_in(old(marks)@, segments@), by_index(old(marks)@),
            smag(segments@) + mark_mag(segments@, old(marks)@) <= i32::MAX, segments@.len() + old(marks)@.len() < usize::MAX,
        ensures divided(r@, segments@, old(marks)@), final(marks)@ == old(marks)@
//@ entry
        let ghost s0 = segments@;
        let ghost ms = marks@;
        proof {
            lemma_pieces_none(s0, s0.len() as int);
            assert(ms.take(0) =~= Seq::empty());
            assert(s0.take(s0.len() as int) =~= s0);
        }
//@ loop 0
            invariant
                i <= ms.len(), marks@ == ms, counts_ok(s0), marks_in(ms, s0), by_index(ms), s0.len() + ms.len() < usize::MAX,
                same_segs(pieces(s0, ms.take(i as int), s0.len() as int), segments@), segments@.len() == s0.len() + i,
                0 < i < ms.len() ==> ms[i - 1].index != ms[i as int].index,
                forall|k: int| 0 <= k < s0.len() && (i > 0 ==> k > ms[i - 1].index) ==> #[trigger] segments@[k] == s0[k],
            decreases ms.len() - i
//@ loopbody 0
            let ghost seg0 = segments@;
//@ loop 1
                invariant i0 < i <= ms.len(), marks@ == ms, forall|n: int| i0 <= n < i ==> (#[trigger] ms[n]).index == index
                decreases ms.len() - i
//@ after_loop 1
            proof {
                let (m1, g) = (ms.take(i0 as int), ms.subrange(i0 as int, i as int));
                assert(ms[i0 as int].index < s0.len());
                assert(ms.take(i as int) =~= m1 + g);
                assert(m1.len() == i0);
                if i0 > 0 { assert(ms[i0 - 1].index <= ms[i0 as int].index); }
                assert forall|n: int| 0 <= n < m1.len() implies (#[trigger] m1[n]).index != index by { assert(ms[n].index <= ms[i0 - 1].index); }
                assert forall|n: int| 0 <= n < g.len() implies (#[trigger] g[n]).index == index by { assert(ms[i0 + n].index == index); }
                lemma_group(s0, segments@, m1, g, index as int);
                assert(!C::none(s0[index as int].count));
                let b = s0[index as int].x_segment.b;
                lemma_chain_len(s0[index as int].x_segment.a, points(g).push(b), s0[index as int].count);
            }
//@ loopend 0
            proof {
                let g = ms.subrange(i0 as int, i as int);
                let ch = cut(s0[index as int], points(g));
                assert(segments@ =~= seg0.update(index as int, ch[0]) + ch.skip(1));
                assert(ms[i - 1].index == index);
                if i0 > 0 { assert(ms[i0 - 1].index <= ms[i0 as int].index); }
            }
//@ after_loop 0
        proof { assert(ms.take(i as int) =~= ms); }
//@ exit
        proof { assert(sorted(s1) && segments@ == live(runs(s1))); }
//@ endfn
//@ fn split/solver.rs SplitSolver y_range
//@ spec
        requires j0 <= marks@.len(), j1 <= marks@.len()
        ensures
            r.0 == (if j0 == 0 { s.a.y } else { marks@[j0 - 1].point.y }),
            r.1 == (if j1 == marks@.len() { s.b.y } else { marks@[j1 as int].point.y })
//@ endfn
//@ fn split/solver.rs SplitSolver sort_sub_marks_by_y
//@ spec
        ensures final(marks)@ == (if y0 > y1 { old(marks)@.reverse() } else { old(marks)@ })
//@ endfn
//@ fn split/solver.rs SplitSolver sort_sub_marks
//@ sub <<<&mut marks[$A..$B]>>> <<<part_mut(marks, $A, $B)>>>
//@ spec
        requires
            old(marks)@.len() > 0, old(marks)@[0].index < segments@.len(), all_of(old(marks)@, old(marks)@[0].index as int), rising(old(marks)@)
        ensures
            same_marks(old(marks)@, final(marks)@), all_of(final(marks)@, old(marks)@[0].index as int),
            // in one step after another along the segment, if the marks allow it
            forall|up: bool| #[trigger] steady(old(marks)@, old(marks)@[0].index as int, segments@[old(marks)@[0].index as int].x_segment, up) ==> onward(final(marks)@, old(marks)@[0].index as int, up)
//@ entry
        let ghost s0 = marks@;
        let ghost k = marks@[0].index as int;
        let ghost seg = segments@[k].x_segment;
        proof {
            lemma_ordered_start(s0, k, seg);
        }
//@ loop 0
            invariant
                j0 < j <= s0.len(), k < segments@.len(), seg == segments@[k].x_segment, m0.index == k, all_of(s0, k), rising(s0), marks@.len() == s0.len(),
                ordered_to(s0, marks@, k, seg, j0 as int), same_x(s0, j0 as int, j as int), x0 == s0[j0 as int].point.x,
                j0 > 0 ==> s0[j0 - 1].point.x < x0,
            decreases s0.len() - j
//@ loopbody 0
            let ghost o = marks@;
            let ghost (a, b) = (j0 as int, j as int);
            proof {
                lemma_ordered_at(s0, o, k, seg, a, b);
                reveal(rising);
                assert(pt_lt(s0[b - 1].point, s0[b].point));
                assert(s0[b - 1].point.x == x0);
            }
//@ loopend 0
            proof {
                let (y0, y1) = (if a == 0 { seg.a.y } else { o[a - 1].point.y }, if b == o.len() { seg.b.y } else { o[b].point.y });
                    lemma_column(s0, o, marks@, k, seg, a, b, y0, y1);
            }
//@ after_loop 0
        let ghost o = marks@;
        let ghost (a, b) = (j0 as int, j as int);
//@ finish
        proof {
            let (y0, y1) = (if a == 0 { seg.a.y } else { o[a - 1].point.y }, seg.b.y);
            lemma_column(s0, o, marks@, k, seg, a, b, y0, y1);
            lemma_ordered_end(s0, marks@, k, seg);
        }
//@ endfn
//@ fn split/solver.rs SplitSolver sort_and_filter_marks
//@ sub <<<marks.smart_bin_sort_by(&self.solver, |$A, $B| $C);>>> <<<sort_marks(marks, &self.solver, |$A: &LineMark, $B: &LineMark| -> (o: Ordering) ensures o == mark_ord(*$A, *$B) { $C }); let ghost m2 = marks@;>>>
//@ sub <<<marks.dedup();>>> <<<dedup_marks(marks); let ghost m1 = marks@; proof { lemma_thin(m2); lemma_start(m_old, m2, m1, segments@); }>>>
//@ sub <<<&mut marks[$A..$B]>>> <<<part_of(marks, $A, $B)>>>
//@ spec
        requires old(marks)@.len() > 0, marks_in(old(marks)@, segments@)
        ensures
            final(marks)@.len() > 0, marks_in(final(marks)@, segments@),
            // the same marks, each once, by segment
            forall|m: LineMark| final(marks)@.contains(m) <==> old(marks)@.contains(m), final(marks)@.no_duplicates(), by_index(final(marks)@),
            // in one step after another along each segment, if the marks allow it
            forall|k: int, up: bool| 0 <= k < segments@.len() && #[trigger] steady(final(marks)@, k, segments@[k].x_segment, up) ==> onward(final(marks)@, k, up)
//@ entry
        let ghost m_old = marks@;
//@ loop 0
            invariant
                i0 < i <= m1.len(), marks_rise(m1), marks_in(m1, segments@), m1.len() > 0,
                grouped_to(m1, marks@, segments@, i0 as int), m0_index == m1[i0 as int].index,
                forall|n: int| i0 <= n < i ==> (#[trigger] m1[n]).index == m0_index,
                i0 > 0 ==> m1[i0 - 1].index < m0_index,
                forall|x: LineMark| m1.contains(x) <==> m_old.contains(x), marks@.len() == m1.len(),
            decreases m1.len() - i
//@ loopbody 0
            let ghost o = marks@;
            let ghost (a, b) = (i0 as int, i as int);
            proof {
                lemma_grouped_at(m1, o, segments@, a, b);
                assert(m1[a].index < segments@.len());
                assert(o[b] == m1[b]);
                assert(mark_lt(m1[b - 1], m1[b]));
                assert(m1[b - 1].index == m0_index);
            }
//@ loopend 0
            proof {
                let p = if a + 1 < b { marks@.subrange(a, b) } else { o.subrange(a, b) };
                assert(marks@ =~= o.take(a) + p + o.skip(b));
                if a + 1 == b { lemma_onward_one(p, m1[a].index as int); }
                lemma_group_step(m1, o, marks@, p, segments@, a, b);
            }
//@ after_loop 0
        let ghost o = marks@;
        let ghost (a, b) = (i0 as int, i as int);
        proof {
            lemma_grouped_at(m1, o, segments@, a, b);
            assert(m1[a].index < segments@.len());
        }
//@ finish
        proof {
            let p = if a + 1 < b { marks@.subrange(a, b) } else { o.subrange(a, b) };
            assert(marks@ =~= o.take(a) + p + o.skip(b));
            if a + 1 == b { lemma_onward_one(p, m1[a].index as int); }
            lemma_group_step(m1, o, marks@, p, segments@, a, b);
            lemma_grouped_end(m_old, m1, marks@, segments@);
        }
//@ endfn
}
}
fn main() {}
