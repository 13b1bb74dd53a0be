// ---- fill/solver.rs: what lies on both sides of every edge ----
//@ import nearest.vx
//@ include right.vx
//@ include vseg.vx
//@ include segment.vx
//@ include count.vx
verus! {
//@ item geom/end.rs struct End
//@ item segm/segment.rs const NONE
//@ item fill/solver.rs struct FillSolver

impl XSegment {
//@ fn geom/x_segment.rs XSegment is_not_vertical
//@ spec
        ensures r == (self.a.x != self.b.x)
//@ endfn
}
pub open spec fn vs<C: Send>(s: Segment<C>) -> VSegment { VSegment { a: s.x_segment.a, b: s.x_segment.b } }
// the two segment types have the same fields
#[verifier::external_body]
pub fn as_v_segment(s: XSegment) -> (r: VSegment)
    ensures r.a == s.a, r.b == s.b
{ unimplemented!() }
pub open spec fn point_order(s: VSegment, p: IntPoint) -> Ordering { if area2(s.a, p, s.b) > 0 { Ordering::Less } else if area2(s.a, p, s.b) < 0 { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn spans(s: VSegment, p: IntPoint) -> bool { in_range(s.a) && in_range(s.b) && in_range(p) && s.a.x <= p.x <= s.b.x && s.a != p && s.b != p }
impl VSegment {
//@ fn geom/v_segment.rs VSegment is_under_point_order
//@ spec
        requires spans(*self, p)
        ensures r == point_order(*self, p)
//@ endfn
}

// how an edge with its count changes the count below it into the one above it, and what is filled then
pub trait FillStrategy<C: WindingCount> {
    spec fn above(this: C, bot: C) -> C;
    spec fn fill_of(this: C, bot: C) -> SegmentFill;
    proof fn lemma_above(this: C, bot: C)
        requires C::mag(this) + C::mag(bot) <= i32::MAX, C::wf(this)
        ensures C::mag(Self::above(this, bot)) <= C::mag(this) + C::mag(bot);
    fn add_and_fill(this: C, bot: C) -> (r: (C, SegmentFill))
        requires C::mag(this) + C::mag(bot) <= i32::MAX, C::wf(this)
        ensures r.0 == Self::above(this, bot), r.1 == Self::fill_of(this, bot);
}

// ---- the ordered collection of i_tree: keys expire at their right end ----
pub struct Entry<C> { pub key: VSegment, pub val: C }
pub open spec fn live_keys<C>(items: Seq<Entry<C>>, time: i32) -> spec_fn(VSegment) -> bool { |v: VSegment| exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).key == v && v.b.x > time }
pub open spec fn ranked(live: spec_fn(VSegment) -> bool, rank: spec_fn(VSegment) -> int) -> bool {
    forall|s: VSegment, o: VSegment| live(s) && live(o) ==> (#[trigger] under(s, o) <==> rank(s) < rank(o))
}
// the live keys are stacked: a height orders them
pub open spec fn stacked(live: spec_fn(VSegment) -> bool) -> bool { exists|rank: spec_fn(VSegment) -> int| #[trigger] ranked(live, rank) }
// and the point has a height among them: it is on none
pub open spec fn cleft(live: spec_fn(VSegment) -> bool, p: IntPoint, rank: spec_fn(VSegment) -> int, m: int) -> bool {
    ranked(live, rank) && forall|s: VSegment| #[trigger] live(s) ==> spans(s, p) && area2(s.a, p, s.b) != 0 && (area2(s.a, p, s.b) > 0 <==> rank(s) < m)
}
pub open spec fn stacked_at(live: spec_fn(VSegment) -> bool, p: IntPoint) -> bool { exists|rank: spec_fn(VSegment) -> int, m: int| #[trigger] cleft(live, p, rank, m) }
pub open spec fn highest<C>(items: Seq<Entry<C>>, time: i32, p: IntPoint, i: int) -> bool {
    0 <= i < items.len() && items[i].key.b.x > time && point_order(items[i].key, p) == Ordering::Less
    && forall|s: VSegment| #[trigger] live_keys(items, time)(s) && point_order(s, p) == Ordering::Less ==> !under(items[i].key, s)
}
pub open spec fn with_key(live: spec_fn(VSegment) -> bool, key: VSegment) -> spec_fn(VSegment) -> bool { |v: VSegment| live(v) || v == key }
pub trait KeyExpCollection<C>: Sized {
    spec fn items(&self) -> Seq<Entry<C>>;
    fn insert(&mut self, key: VSegment, val: C, time: i32)
        requires stacked(with_key(live_keys(old(self).items(), time), key))
        ensures final(self).items() == old(self).items().push(Entry { key, val });
    fn first_less_or_equal_by<F: Fn(VSegment) -> Ordering>(&mut self, time: i32, default: C, f: F, Ghost(p): Ghost<IntPoint>) -> (r: C)
        requires
            stacked_at(live_keys(old(self).items(), time), p),
            forall|s: VSegment| live_keys(old(self).items(), time)(s) ==> #[trigger] f.requires((s,)),
            forall|s: VSegment, o: Ordering| #[trigger] f.ensures((s,), o) ==> o == point_order(s, p),
        ensures
            final(self).items() == old(self).items(),
            if exists|s: VSegment| #[trigger] live_keys(old(self).items(), time)(s) && point_order(s, p) == Ordering::Less { exists|i: int| #[trigger] highest(old(self).items(), time, p, i) && old(self).items()[i].val == r }
            else { r == default };
}

// ---- what lies directly below an edge, at its start ----
pub open spec fn same_start<C: Send>(segs: Seq<Segment<C>>, k: int, i: int) -> bool { segs[i].x_segment.a == segs[k].x_segment.a }
// i starts where k does, and turns less to the left
pub open spec fn lower<C: Send>(segs: Seq<Segment<C>>, k: int, i: int) -> bool { segs[i].x_segment.a == segs[k].x_segment.a && cp(way_of(vs(segs[i])), way_of(vs(segs[k]))) > 0 }
// i starts before and passes below the start of k
pub open spec fn passes<C: Send>(segs: Seq<Segment<C>>, k: int, i: int) -> bool {
    let p = segs[k].x_segment.a;
    pt_lt(segs[i].x_segment.a, p) && segs[i].x_segment.b.x > p.x && area2(segs[i].x_segment.a, p, segs[i].x_segment.b) > 0
}
// of the edges that start with k, j is the next one to its right
pub open spec fn next_lower<C: Send>(segs: Seq<Segment<C>>, k: int, j: int) -> bool {
    0 <= j < segs.len() && lower(segs, k, j) && forall|i: int| 0 <= i < segs.len() && #[trigger] lower(segs, k, i) ==> !lower(segs, i, j)
}
pub open spec fn lowest_there<C: Send>(segs: Seq<Segment<C>>, k: int) -> bool { forall|i: int| 0 <= i < segs.len() ==> !#[trigger] lower(segs, k, i) }
pub open spec fn next_passing<C: Send>(segs: Seq<Segment<C>>, k: int, j: int) -> bool {
    0 <= j < segs.len() && passes(segs, k, j) && forall|i: int| 0 <= i < segs.len() && #[trigger] passes(segs, k, i) ==> !under(vs(segs[j]), vs(segs[i]))
}
// the count below the edge is the count above what is directly below, if anything is
pub open spec fn bottom<C: WindingCount>(segs: Seq<Segment<C>>, tops: Seq<C>, k: int, bot: C) -> bool {
    (exists|j: int| #[trigger] next_lower(segs, k, j) && bot == tops[j])
    || (lowest_there(segs, k) && exists|j: int| #[trigger] next_passing(segs, k, j) && bot == tops[j])
    || (lowest_there(segs, k) && (forall|j: int| 0 <= j < segs.len() ==> !#[trigger] passes(segs, k, j)) && bot == C::made(0, 0))
}
pub open spec fn filled<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, tops: Seq<C>, fills: Seq<SegmentFill>, k: int) -> bool {
    exists|bot: C| #[trigger] bottom(segs, tops, k, bot) && tops[k] == F::above(segs[k].count, bot) && fills[k] == F::fill_of(segs[k].count, bot)
}

// ---- what the sweep needs: edges in order that meet only in their ends ----
pub open spec fn standing<C: Send>(segs: Seq<Segment<C>>, p: IntPoint) -> spec_fn(VSegment) -> bool {
    |v: VSegment| exists|k: int| 0 <= k < segs.len() && vs(#[trigger] segs[k]) == v && !pt_lt(p, v.a) && v.b.x > p.x
}
pub open spec fn before_p<C: Send>(segs: Seq<Segment<C>>, p: IntPoint) -> spec_fn(VSegment) -> bool {
    |v: VSegment| exists|k: int| 0 <= k < segs.len() && vs(#[trigger] segs[k]) == v && pt_lt(v.a, p) && v.b.x > p.x
}
pub open spec fn planar<C: WindingCount>(segs: Seq<Segment<C>>) -> bool {
    (forall|i: int| 0 <= i < segs.len() ==> seg_ok((#[trigger] segs[i]).x_segment))
    && (forall|i: int, j: int| 0 <= i < j < segs.len() ==> !pt_lt((#[trigger] segs[j]).x_segment.a, (#[trigger] segs[i]).x_segment.a))
    && (forall|i: int, j: int| 0 <= i < segs.len() && 0 <= j < segs.len() && i != j && #[trigger] same_start(segs, i, j) ==> cp(way_of(vs(segs[j])), way_of(vs(segs[i]))) != 0)
    && (forall|k: int| 0 <= k < segs.len() ==> stacked(#[trigger] standing(segs, segs[k].x_segment.a)) && stacked_at(before_p(segs, segs[k].x_segment.a), segs[k].x_segment.a))
}
pub open spec fn bounded<C: WindingCount>(segs: Seq<Segment<C>>, m: int) -> bool {
    (forall|i: int| 0 <= i < segs.len() ==> C::mag((#[trigger] segs[i]).count) <= m && C::wf(segs[i].count)) && segs.len() * m <= i32::MAX && C::mag(C::made(0, 0)) == 0 && m >= 0
}

// ---- the sweep ----
// the collection holds the edges so far, with the counts above them
pub open spec fn fed<C: WindingCount>(items: Seq<Entry<C>>, segs: Seq<Segment<C>>, tops: Seq<C>, done: spec_fn(int) -> bool) -> bool {
    (forall|i: int| 0 <= i < items.len() ==> backed(segs, tops, done, #[trigger] items[i]))
    && (forall|k: int| #[trigger] done(k) && segs[k].x_segment.a.x != segs[k].x_segment.b.x ==> held(items, vs(segs[k])))
}
pub open spec fn backed<C: WindingCount>(segs: Seq<Segment<C>>, tops: Seq<C>, done: spec_fn(int) -> bool, e: Entry<C>) -> bool { exists|k: int| #[trigger] done(k) && vs(segs[k]) == e.key && e.val == tops[k] }
pub open spec fn held<C>(items: Seq<Entry<C>>, v: VSegment) -> bool { exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).key == v }
pub open spec fn until(n: int) -> spec_fn(int) -> bool { |k: int| 0 <= k < n }
pub open spec fn and_of(n: int, buf: Seq<End>, t: int) -> spec_fn(int) -> bool { |k: int| 0 <= k < n || has_end(buf, t, k) }
pub open spec fn has_end(buf: Seq<End>, t: int, k: int) -> bool { exists|u: int| 0 <= u < t && (#[trigger] buf[u]).index == k }
// the edges that start together
pub open spec fn a_group<C: Send>(segs: Seq<Segment<C>>, st: int, en: int) -> bool {
    0 <= st < en <= segs.len() && (forall|i: int| st <= i < en ==> (#[trigger] segs[i]).x_segment.a == segs[st].x_segment.a)
    && (st > 0 ==> segs[st - 1].x_segment.a != segs[st].x_segment.a) && (en < segs.len() ==> segs[en].x_segment.a != segs[st].x_segment.a)
}
pub open spec fn ends_of<C: Send>(segs: Seq<Segment<C>>, st: int, en: int, buf: Seq<End>) -> bool {
    buf.len() == en - st && (forall|i: int| 0 <= i < buf.len() ==> st <= (#[trigger] buf[i]).index < en && buf[i].point == segs[buf[i].index as int].x_segment.b)
    && (forall|i: int, j: int| 0 <= i < j < buf.len() ==> (#[trigger] buf[i]).index != (#[trigger] buf[j]).index)
    && (forall|k: int| st <= k < en ==> #[trigger] has_end(buf, buf.len() as int, k))
}
pub open spec fn turning(p: IntPoint, buf: Seq<End>) -> bool { forall|i: int, j: int| 0 <= i < j < buf.len() ==> area2(p, (#[trigger] buf[j]).point, (#[trigger] buf[i]).point) >= 0 }
// std: a stable sort by a comparison that is a total order on the items
#[verifier::external_body]
pub fn sort_ends<F: Fn(&End, &End) -> Ordering>(v: &mut Vec<End>, compare: F, Ghost(p): Ghost<IntPoint>)
    requires
        in_range(p), forall|i: int| 0 <= i < old(v)@.len() ==> in_range((#[trigger] old(v)@[i]).point) && pt_lt(p, old(v)@[i].point),
        forall|a: &End, b: &End| in_range(a.point) && in_range(b.point) ==> #[trigger] compare.requires((a, b)),
        forall|a: &End, b: &End, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> (o == Ordering::Greater <==> area2(p, b.point, a.point) < 0) && (o == Ordering::Less <==> area2(p, b.point, a.point) > 0),
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), turning(p, final(v)@)
{ unimplemented!() }
// the given comparison is an order, as the sort expects
pub proof fn lemma_sortable(p: IntPoint, a: IntPoint, b: IntPoint, c: IntPoint)
    requires in_range(p), in_range(a), in_range(b), in_range(c), pt_lt(p, a), pt_lt(p, b), pt_lt(p, c)
    ensures area2(p, b, a) == -area2(p, a, b), area2(p, b, a) >= 0 && area2(p, c, b) >= 0 ==> area2(p, c, a) >= 0
{
    lemma_area_cp(p, b, a);
    lemma_area_cp(p, c, b);
    lemma_area_cp(p, c, a);
    lemma_area_cp(p, a, b);
    lemma_right_trans(diff(a, p), diff(b, p), diff(c, p));
}

pub proof fn lemma_ends<C: Send>(segs: Seq<Segment<C>>, st: int, en: int, o: Seq<End>, n: Seq<End>)
    requires ends_of(segs, st, en, o), o.to_multiset() == n.to_multiset()
    ensures ends_of(segs, st, en, n)
{
    o.to_multiset_ensures();
    n.to_multiset_ensures();
    assert(o.no_duplicates());
    o.lemma_multiset_has_no_duplicates();
    assert forall|x: End| n.to_multiset().contains(x) implies n.to_multiset().count(x) == 1 by { assert(o.to_multiset().contains(x)); }
    n.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < n.len() implies o.contains(#[trigger] n[i]) by {
        assert(n.contains(n[i]));
        assert(n.to_multiset().contains(n[i]));
        assert(o.contains(n[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).index != (#[trigger] n[j]).index by {
        assert(n[i] != n[j] && o.contains(n[i]) && o.contains(n[j]));
        let a = choose|a: int| 0 <= a < o.len() && #[trigger] o[a] == n[i];
        let b = choose|b: int| 0 <= b < o.len() && #[trigger] o[b] == n[j];
        assert(a != b);
        assert(a < b || b < a);
    }
    assert forall|k: int| st <= k < en implies #[trigger] has_end(n, n.len() as int, k) by {
        assert(has_end(o, o.len() as int, k));
        let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).index == k;
        assert(o.contains(o[i]));
        assert(o.to_multiset().contains(o[i]));
        assert(n.contains(o[i]));
        let j = choose|j: int| 0 <= j < n.len() && n[j] == o[i];
        assert(n[j].index == k);
    }
    assert forall|i: int| 0 <= i < n.len() implies st <= (#[trigger] n[i]).index < en && n[i].point == segs[n[i].index as int].x_segment.b by {
        assert(o.contains(n[i]));
        let j = choose|j: int| 0 <= j < o.len() && #[trigger] o[j] == n[i];
    }
}
// the edges before the group started before, those after it start later
pub proof fn lemma_group<C: WindingCount>(segs: Seq<Segment<C>>, st: int, en: int, k: int)
    requires planar(segs), a_group(segs, st, en), 0 <= k < segs.len()
    ensures
        k < st ==> pt_lt(segs[k].x_segment.a, segs[st].x_segment.a),
        k >= en ==> pt_lt(segs[st].x_segment.a, segs[k].x_segment.a),
        st <= k < en ==> segs[k].x_segment.a == segs[st].x_segment.a,
{
    if k < st {
        if k < st - 1 { assert(!pt_lt(segs[st - 1].x_segment.a, segs[k].x_segment.a)); }
        assert(!pt_lt(segs[st].x_segment.a, segs[st - 1].x_segment.a));
    }
    if k >= en {
        assert(!pt_lt(segs[en].x_segment.a, segs[st].x_segment.a));
        if k > en { assert(!pt_lt(segs[k].x_segment.a, segs[en].x_segment.a)); }
    }
}
// the live keys at the start of a group are the edges that started before and pass it
pub proof fn lemma_live<C: WindingCount>(segs: Seq<Segment<C>>, items: Seq<Entry<C>>, tops: Seq<C>, st: int, en: int)
    requires planar(segs), a_group(segs, st, en), fed(items, segs, tops, until(st))
    ensures ({ let p = segs[st].x_segment.a; stacked_at(live_keys(items, p.x), p) && forall|v: VSegment| #[trigger] live_keys(items, p.x)(v) <==> before_p(segs, p)(v) }),
        forall|v: VSegment| #[trigger] live_keys(items, segs[st].x_segment.a.x)(v) ==> spans(v, segs[st].x_segment.a),
{
    let p = segs[st].x_segment.a;
    let (al, bp) = (live_keys(items, p.x), before_p(segs, p));
    assert forall|v: VSegment| #[trigger] al(v) <==> bp(v) by {
        if al(v) {
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).key == v;
            assert(backed(segs, tops, until(st), items[i]));
            let k = choose|k: int| #[trigger] until(st)(k) && vs(segs[k]) == items[i].key && items[i].val == tops[k];
            lemma_group(segs, st, en, k);
            assert(vs(segs[k]) == v);
        }
        if bp(v) {
            let k = choose|k: int| 0 <= k < segs.len() && vs(#[trigger] segs[k]) == v && pt_lt(v.a, p) && v.b.x > p.x;
            lemma_group(segs, st, en, k);
            assert(until(st)(k));
            assert(held(items, vs(segs[k])));
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).key == vs(segs[k]);
            assert(items[i].key == v);
        }
    }
    assert(same_start(segs, st, st));
    assert(stacked(standing(segs, segs[st].x_segment.a)));
    assert(stacked_at(bp, p));
    let (rank, m) = choose|rank: spec_fn(VSegment) -> int, m: int| #[trigger] cleft(bp, p, rank, m);
    assert forall|s: VSegment, o: VSegment| al(s) && al(o) implies (#[trigger] under(s, o) <==> rank(s) < rank(o)) by { assert(bp(s) && bp(o)); }
    assert forall|s: VSegment| #[trigger] al(s) implies spans(s, p) && area2(s.a, p, s.b) != 0 && (area2(s.a, p, s.b) > 0 <==> rank(s) < m) by { assert(bp(s)); }
    assert(ranked(al, rank));
    assert(cleft(al, p, rank, m));
}
pub proof fn lemma_fed_at<C: WindingCount>(items: Seq<Entry<C>>, segs: Seq<Segment<C>>, tops: Seq<C>, done: spec_fn(int) -> bool, i: int) -> (j: int)
    requires fed(items, segs, tops, done), 0 <= i < items.len()
    ensures done(j), vs(segs[j]) == items[i].key, items[i].val == tops[j]
{
    assert(backed(segs, tops, done, items[i]));
    choose|k: int| #[trigger] done(k) && vs(segs[k]) == items[i].key && items[i].val == tops[k]
}
// the answer of the collection
pub proof fn lemma_floor<C: WindingCount>(segs: Seq<Segment<C>>, items: Seq<Entry<C>>, tops: Seq<C>, st: int, en: int, v: C, k: int)
    requires
        planar(segs), a_group(segs, st, en), fed(items, segs, tops, until(st)), st <= k < en,
        ({
            let p = segs[st].x_segment.a;
            if exists|s: VSegment| #[trigger] live_keys(items, p.x)(s) && point_order(s, p) == Ordering::Less { exists|i: int| #[trigger] highest(items, p.x, p, i) && items[i].val == v }
            else { v == C::made(0, 0) }
        }),
        lowest_there(segs, k),
    ensures bottom(segs, tops, k, v)
{
    hide(area2);
    hide(under);
    hide(stacked_at);
    hide(planar);
    hide(fed);
    hide(cp);
    lemma_live(segs, items, tops, st, en);
    lemma_group(segs, st, en, k);
    let p = segs[st].x_segment.a;
    let (al, bp) = (live_keys(items, p.x), before_p(segs, p));
    if exists|s: VSegment| #[trigger] al(s) && point_order(s, p) == Ordering::Less {
        let i = choose|i: int| #[trigger] highest(items, p.x, p, i) && items[i].val == v;
        let j = lemma_fed_at(items, segs, tops, until(st), i);
        lemma_group(segs, st, en, j);
        lemma_group(segs, st, en, k);
        assert(passes(segs, k, j));
        assert forall|u: int| 0 <= u < segs.len() && #[trigger] passes(segs, k, u) implies !under(vs(segs[j]), vs(segs[u])) by {
            assert(vs(segs[u]) == vs(segs[u]));
            assert(bp(vs(segs[u])));
            assert(al(vs(segs[u])));
        }
        assert(next_passing(segs, k, j) && v == tops[j]);
    } else {
        assert forall|u: int| 0 <= u < segs.len() implies !#[trigger] passes(segs, k, u) by {
            if passes(segs, k, u) {
                assert(vs(segs[u]) == vs(segs[u]));
                assert(bp(vs(segs[u])));
                assert(al(vs(segs[u])));
                assert(point_order(vs(segs[u]), p) == Ordering::Less);
            }
        }
    }
}
// in the sorted group, the first is the lowest and every other has the one before it directly below
pub proof fn lemma_turning<C: WindingCount>(segs: Seq<Segment<C>>, st: int, en: int, buf: Seq<End>, t: int)
    requires planar(segs), a_group(segs, st, en), ends_of(segs, st, en, buf), turning(segs[st].x_segment.a, buf), 0 <= t < buf.len()
    ensures
        t == 0 ==> lowest_there(segs, buf[t].index as int),
        t > 0 ==> next_lower(segs, buf[t].index as int, buf[t - 1].index as int),
        forall|i: int| 0 <= i < segs.len() && #[trigger] lower(segs, buf[t].index as int, i) ==> and_of(st, buf, t)(i),
{
    let p = segs[st].x_segment.a;
    let k = buf[t].index as int;
    assert(segs[k].x_segment.a == p);
    assert forall|i: int| 0 <= i < segs.len() && #[trigger] lower(segs, k, i) implies has_end(buf, t, i) by {
        lemma_group(segs, st, en, i);
        assert(has_end(buf, buf.len() as int, i));
        let u = choose|u: int| 0 <= u < buf.len() && (#[trigger] buf[u]).index == i;
        lemma_area_cp(p, buf[t].point, buf[u].point);
        lemma_area_cp(p, buf[u].point, buf[t].point);
        assert(area2(p, buf[t].point, buf[u].point) > 0);
        if u == t { assert(cp(way_of(vs(segs[k])), way_of(vs(segs[k]))) == 0) by (nonlinear_arith); }
        if u > t { assert(area2(p, buf[u].point, buf[t].point) >= 0); }
    }
    if t > 0 {
        let j = buf[t - 1].index as int;
        assert(segs[j].x_segment.a == p);
        lemma_area_cp(p, buf[t].point, buf[t - 1].point);
        assert(same_start(segs, k, j));
        lemma_flip(way_of(vs(segs[j])), way_of(vs(segs[k])));
        assert(lower(segs, k, j));
        assert forall|i: int| 0 <= i < segs.len() && #[trigger] lower(segs, k, i) implies !lower(segs, i, j) by {
            let u = choose|u: int| 0 <= u < t && (#[trigger] buf[u]).index == i;
            lemma_area_cp(p, buf[t - 1].point, buf[u].point);
            if u < t - 1 { assert(area2(p, buf[t - 1].point, buf[u].point) >= 0); }
            else { assert(cp(way_of(vs(segs[j])), way_of(vs(segs[j]))) == 0) by (nonlinear_arith); }
            lemma_flip(way_of(vs(segs[i])), way_of(vs(segs[j])));
        }
    }
}
// a new count above an edge changes nothing for those done
pub proof fn lemma_stable<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, t0: Seq<C>, t1: Seq<C>, f0: Seq<SegmentFill>, f1: Seq<SegmentFill>, k: int, q: int)
    requires filled::<F, C>(segs, t0, f0, q), q != k, t1 == t0.update(k, t1[k]), f1 == f0.update(k, f1[k]), !next_lower(segs, q, k), !next_passing(segs, q, k), 0 <= k < segs.len(), t0.len() == segs.len(), f0.len() == segs.len(), 0 <= q < segs.len()
    ensures filled::<F, C>(segs, t1, f1, q)
{
    let bot = choose|bot: C| #[trigger] bottom(segs, t0, q, bot) && t0[q] == F::above(segs[q].count, bot) && f0[q] == F::fill_of(segs[q].count, bot);
    if exists|j: int| #[trigger] next_lower(segs, q, j) && bot == t0[j] {
        let j = choose|j: int| #[trigger] next_lower(segs, q, j) && bot == t0[j];
        assert(next_lower(segs, q, j) && bot == t1[j]);
    } else if lowest_there(segs, q) && exists|j: int| #[trigger] next_passing(segs, q, j) && bot == t0[j] {
        let j = choose|j: int| #[trigger] next_passing(segs, q, j) && bot == t0[j];
        assert(next_passing(segs, q, j) && bot == t1[j]);
    }
    assert(bottom(segs, t1, q, bot));
}
// one more edge is filled
pub proof fn lemma_filled<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, t0: Seq<C>, t1: Seq<C>, f0: Seq<SegmentFill>, f1: Seq<SegmentFill>, st: int, en: int, buf: Seq<End>, t: int, bot: C)
    requires
        planar(segs), a_group(segs, st, en), ends_of(segs, st, en, buf), turning(segs[st].x_segment.a, buf), 0 <= t < buf.len(),
        t0.len() == segs.len(), f0.len() == segs.len(),
        forall|q: int| #[trigger] and_of(st, buf, t)(q) ==> filled::<F, C>(segs, t0, f0, q),
        ({ let k = buf[t].index as int; bottom(segs, t0, k, bot) && t1 == t0.update(k, F::above(segs[k].count, bot)) && f1 == f0.update(k, F::fill_of(segs[k].count, bot)) }),
    ensures
        forall|q: int| #[trigger] and_of(st, buf, t + 1)(q) ==> filled::<F, C>(segs, t1, f1, q),
{
    let k = buf[t].index as int;
    assert(st <= k < en);
    lemma_group(segs, st, en, k);
    assert forall|q: int| #[trigger] and_of(st, buf, t + 1)(q) implies filled::<F, C>(segs, t1, f1, q) by {
        if q == k {
            assert(!passes(segs, k, k) && !lower(segs, k, k)) by { assert(cp(way_of(vs(segs[k])), way_of(vs(segs[k]))) == 0) by (nonlinear_arith); }
            if exists|j: int| #[trigger] next_lower(segs, k, j) && bot == t0[j] {
                let j = choose|j: int| #[trigger] next_lower(segs, k, j) && bot == t0[j];
                assert(next_lower(segs, k, j) && bot == t1[j]);
            } else if lowest_there(segs, k) && exists|j: int| #[trigger] next_passing(segs, k, j) && bot == t0[j] {
                let j = choose|j: int| #[trigger] next_passing(segs, k, j) && bot == t0[j];
                assert(next_passing(segs, k, j) && bot == t1[j]);
            }
            assert(bottom(segs, t1, k, bot));
        } else {
            assert(and_of(st, buf, t)(q)) by { if !(0 <= q < st) { let u = choose|u: int| 0 <= u < t + 1 && (#[trigger] buf[u]).index == q; assert(u != t); } }
            if 0 <= q < st {
                lemma_group(segs, st, en, q);
            } else {
                let u = choose|u: int| 0 <= u < t && (#[trigger] buf[u]).index == q;
                lemma_group(segs, st, en, q);
                lemma_turning(segs, st, en, buf, u);
                if lower(segs, q, k) {
                    assert(and_of(st, buf, u)(k));
                    let w = choose|w: int| 0 <= w < u && (#[trigger] buf[w]).index == k;
                    assert(buf[w].index != buf[t].index);
                }
            }
            assert(!passes(segs, q, k) && !lower(segs, q, k));
            lemma_stable::<F, C>(segs, t0, t1, f0, f1, k, q);
        }
    }
}
// the collection takes in the new edge
pub proof fn lemma_fed<C: WindingCount>(o: Seq<Entry<C>>, n: Seq<Entry<C>>, segs: Seq<Segment<C>>, t0: Seq<C>, t1: Seq<C>, st: int, en: int, buf: Seq<End>, t: int)
    requires
        ends_of(segs, st, en, buf), 0 <= st, 0 <= t < buf.len(), en <= segs.len(), t0.len() == segs.len(), fed(o, segs, t0, and_of(st, buf, t)),
        t1 == t0.update(buf[t].index as int, t1[buf[t].index as int]),
        ({ let k = buf[t].index as int; n == (if segs[k].x_segment.a.x != segs[k].x_segment.b.x { o.push(Entry { key: vs(segs[k]), val: t1[k] }) } else { o }) }),
    ensures fed(n, segs, t1, and_of(st, buf, t + 1))
{
    let k = buf[t].index as int;
    let (d0, d1) = (and_of(st, buf, t), and_of(st, buf, t + 1));
    assert(d1(k)) by { assert(buf[t].index == k); }
    assert forall|i: int| 0 <= i < n.len() implies backed(segs, t1, d1, #[trigger] n[i]) by {
        if i < o.len() {
            assert(backed(segs, t0, d0, o[i]));
            let q = choose|q: int| #[trigger] d0(q) && vs(segs[q]) == o[i].key && o[i].val == t0[q];
            assert(d1(q)) by { if !(0 <= q < st) { let u = choose|u: int| 0 <= u < t && (#[trigger] buf[u]).index == q; } }
            assert(q != k) by { if !(0 <= q < st) { let u = choose|u: int| 0 <= u < t && (#[trigger] buf[u]).index == q; assert(buf[u].index != buf[t].index); } }
            assert(n[i] == o[i]);
        } else { assert(d1(k) && n[i].key == vs(segs[k])); }
    }
    assert forall|q: int| #[trigger] d1(q) && segs[q].x_segment.a.x != segs[q].x_segment.b.x implies held(n, vs(segs[q])) by {
        if q == k { assert(n[o.len() as int].key == vs(segs[q])); }
        else {
            assert(d0(q)) by { if !(0 <= q < st) { let u = choose|u: int| 0 <= u < t + 1 && (#[trigger] buf[u]).index == q; assert(u != t); } }
            assert(held(o, vs(segs[q])));
            let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).key == vs(segs[q]);
            assert(n[i] == o[i]);
        }
    }
}
// the keys are stacked when the next edge of the group comes in
pub proof fn lemma_insertable<C: WindingCount>(items: Seq<Entry<C>>, segs: Seq<Segment<C>>, tops: Seq<C>, st: int, en: int, buf: Seq<End>, t: int)
    requires
        planar(segs), a_group(segs, st, en), ends_of(segs, st, en, buf), 0 <= t < buf.len(), fed(items, segs, tops, and_of(st, buf, t)),
        ({ let k = buf[t].index as int; segs[k].x_segment.a.x != segs[k].x_segment.b.x }),
    ensures stacked(with_key(live_keys(items, segs[st].x_segment.a.x), vs(segs[buf[t].index as int])))
{
    let p = segs[st].x_segment.a;
    let k = buf[t].index as int;
    let (al, sd) = (with_key(live_keys(items, p.x), vs(segs[k])), standing(segs, p));
    assert forall|v: VSegment| #[trigger] al(v) implies sd(v) by {
        let q = if v == vs(segs[k]) { k } else {
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).key == v;
            assert(backed(segs, tops, and_of(st, buf, t), items[i]));
            let q = choose|q: int| #[trigger] and_of(st, buf, t)(q) && vs(segs[q]) == items[i].key && items[i].val == tops[q];
            assert(0 <= q < segs.len()) by { if !(0 <= q < st) { let u = choose|u: int| 0 <= u < t && (#[trigger] buf[u]).index == q; } }
            assert(q < en) by { if !(0 <= q < st) { let u = choose|u: int| 0 <= u < t && (#[trigger] buf[u]).index == q; } }
            q
        };
        lemma_group(segs, st, en, q);
        assert(vs(segs[q]) == v);
        assert(seg_ok(segs[q].x_segment));
    }
    assert(stacked(standing(segs, segs[st].x_segment.a)));
    let rank = choose|rank: spec_fn(VSegment) -> int| #[trigger] ranked(sd, rank);
    assert forall|s: VSegment, o: VSegment| al(s) && al(o) implies (#[trigger] under(s, o) <==> rank(s) < rank(o)) by { assert(sd(s) && sd(o)); }
    assert(ranked(al, rank));
}
// the last edge of the group: all up to its end are done
pub proof fn lemma_until<C: WindingCount>(segs: Seq<Segment<C>>, st: int, en: int, buf: Seq<End>)
    requires ends_of(segs, st, en, buf), 0 <= st <= en
    ensures forall|k: int| #[trigger] until(en)(k) <==> and_of(st, buf, buf.len() as int)(k), forall|k: int| #[trigger] and_of(st, buf, 0)(k) <==> until(st)(k)
{
    assert forall|k: int| #[trigger] until(en)(k) implies and_of(st, buf, buf.len() as int)(k) by {
        if k >= st { let i = choose|i: int| 0 <= i < buf.len() && (#[trigger] buf[i]).index == k; }
    }
    assert forall|k: int| #[trigger] and_of(st, buf, buf.len() as int)(k) implies until(en)(k) by {
        if !(0 <= k < st) { let u = choose|u: int| 0 <= u < buf.len() && (#[trigger] buf[u]).index == k; }
    }
}
pub proof fn lemma_fed_same<C: WindingCount>(items: Seq<Entry<C>>, segs: Seq<Segment<C>>, tops: Seq<C>, d0: spec_fn(int) -> bool, d1: spec_fn(int) -> bool)
    requires fed(items, segs, tops, d0), forall|k: int| #[trigger] d1(k) <==> d0(k)
    ensures fed(items, segs, tops, d1)
{
    assert forall|i: int| 0 <= i < items.len() implies backed(segs, tops, d1, #[trigger] items[i]) by {
        assert(backed(segs, tops, d0, items[i]));
        let k = choose|k: int| #[trigger] d0(k) && vs(segs[k]) == items[i].key && items[i].val == tops[k];
        assert(d1(k));
    }
    assert forall|k: int| #[trigger] d1(k) && segs[k].x_segment.a.x != segs[k].x_segment.b.x implies held(items, vs(segs[k])) by { assert(d0(k)); }
}

pub proof fn lemma_one_end<C: Send>(segs: Seq<Segment<C>>, st: int, en: int, o: Seq<End>, n: Seq<End>)
    requires 0 <= st < en <= segs.len(), segs.len() <= usize::MAX, ends_of(segs, st, en - 1, o), n == o.push(End { index: (en - 1) as usize, point: segs[en - 1].x_segment.b })
    ensures ends_of(segs, st, en, n)
{
    assert forall|i: int| 0 <= i < n.len() implies st <= (#[trigger] n[i]).index < en && n[i].point == segs[n[i].index as int].x_segment.b by { if i < o.len() { assert(n[i] == o[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).index != (#[trigger] n[j]).index by { assert(n[i] == o[i]); if j < o.len() { assert(n[j] == o[j]); } }
    assert forall|k: int| st <= k < en implies #[trigger] has_end(n, n.len() as int, k) by {
        if k < en - 1 {
            assert(has_end(o, o.len() as int, k));
            let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).index == k;
            assert(n[i].index == k);
        } else { assert(n[o.len() as int].index == k); }
    }
}
pub proof fn lemma_no_end<C: Send>(segs: Seq<Segment<C>>, st: int)
    ensures ends_of(segs, st, st, Seq::empty())
{ }
pub open spec fn room(n: int, m: int) -> int { n * m }
pub proof fn lemma_at<C: Send>(segs: Seq<Segment<C>>, st: int, en: int, buf: Seq<End>, t: int)
    requires ends_of(segs, st, en, buf), 0 <= t < buf.len()
    ensures st <= buf[t].index < en, st + buf.len() == en
{ }
// the ends can be sorted
pub proof fn lemma_sound<C: WindingCount>(segs: Seq<Segment<C>>, st: int, en: int, buf: Seq<End>)
    requires planar(segs), a_group(segs, st, en), ends_of(segs, st, en, buf)
    ensures in_range(segs[st].x_segment.a), forall|i: int| 0 <= i < buf.len() ==> in_range((#[trigger] buf[i]).point) && pt_lt(segs[st].x_segment.a, buf[i].point)
{
    assert(seg_ok(segs[st].x_segment));
    assert forall|i: int| 0 <= i < buf.len() implies in_range((#[trigger] buf[i]).point) && pt_lt(segs[st].x_segment.a, buf[i].point) by {
        assert(seg_ok(segs[buf[i].index as int].x_segment));
        assert(segs[buf[i].index as int].x_segment.a == segs[st].x_segment.a);
    }
}
pub proof fn lemma_small<C: WindingCount>(segs: Seq<Segment<C>>, p: IntPoint, b1: Seq<End>, buf: Seq<End>)
    requires b1.len() <= 1, buf == b1
    ensures turning(p, buf), b1.to_multiset() == buf.to_multiset()
{ }
pub proof fn lemma_room<C: WindingCount>(segs: Seq<Segment<C>>, m: int, st: int, t: int, en: int, k: int, s: C)
    requires bounded(segs, m), 0 <= st, 0 <= t, st + t < en <= segs.len(), 0 <= k < segs.len(), C::mag(s) <= room(st + t, m)
    ensures C::mag(segs[k].count) + C::mag(s) <= room(st + t + 1, m), room(st + t + 1, m) <= i32::MAX, room(st + t, m) <= room(st + t + 1, m)
{
    assert((st + t + 1) * m == (st + t) * m + m) by (nonlinear_arith);
    assert((st + t + 1) * m <= segs.len() * m) by (nonlinear_arith) requires st + t + 1 <= segs.len(), m >= 0;
}
pub proof fn lemma_mags<C: WindingCount>(segs: Seq<Segment<C>>, m: int, t0: Seq<C>, t1: Seq<C>, st: int, en: int, buf: Seq<End>, t: int)
    requires
        bounded(segs, m), 0 <= st, 0 <= t < buf.len(), ends_of(segs, st, en, buf), en <= segs.len(), t0.len() == segs.len(),
        forall|k: int| #[trigger] and_of(st, buf, t)(k) ==> C::mag(t0[k]) <= room(st + t, m),
        t1 == t0.update(buf[t].index as int, t1[buf[t].index as int]), C::mag(t1[buf[t].index as int]) <= room(st + t + 1, m),
    ensures forall|k: int| #[trigger] and_of(st, buf, t + 1)(k) ==> C::mag(t1[k]) <= room(st + t + 1, m)
{
    assert((st + t + 1) * m == (st + t) * m + m) by (nonlinear_arith);
    assert forall|q: int| #[trigger] and_of(st, buf, t + 1)(q) implies C::mag(t1[q]) <= room(st + t + 1, m) by {
        if q != buf[t].index {
            assert(and_of(st, buf, t)(q)) by { if !(0 <= q < st) { let u = choose|u: int| 0 <= u < t + 1 && (#[trigger] buf[u]).index == q; assert(u != t); } }
        }
    }
}
pub proof fn lemma_on_top<C: WindingCount>(segs: Seq<Segment<C>>, tops: Seq<C>, k: int, j: int)
    requires next_lower(segs, k, j)
    ensures bottom(segs, tops, k, tops[j])
{ }

pub open spec fn answered<C: WindingCount>(items: Seq<Entry<C>>, p: IntPoint, v: C) -> bool {
    if exists|s: VSegment| #[trigger] live_keys(items, p.x)(s) && point_order(s, p) == Ordering::Less { exists|i: int| #[trigger] highest(items, p.x, p, i) && items[i].val == v }
    else { v == C::made(0, 0) }
}
// the first n edges are done
pub open spec fn done_until<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, items: Seq<Entry<C>>, tops: Seq<C>, fills: Seq<SegmentFill>, m: int, n: int) -> bool {
    0 <= n <= segs.len() && tops.len() == segs.len() && fills.len() == segs.len() && planar(segs) && bounded(segs, m)
    && fed(items, segs, tops, until(n))
    && (forall|k: int| #[trigger] until(n)(k) ==> filled::<F, C>(segs, tops, fills, k) && C::mag(tops[k]) <= room(n, m))
}
// and of the group that starts there the first t; s is the count above them
pub open spec fn done_part<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, items: Seq<Entry<C>>, tops: Seq<C>, fills: Seq<SegmentFill>, m: int, st: int, en: int, buf: Seq<End>, t: int, s: C) -> bool {
    0 <= st < en <= segs.len() && 0 <= t <= buf.len() && tops.len() == segs.len() && fills.len() == segs.len() && planar(segs) && bounded(segs, m)
    && a_group(segs, st, en) && ends_of(segs, st, en, buf) && turning(segs[st].x_segment.a, buf)
    && fed(items, segs, tops, and_of(st, buf, t))
    && (forall|k: int| #[trigger] and_of(st, buf, t)(k) ==> filled::<F, C>(segs, tops, fills, k) && C::mag(tops[k]) <= room(st + t, m))
    && C::mag(s) <= room(st + t, m)
    && (t < buf.len() ==> bottom(segs, tops, buf[t].index as int, s))
}
pub proof fn lemma_zero<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, tops: Seq<C>, fills: Seq<SegmentFill>, m: int)
    requires planar(segs), bounded(segs, m), tops.len() == segs.len(), fills.len() == segs.len()
    ensures done_until::<F, C>(segs, Seq::empty(), tops, fills, m, 0)
{ }
pub proof fn lemma_all<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, items: Seq<Entry<C>>, tops: Seq<C>, fills: Seq<SegmentFill>, m: int)
    requires done_until::<F, C>(segs, items, tops, fills, m, segs.len() as int)
    ensures all_filled::<F, C>(segs, tops, fills)
{
    assert forall|k: int| 0 <= k < segs.len() implies #[trigger] filled::<F, C>(segs, tops, fills, k) by { assert(until(segs.len() as int)(k)); }
}
pub proof fn lemma_usable<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, items: Seq<Entry<C>>, tops: Seq<C>, fills: Seq<SegmentFill>, m: int, st: int, en: int, buf: Seq<End>)
    requires done_until::<F, C>(segs, items, tops, fills, m, st), a_group(segs, st, en), ends_of(segs, st, en, buf)
    ensures
        ({ let p = segs[st].x_segment.a; stacked_at(live_keys(items, p.x), p) && in_range(p)
            && (forall|v: VSegment| #[trigger] live_keys(items, p.x)(v) ==> spans(v, p))
            && (forall|i: int| 0 <= i < buf.len() ==> in_range((#[trigger] buf[i]).point) && pt_lt(p, buf[i].point)) }),
{
    lemma_sound(segs, st, en, buf);
    lemma_live(segs, items, tops, st, en);
}
// the next group
pub proof fn lemma_begin<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, items: Seq<Entry<C>>, tops: Seq<C>, fills: Seq<SegmentFill>, m: int, st: int, en: int, buf: Seq<End>, s: C)
    requires done_until::<F, C>(segs, items, tops, fills, m, st), a_group(segs, st, en), ends_of(segs, st, en, buf), turning(segs[st].x_segment.a, buf), answered(items, segs[st].x_segment.a, s)
    ensures done_part::<F, C>(segs, items, tops, fills, m, st, en, buf, 0, s)
{
    hide(filled);
    hide(planar);
    hide(turning);
    hide(highest);
    lemma_turning(segs, st, en, buf, 0);
    lemma_floor(segs, items, tops, st, en, s, buf[0].index as int);
    lemma_until(segs, st, en, buf);
    lemma_fed_same(items, segs, tops, until(st), and_of(st, buf, 0));
    let p = segs[st].x_segment.a;
    assert(room(st, m) >= 0) by (nonlinear_arith) requires st >= 0, m >= 0;
    if exists|s: VSegment| #[trigger] live_keys(items, p.x)(s) && point_order(s, p) == Ordering::Less {
        let i = choose|i: int| #[trigger] highest(items, p.x, p, i) && items[i].val == s;
        assert(0 <= i < items.len()) by { reveal(highest); }
        let j = lemma_fed_at(items, segs, tops, until(st), i);
    }
}
// the next edge of the group can be taken in
pub proof fn lemma_ready<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, items: Seq<Entry<C>>, tops: Seq<C>, fills: Seq<SegmentFill>, m: int, st: int, en: int, buf: Seq<End>, t: int, s: C)
    requires done_part::<F, C>(segs, items, tops, fills, m, st, en, buf, t, s), t < buf.len()
    ensures
        st <= buf[t].index < en, C::mag(segs[buf[t].index as int].count) + C::mag(s) <= i32::MAX, C::wf(segs[buf[t].index as int].count),
        ({ let k = buf[t].index as int; segs[k].x_segment.a.x != segs[k].x_segment.b.x ==> stacked(with_key(live_keys(items, segs[st].x_segment.a.x), vs(segs[k]))) }),
{
    let k = buf[t].index as int;
    lemma_room(segs, m, st, t, en, k, s);
    if segs[k].x_segment.a.x != segs[k].x_segment.b.x { lemma_insertable(items, segs, tops, st, en, buf, t); }
}
pub proof fn lemma_next<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, i0: Seq<Entry<C>>, i1: Seq<Entry<C>>, t0: Seq<C>, t1: Seq<C>, f0: Seq<SegmentFill>, f1: Seq<SegmentFill>, m: int, st: int, en: int, buf: Seq<End>, t: int, s0: C, s1: C)
    requires
        done_part::<F, C>(segs, i0, t0, f0, m, st, en, buf, t, s0), t < buf.len(),
        ({
            let k = buf[t].index as int;
            s1 == F::above(segs[k].count, s0) && t1 == t0.update(k, s1) && f1 == f0.update(k, F::fill_of(segs[k].count, s0))
            && i1 == (if segs[k].x_segment.a.x != segs[k].x_segment.b.x { i0.push(Entry { key: vs(segs[k]), val: s1 }) } else { i0 })
        }),
    ensures done_part::<F, C>(segs, i1, t1, f1, m, st, en, buf, t + 1, s1)
{
    hide(filled);
    hide(planar);
    hide(turning);
    hide(bottom);
    hide(fed);
    let k = buf[t].index as int;
    lemma_room(segs, m, st, t, en, k, s0);
    F::lemma_above(segs[k].count, s0);
    lemma_filled::<F, C>(segs, t0, t1, f0, f1, st, en, buf, t, s0);
    lemma_fed(i0, i1, segs, t0, t1, st, en, buf, t);
    lemma_mags(segs, m, t0, t1, st, en, buf, t);
    if t + 1 < buf.len() {
        lemma_turning(segs, st, en, buf, t + 1);
        lemma_on_top(segs, t1, buf[t + 1].index as int, k);
    }
}
pub proof fn lemma_finish<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, items: Seq<Entry<C>>, tops: Seq<C>, fills: Seq<SegmentFill>, m: int, st: int, en: int, buf: Seq<End>, s: C)
    requires done_part::<F, C>(segs, items, tops, fills, m, st, en, buf, buf.len() as int, s)
    ensures done_until::<F, C>(segs, items, tops, fills, m, en)
{
    hide(filled);
    hide(planar);
    lemma_until(segs, st, en, buf);
    lemma_fed_same(items, segs, tops, and_of(st, buf, buf.len() as int), until(en));
}

pub open spec fn together<C: Send>(segs: Seq<Segment<C>>, st: int, en: int) -> bool { forall|i: int| st <= i < en ==> (#[trigger] segs[i]).x_segment.a == segs[st].x_segment.a }
pub proof fn lemma_together<C: Send>(segs: Seq<Segment<C>>, st: int, i: int)
    requires 0 <= st <= i < segs.len(), st < i ==> together(segs, st, i) && segs[i].x_segment.a == segs[st].x_segment.a
    ensures together(segs, st, i + 1)
{ }
pub proof fn lemma_a_group<C: Send>(segs: Seq<Segment<C>>, st: int, en: int)
    requires 0 <= st < en <= segs.len(), together(segs, st, en), st > 0 ==> segs[st - 1].x_segment.a != segs[st].x_segment.a, en < segs.len() ==> segs[en].x_segment.a != segs[st].x_segment.a
    ensures a_group(segs, st, en), en < segs.len() ==> segs[en - 1].x_segment.a != segs[en].x_segment.a
{ assert(segs[en - 1].x_segment.a == segs[st].x_segment.a); }

impl FillSolver {
//@ fn fill/solver.rs FillSolver solve
//@ index_loops
//@ sub <<<S: KeyExpCollection<VSegment, i32, C>>>> <<<S: KeyExpCollection<C>>>>
//@ sub <<<Vec::with_capacity(4)>>> <<<Vec::<End>::with_capacity(4)>>>
//@ sub <<<buf.sort_by(|$A, $B| $C)>>> <<<sort_ends(&mut buf, |$A: &End, $B: &End| -> (o: Ordering) requires in_range(p), in_range($A.point), in_range($B.point) ensures (o == Ordering::Greater <==> area2(p, $B.point, $A.point) < 0) && (o == Ordering::Less <==> area2(p, $B.point, $A.point) > 0) { $C }, Ghost(p))>>>
//@ sub <<<scan_list.first_less_or_equal_by(p.x, $D, |$S| $B)>>> <<<scan_list.first_less_or_equal_by(p.x, $D, |$S: VSegment| -> (o: Ordering) requires spans($S, p) ensures o == point_order($S, p) { $B }, Ghost(p))>>>
//@ sub <<<sid.x_segment.into()>>> <<<as_v_segment(sid.x_segment)>>>
//@ sub <<<(sum_count, fill) = $X;>>> <<<let both = $X; sum_count = both.0; fill = both.1;>>>
//@ spec
        requires
            scan_list.items().len() == 0, planar(segments@), exists|m: int| #[trigger] bounded(segments@, m),
        ensures
            r@.len() == segments@.len(),
            exists|tops: Seq<C>| tops.len() == segments@.len() && #[trigger] all_filled::<F, C>(segments@, tops, r@),
//@ entry
        hide(under);
        hide(stacked);
        hide(stacked_at);
        hide(planar);
        hide(bounded);
        hide(ends_of);
        hide(turning);
        hide(together);
        hide(a_group);
        hide(highest);
        hide(and_of);
        hide(until);
        hide(live_keys);
        hide(with_key);
        hide(answered);
        hide(done_until);
        hide(done_part);
        hide(all_filled);
        let ghost m = choose|m: int| #[trigger] bounded(segments@, m);
        let ghost mut tops: Seq<C> = Seq::new(segments@.len(), |i: int| C::made(0, 0));
//@ before_loop 0
        proof { assert(scan_list.items() =~= Seq::empty()); lemma_zero::<F, C>(segments@, tops, result@, m); }
//@ loop 0
            invariant
                n == segments@.len(), buf@.len() == 0, i <= n, result@.len() == n, tops.len() == n,
                done_until::<F, C>(segments@, scan_list.items(), tops, result@, m, i as int),
                0 < i < n ==> segments@[i - 1].x_segment.a != segments@[i as int].x_segment.a,
            decreases n - i
//@ loopbody 0
            let ghost st = i as int;
//@ before_loop 1
            proof {
                lemma_no_end(segments@, st);
                assert(together(segments@, st, st)) by { reveal(together); }
                if i > st {
                    lemma_together(segments@, st, st);
                    assert(buf@ =~= Seq::empty().push(End { index: st as usize, point: segments@[st].x_segment.b }));
                    lemma_one_end(segments@, st, i as int, Seq::empty(), buf@);
                } else { assert(buf@ =~= Seq::empty()); }
            }
//@ loop 1
                invariant
                    n == segments@.len(), 0 <= st <= i <= n, st < n, p == segments@[st].x_segment.a,
                    ends_of(segments@, st, i as int, buf@), together(segments@, st, i as int),
                ensures
                    n == segments@.len(), 0 <= st < i <= n, ends_of(segments@, st, i as int, buf@), together(segments@, st, i as int), i < n ==> segments@[i as int].x_segment.a != p,
                decreases n - i
//@ loopbody 1
                let ghost b0 = buf@;
//@ loopend 1
                proof { lemma_together(segments@, st, i as int - 1); lemma_one_end(segments@, st, i as int, b0, buf@); }
//@ after_loop 1
            let ghost en = i as int;
            let ghost b1 = buf@;
            proof {
                lemma_a_group(segments@, st, en);
                lemma_usable::<F, C>(segments@, scan_list.items(), tops, result@, m, st, en, b1);
            }
//@ after sum_count
            proof {
                if b1.len() <= 1 { lemma_small(segments@, p, b1, buf@); }
                lemma_ends(segments@, st, en, b1, buf@);
                reveal(answered);
                lemma_begin::<F, C>(segments@, scan_list.items(), tops, result@, m, st, en, buf@, sum_count);
            }
//@ loop 2
                invariant
                    n == segments@.len(), result@.len() == n, tops.len() == n, 0 <= st < en <= n, i == en, p == segments@[st].x_segment.a,
                    done_part::<F, C>(segments@, scan_list.items(), tops, result@, m, st, en, buf@, it2 as int, sum_count),
//@ loopbody 2
                let ghost (t0, f0, i0, s0, t) = (tops, result@, scan_list.items(), sum_count, it2 as int);
                let ghost k = buf@[t].index as int;
                proof { lemma_ready::<F, C>(segments@, i0, tops, result@, m, st, en, buf@, t, s0); }
//@ after both
                proof { tops = tops.update(k, both.0); }
//@ loopend 2
                proof { lemma_next::<F, C>(segments@, i0, scan_list.items(), t0, tops, f0, result@, m, st, en, buf@, t, s0, sum_count); }
//@ after_loop 2
            proof { lemma_finish::<F, C>(segments@, scan_list.items(), tops, result@, m, st, en, buf@, sum_count); }
//@ after_loop 0
        proof { lemma_all::<F, C>(segments@, scan_list.items(), tops, result@, m); }
//@ endfn
}
pub open spec fn all_filled<F: FillStrategy<C>, C: WindingCount>(segs: Seq<Segment<C>>, tops: Seq<C>, fills: Seq<SegmentFill>) -> bool {
    forall|k: int| 0 <= k < segs.len() ==> #[trigger] filled::<F, C>(segs, tops, fills, k)
}

// ---- the fill rules: which counts are inside ----
pub open spec fn bits(t: bool, b: bool, ct: bool, cb: bool) -> SegmentFill { ((if t { 1int } else { 0 }) + (if b { 2int } else { 0 }) + (if ct { 4int } else { 0 }) + (if cb { 8int } else { 0 })) as u8 }
pub open spec fn plus(this: ShapeCountBoolean, bot: ShapeCountBoolean) -> ShapeCountBoolean { ShapeCountBoolean { subj: (bot.subj + this.subj) as i32, clip: (bot.clip + this.clip) as i32 } }
pub open spec fn plus_string(this: ShapeCountString, bot: ShapeCountString) -> ShapeCountString { ShapeCountString { subj: (bot.subj + this.subj) as i32, clip: 0 } }
pub open spec fn bit(x: u8, k: int) -> bool { if k == 0 { x % 2 == 1 } else if k == 1 { x / 2 % 2 == 1 } else if k == 2 { x / 4 % 2 == 1 } else { x / 8 % 2 == 1 } }
// joining bits, in any order
pub proof fn lemma_or()
    ensures
        forall|x: u8, y: u8| #![trigger x | y] x < 16 && y < 16 ==> (x | y) < 16 && (bit(x | y, 0) <==> bit(x, 0) || bit(y, 0)) && (bit(x | y, 1) <==> bit(x, 1) || bit(y, 1)) && (bit(x | y, 2) <==> bit(x, 2) || bit(y, 2)) && (bit(x | y, 3) <==> bit(x, 3) || bit(y, 3)),
        forall|x: u8| x <= 7 ==> #[trigger] (x << 1) == 2 * x,
        forall|x: u8| x <= 3 ==> #[trigger] (x << 2) == 4 * x,
        forall|x: u8| x <= 1 ==> #[trigger] (x << 3) == 8 * x,
{
    assert forall|x: u8, y: u8| #![trigger x | y] x < 16 && y < 16 implies (x | y) < 16 && (bit(x | y, 0) <==> bit(x, 0) || bit(y, 0)) && (bit(x | y, 1) <==> bit(x, 1) || bit(y, 1)) && (bit(x | y, 2) <==> bit(x, 2) || bit(y, 2)) && (bit(x | y, 3) <==> bit(x, 3) || bit(y, 3)) by {
        assert((x | y) < 16) by (bit_vector) requires x < 16, y < 16;
        assert((x | y) % 2 == 1 <==> x % 2 == 1 || y % 2 == 1) by (bit_vector);
        assert((x | y) / 2 % 2 == 1 <==> x / 2 % 2 == 1 || y / 2 % 2 == 1) by (bit_vector);
        assert((x | y) / 4 % 2 == 1 <==> x / 4 % 2 == 1 || y / 4 % 2 == 1) by (bit_vector);
        assert((x | y) / 8 % 2 == 1 <==> x / 8 % 2 == 1 || y / 8 % 2 == 1) by (bit_vector);
    }
    assert forall|x: u8| x <= 7 implies #[trigger] (x << 1) == 2 * x by { assert(x << 1 == 2 * x) by (bit_vector) requires x <= 7; }
    assert forall|x: u8| x <= 3 implies #[trigger] (x << 2) == 4 * x by { assert(x << 2 == 4 * x) by (bit_vector) requires x <= 3; }
    assert forall|x: u8| x <= 1 implies #[trigger] (x << 3) == 8 * x by { assert(x << 3 == 8 * x) by (bit_vector) requires x <= 1; }
}
pub proof fn lemma_odd(x: i32)
    ensures 1u8 & (x as u8) == (if x % 2 != 0 { 1u8 } else { 0 })
{
    assert(1u8 & (x as u8) == (if x & 1 == 1 { 1u8 } else { 0u8 })) by (bit_vector);
    assert(x & 1 == 1 <==> x % 2 != 0) by (bit_vector);
}
pub open spec fn in_evenodd(x: i32) -> bool { x % 2 != 0 }
pub open spec fn in_nonzero(x: i32) -> bool { x != 0 }
pub open spec fn in_positive(x: i32) -> bool { x > 0 }
pub open spec fn in_negative(x: i32) -> bool { x < 0 }
pub struct EvenOddStrategy;
impl FillStrategy<ShapeCountBoolean> for EvenOddStrategy {
    open spec fn above(this: ShapeCountBoolean, bot: ShapeCountBoolean) -> ShapeCountBoolean { plus(this, bot) }
    open spec fn fill_of(this: ShapeCountBoolean, bot: ShapeCountBoolean) -> SegmentFill { bits(in_evenodd(plus(this, bot).subj), in_evenodd(bot.subj), in_evenodd(plus(this, bot).clip), in_evenodd(bot.clip)) }
    proof fn lemma_above(this: ShapeCountBoolean, bot: ShapeCountBoolean) { }
//@ fn core/link.rs FillStrategy<ShapeCountBoolean> for EvenOddStrategy add_and_fill
//@ nopub
//@ entry
        proof {
            lemma_odd(bot.subj); lemma_odd(bot.clip); lemma_odd((bot.subj + this.subj) as i32); lemma_odd((bot.clip + this.clip) as i32);
            let t = plus(this, bot);
            lemma_or();
        }
//@ endfn
}
pub struct EvenOddStrategyString;
impl FillStrategy<ShapeCountString> for EvenOddStrategyString {
    open spec fn above(this: ShapeCountString, bot: ShapeCountString) -> ShapeCountString { plus_string(this, bot) }
    // (the line through the edge keeps its directions)
    open spec fn fill_of(this: ShapeCountString, bot: ShapeCountString) -> SegmentFill { ((if in_evenodd(plus_string(this, bot).subj) { 1int } else { 0 }) + (if in_evenodd(bot.subj) { 2int } else { 0 }) + 4 * this.clip) as u8 }
    proof fn lemma_above(this: ShapeCountString, bot: ShapeCountString) { }
//@ fn core/link.rs FillStrategy<ShapeCountString> for EvenOddStrategyString add_and_fill
//@ nopub
//@ entry
        proof {
            lemma_odd(bot.subj); lemma_odd((bot.subj + this.subj) as i32);
            let t = plus_string(this, bot);
            lemma_or();
        }
//@ endfn
}
pub struct NonZeroStrategy;
impl FillStrategy<ShapeCountBoolean> for NonZeroStrategy {
    open spec fn above(this: ShapeCountBoolean, bot: ShapeCountBoolean) -> ShapeCountBoolean { plus(this, bot) }
    open spec fn fill_of(this: ShapeCountBoolean, bot: ShapeCountBoolean) -> SegmentFill { bits(in_nonzero(plus(this, bot).subj), in_nonzero(bot.subj), in_nonzero(plus(this, bot).clip), in_nonzero(bot.clip)) }
    proof fn lemma_above(this: ShapeCountBoolean, bot: ShapeCountBoolean) { }
//@ fn core/link.rs FillStrategy<ShapeCountBoolean> for NonZeroStrategy add_and_fill
//@ nopub
//@ entry
        proof {
            let t = plus(this, bot);
            lemma_or();
        }
//@ endfn
}
pub struct NonZeroStrategyString;
impl FillStrategy<ShapeCountString> for NonZeroStrategyString {
    open spec fn above(this: ShapeCountString, bot: ShapeCountString) -> ShapeCountString { plus_string(this, bot) }
    // (the line through the edge keeps its directions)
    open spec fn fill_of(this: ShapeCountString, bot: ShapeCountString) -> SegmentFill { ((if in_nonzero(plus_string(this, bot).subj) { 1int } else { 0 }) + (if in_nonzero(bot.subj) { 2int } else { 0 }) + 4 * this.clip) as u8 }
    proof fn lemma_above(this: ShapeCountString, bot: ShapeCountString) { }
//@ fn core/link.rs FillStrategy<ShapeCountString> for NonZeroStrategyString add_and_fill
//@ nopub
//@ entry
        proof {
            let t = plus_string(this, bot);
            lemma_or();
        }
//@ endfn
}
pub struct PositiveStrategy;
impl FillStrategy<ShapeCountBoolean> for PositiveStrategy {
    open spec fn above(this: ShapeCountBoolean, bot: ShapeCountBoolean) -> ShapeCountBoolean { plus(this, bot) }
    open spec fn fill_of(this: ShapeCountBoolean, bot: ShapeCountBoolean) -> SegmentFill { bits(in_positive(plus(this, bot).subj), in_positive(bot.subj), in_positive(plus(this, bot).clip), in_positive(bot.clip)) }
    proof fn lemma_above(this: ShapeCountBoolean, bot: ShapeCountBoolean) { }
//@ fn core/link.rs FillStrategy<ShapeCountBoolean> for PositiveStrategy add_and_fill
//@ nopub
//@ entry
        proof {
            let t = plus(this, bot);
            lemma_or();
        }
//@ endfn
}
pub struct PositiveStrategyString;
impl FillStrategy<ShapeCountString> for PositiveStrategyString {
    open spec fn above(this: ShapeCountString, bot: ShapeCountString) -> ShapeCountString { plus_string(this, bot) }
    // (the line through the edge keeps its directions)
    open spec fn fill_of(this: ShapeCountString, bot: ShapeCountString) -> SegmentFill { ((if in_positive(plus_string(this, bot).subj) { 1int } else { 0 }) + (if in_positive(bot.subj) { 2int } else { 0 }) + 4 * this.clip) as u8 }
    proof fn lemma_above(this: ShapeCountString, bot: ShapeCountString) { }
//@ fn core/link.rs FillStrategy<ShapeCountString> for PositiveStrategyString add_and_fill
//@ nopub
//@ entry
        proof {
            let t = plus_string(this, bot);
            lemma_or();
        }
//@ endfn
}
pub struct NegativeStrategy;
impl FillStrategy<ShapeCountBoolean> for NegativeStrategy {
    open spec fn above(this: ShapeCountBoolean, bot: ShapeCountBoolean) -> ShapeCountBoolean { plus(this, bot) }
    open spec fn fill_of(this: ShapeCountBoolean, bot: ShapeCountBoolean) -> SegmentFill { bits(in_negative(plus(this, bot).subj), in_negative(bot.subj), in_negative(plus(this, bot).clip), in_negative(bot.clip)) }
    proof fn lemma_above(this: ShapeCountBoolean, bot: ShapeCountBoolean) { }
//@ fn core/link.rs FillStrategy<ShapeCountBoolean> for NegativeStrategy add_and_fill
//@ nopub
//@ entry
        proof {
            let t = plus(this, bot);
            lemma_or();
        }
//@ endfn
}
pub struct NegativeStrategyString;
impl FillStrategy<ShapeCountString> for NegativeStrategyString {
    open spec fn above(this: ShapeCountString, bot: ShapeCountString) -> ShapeCountString { plus_string(this, bot) }
    // (the line through the edge keeps its directions)
    open spec fn fill_of(this: ShapeCountString, bot: ShapeCountString) -> SegmentFill { ((if in_negative(plus_string(this, bot).subj) { 1int } else { 0 }) + (if in_negative(bot.subj) { 2int } else { 0 }) + 4 * this.clip) as u8 }
    proof fn lemma_above(this: ShapeCountString, bot: ShapeCountString) { }
//@ fn core/link.rs FillStrategy<ShapeCountString> for NegativeStrategyString add_and_fill
//@ nopub
//@ entry
        proof {
            let t = plus_string(this, bot);
            lemma_or();
        }
//@ endfn
}
}
fn main() {}
