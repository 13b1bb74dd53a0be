// ---- what every split strategy does in a pass ----
//@ import plane.vx
//@ import flow.vx
//@ import split.vx
//@ import snap.vx
//@ import yrange.vx
verus! {
impl XSegment {
//@ fn geom/x_segment.rs XSegment is_not_intersect_y_range
//@ spec
        ensures r == (range.min > y_max(*self) || range.max < y_min(*self))
//@ endfn
}
pub open spec fn ready<C: WindingCount>(s: Seq<Segment<C>>) -> bool { strict(s) && segs_ok(s) && counts_ok(s) }
// the edges at the end: in order, apart, and with the same balance at every point
pub open spec fn balanced<C: WindingCount>(a: Seq<Segment<C>>, b: Seq<Segment<C>>) -> bool {
    forall|w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int| linear(w) ==> #[trigger] flow(b, w, f) == flow(a, w, f)
}
pub open spec fn split_from<C: WindingCount>(begun: Seq<Segment<C>>, r: Seq<Segment<C>>) -> bool { ready(r) && planar(r) && balanced(begun, r) }
pub open spec fn under_way<C: WindingCount>(begun: Seq<Segment<C>>, s: Seq<Segment<C>>, need: bool) -> bool { ready(s) && balanced(begun, s) && (need || planar(s)) }

// ---- the marks of one pair ----
pub proof fn lemma_fair_end<C: WindingCount>(segs: Seq<Segment<C>>, p: IntPoint, i: int, k: int)
    requires ready(segs), 0 <= i < segs.len(), 0 <= k < segs.len(), i <= usize::MAX, end_of(p, seg_at(segs, k)), !end_of(p, seg_at(segs, i))
    ensures fair_mark(segs, LineMark { index: i as usize, point: p })
{
    assert(seg_ok(segs[k].x_segment));
    if k > 0 { assert(seg_lt(segs[0].x_segment, segs[k].x_segment)); }
    assert(in_box(p, seg_at(segs, k)));
}
pub proof fn lemma_sqd_self(p: IntPoint)
    ensures sqd(p, p) == 0
{
    assert(0 * 0 == 0);
}
pub proof fn lemma_area_same(a: IntPoint, b: IntPoint)
    ensures area2(a, a, b) == 0, area2(a, b, b) == 0
{
    assert(0 * (a.y - b.y) == 0 && (a.x - b.x) * 0 == 0 && (b.x - a.x) * 0 == 0 && 0 * (b.y - a.y) == 0) by (nonlinear_arith);
}
pub proof fn lemma_pair_fair<C: WindingCount>(segs: Seq<Segment<C>>, n: Seq<LineMark>, round: bool, i: usize, j: usize, radius: int, keep: spec_fn(IntPoint) -> bool, m: LineMark)
    requires
        ready(segs), i < segs.len(), j < segs.len(), i != j, radius >= 1,
        marked(n, round, i, j, seg_at(segs, i as int), seg_at(segs, j as int), radius, keep), n.contains(m)
    ensures fair_mark(segs, m)
{
    let (t, o) = (seg_at(segs, i as int), seg_at(segs, j as int));
    assert(seg_ok(segs[i as int].x_segment) && seg_ok(segs[j as int].x_segment));
    if all_collinear(t, o) {
        assert(end_mark(m, i, j, t, o));
        if m.index == i { lemma_fair_end(segs, m.point, i as int, j as int); } else { lemma_fair_end(segs, m.point, j as int, i as int); }
    } else {
        let c = choose|c: CrossResult| #[trigger] cross_ok(c, t, o, radius) && round == (c.is_round && keep(c.point))
            && forall|m: LineMark| #[trigger] n.contains(m) <==> cross_mark(m, i, j, c) && keep(m.point);
        assert(cross_mark(m, i, j, c));
        let p = c.point;
        match c.cross_type {
            CrossType::Pure => {
                assert(in_box(p, t));
                lemma_sqd_self(p);
                lemma_area_swap(t.a, t.b, p);
                lemma_area_swap(o.a, o.b, p);
                if !c.is_round { lemma_cross_inside(t, o, p); lemma_cross_inside(o, t, p); }
                if i > 0 { assert(seg_lt(segs[0].x_segment, segs[i as int].x_segment)); }
                if j > 0 { assert(seg_lt(segs[0].x_segment, segs[j as int].x_segment)); }
            }
            CrossType::TargetEnd => {
                lemma_area_same(o.a, o.b);
                lemma_fair_end(segs, p, j as int, i as int);
            }
            CrossType::OtherEnd => {
                lemma_area_same(t.a, t.b);
                lemma_fair_end(segs, p, i as int, j as int);
            }
            CrossType::Overlay => {}
        }
    }
}
pub proof fn lemma_inside_on(p: IntPoint, s: XSegment)
    ensures inside(p, s) ==> on_line(p, s)
{}
pub open spec fn kept(keep: spec_fn(IntPoint) -> bool) -> bool { forall|p: IntPoint| #[trigger] keep(p) }
// no rounding: whatever is kept lies where the two truly meet
pub proof fn lemma_pair_true<C: WindingCount>(segs: Seq<Segment<C>>, n: Seq<LineMark>, i: usize, j: usize, radius: int, keep: spec_fn(IntPoint) -> bool, m: LineMark)
    requires
        ready(segs), i < segs.len(), j < segs.len(), i != j, radius >= 1,
        marked(n, false, i, j, seg_at(segs, i as int), seg_at(segs, j as int), radius, keep), n.contains(m)
    ensures true_mark(segs, m)
{
    let (t, o) = (seg_at(segs, i as int), seg_at(segs, j as int));
    assert(seg_ok(segs[i as int].x_segment) && seg_ok(segs[j as int].x_segment));
    lemma_ends_on(t);
    lemma_ends_on(o);
    if all_collinear(t, o) {
        assert(end_mark(m, i, j, t, o));
        if inside(m.point, o) && m.index == j && end_of(m.point, t) { assert(meets_at(o, t, m.point)); } else { assert(meets_at(t, o, m.point)); }
    } else {
        let c = choose|c: CrossResult| #[trigger] cross_ok(c, t, o, radius) && false == (c.is_round && keep(c.point))
            && forall|m: LineMark| #[trigger] n.contains(m) <==> cross_mark(m, i, j, c) && keep(m.point);
        let p = c.point;
        assert(cross_mark(m, i, j, c));
        assert(!c.is_round);
        lemma_area_swap(t.a, t.b, p);
        lemma_area_swap(o.a, o.b, p);
        assert(on_line(p, t) && on_line(p, o));
        if c.cross_type is Pure {
            lemma_cross_inside(t, o, p);
            lemma_cross_inside(o, t, p);
        } else if c.cross_type is TargetEnd {
            assert(inside(p, o) && m.index == j);
        } else {
            assert(inside(p, t) && m.index == i);
        }
        assert(m.index == i ==> meets_at(t, o, p));
        assert(m.index == j ==> meets_at(o, t, p));
    }
}
// no rounding: the pair shows all its meetings that are kept
pub open spec fn kept_at(keep: spec_fn(IntPoint) -> bool, t: XSegment, o: XSegment, radius: int) -> bool { forall|c: CrossResult| #[trigger] cross_ok(c, t, o, radius) ==> keep(c.point) }
pub proof fn lemma_pair_exact<C: WindingCount>(segs: Seq<Segment<C>>, n: Seq<LineMark>, i: usize, j: usize, radius: int, keep: spec_fn(IntPoint) -> bool)
    requires
        ready(segs), i < segs.len(), j < segs.len(), i != j, radius >= 1,
        marked(n, false, i, j, seg_at(segs, i as int), seg_at(segs, j as int), radius, keep),
        if all_collinear(seg_at(segs, i as int), seg_at(segs, j as int)) { kept(keep) } else { kept_at(keep, seg_at(segs, i as int), seg_at(segs, j as int), radius) }
    ensures
        shown(segs, n, i as int, j as int), shown(segs, n, j as int, i as int)
{
    let (t, o) = (seg_at(segs, i as int), seg_at(segs, j as int));
    let (mi, mj) = (|p: IntPoint| LineMark { index: i, point: p }, |p: IntPoint| LineMark { index: j, point: p });
    assert(seg_ok(segs[i as int].x_segment) && seg_ok(segs[j as int].x_segment));
    lemma_ends_on(t);
    lemma_ends_on(o);
    if all_collinear(t, o) {
        assert(inside(o.a, t) ==> end_mark(mi(o.a), i, j, t, o) && n.contains(mi(o.a)));
        assert(inside(o.b, t) ==> end_mark(mi(o.b), i, j, t, o) && n.contains(mi(o.b)));
        assert(inside(t.a, o) ==> end_mark(mj(t.a), i, j, t, o) && n.contains(mj(t.a)));
        assert(inside(t.b, o) ==> end_mark(mj(t.b), i, j, t, o) && n.contains(mj(t.b)));
    } else if touch(t, o) || proper_cross(t, o) {
        let c = choose|c: CrossResult| #[trigger] cross_ok(c, t, o, radius) && false == (c.is_round && keep(c.point))
            && forall|m: LineMark| #[trigger] n.contains(m) <==> cross_mark(m, i, j, c) && keep(m.point);
        let p = c.point;
        assert(keep(p) && !c.is_round);
        lemma_area_swap(t.a, t.b, p);
        lemma_area_swap(o.a, o.b, p);
        assert(on_line(p, t) && on_line(p, o));
        // the only common point
        assert forall|q: IntPoint| #[trigger] on_line(q, t) && on_line(q, o) implies q == p by { if q != p { lemma_common(t, o, p, q); } }
        assert(on_line(o.a, o) && on_line(o.b, o) && on_line(t.a, t) && on_line(t.b, t));
        if proper_cross(t, o) {
            assert(c.cross_type is Pure);
            lemma_cross_inside(t, o, p);
            lemma_cross_inside(o, t, p);
            assert(cross_mark(mi(p), i, j, c) && cross_mark(mj(p), i, j, c));
            assert(n.contains(mi(p)) && n.contains(mj(p)));
            assert(both_marked(n, i as int, j as int, t, o, p));
            assert(both_marked(n, j as int, i as int, o, t, p));
            assert(meets_at(t, o, p) && meets_at(o, t, p));
        } else {
            assert(!proper_cross(o, t));
            lemma_inside_on(o.a, t); lemma_inside_on(o.b, t); lemma_inside_on(t.a, o); lemma_inside_on(t.b, o);
            assert(inside(o.a, t) ==> o.a == p);
            assert(inside(o.b, t) ==> o.b == p);
            assert(inside(t.a, o) ==> t.a == p);
            assert(inside(t.b, o) ==> t.b == p);
            if c.cross_type is TargetEnd {
                assert(!inside(p, t));
                assert(cross_mark(mj(p), i, j, c));
                assert(n.contains(mj(p)));
                assert(meets_at(o, t, p));
            } else {
                assert(c.cross_type is OtherEnd);
                assert(!inside(p, o));
                assert(cross_mark(mi(p), i, j, c));
                assert(n.contains(mi(p)));
                assert(meets_at(t, o, p));
            }
        }
    } else {
        assert(!proper_cross(o, t));
    }
}

// ---- the pairs looked at so far: those (x, y), x < y, that d admits ----
#[verifier::opaque]
pub open spec fn marked_on<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, need: bool, d: spec_fn(int, int) -> bool) -> bool {
    &&& forall|m: LineMark| #[trigger] marks.contains(m) ==> fair_mark(segs, m) && (need || true_mark(segs, m))
    &&& need || forall|x: int, y: int| 0 <= x < segs.len() && 0 <= y < segs.len() && x != y && (if x < y { d(x, y) } else { d(y, x) }) ==> #[trigger] shown(segs, marks, x, y)
    &&& need ==> marks.len() > 0
}
// row by row
pub open spec fn rows(i: int, j: int) -> spec_fn(int, int) -> bool { |x: int, y: int| x < i || x == i && y < j }
pub open spec fn marked_to<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, need: bool, i: int, j: int) -> bool { marked_on(segs, marks, need, rows(i, j)) }
pub open spec fn all_pairs() -> spec_fn(int, int) -> bool { |x: int, y: int| true }
pub proof fn lemma_shown_more<C: Send>(segs: Seq<Segment<C>>, m0: Seq<LineMark>, m1: Seq<LineMark>, i: int, j: int)
    requires shown(segs, m0, i, j), forall|m: LineMark| #[trigger] m0.contains(m) ==> m1.contains(m)
    ensures shown(segs, m1, i, j)
{
    let (s, o) = (seg_at(segs, i), seg_at(segs, j));
    if proper_cross(s, o) {
        let c = choose|c: IntPoint| #[trigger] both_marked(m0, i, j, s, o, c);
        assert(both_marked(m1, i, j, s, o, c));
    }
}
pub proof fn lemma_shown_apart<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, i: int, j: int)
    requires apart(seg_at(segs, i), seg_at(segs, j))
    ensures shown(segs, marks, i, j), shown(segs, marks, j, i)
{}
pub proof fn lemma_tail_contains(m0: Seq<LineMark>, m1: Seq<LineMark>)
    requires extends(m1, m0)
    ensures forall|m: LineMark| #[trigger] m1.contains(m) <==> m0.contains(m) || tail(m1, m0).contains(m)
{
    assert forall|m: LineMark| #[trigger] m1.contains(m) <==> m0.contains(m) || tail(m1, m0).contains(m) by {
        if m1.contains(m) {
            let q = choose|q: int| 0 <= q < m1.len() && m1[q] == m;
            if q < m0.len() { assert(m1.take(m0.len() as int)[q] == m); } else { assert(tail(m1, m0)[q - m0.len()] == m); }
        }
        if m0.contains(m) {
            let q = choose|q: int| 0 <= q < m0.len() && m0[q] == m;
            assert(m1.take(m0.len() as int)[q] == m);
            assert(m1[q] == m);
        }
        if tail(m1, m0).contains(m) {
            let q = choose|q: int| 0 <= q < tail(m1, m0).len() && tail(m1, m0)[q] == m;
            assert(m1[q + m0.len()] == m);
        }
    }
}
pub proof fn lemma_marked_none<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, d: spec_fn(int, int) -> bool)
    requires marks.len() == 0, forall|x: int, y: int| 0 <= x < y < segs.len() ==> !#[trigger] d(x, y)
    ensures marked_on(segs, marks, false, d)
{
    reveal(marked_on);
}
// the same pairs, and such that lie apart
pub proof fn lemma_marked_with<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, need: bool, d: spec_fn(int, int) -> bool, e: spec_fn(int, int) -> bool)
    requires
        marked_on(segs, marks, need, d),
        forall|x: int, y: int| 0 <= x < y < segs.len() && #[trigger] e(x, y) ==> d(x, y) || apart(seg_at(segs, x), seg_at(segs, y))
    ensures marked_on(segs, marks, need, e)
{
    reveal(marked_on);
    if !need {
        assert forall|x: int, y: int| 0 <= x < segs.len() && 0 <= y < segs.len() && x != y && (if x < y { e(x, y) } else { e(y, x) }) implies #[trigger] shown(segs, marks, x, y) by {
            let (u, v) = if x < y { (x, y) } else { (y, x) };
            assert(e(u, v));
            if !d(u, v) { lemma_shown_apart(segs, marks, u, v); }
        }
    }
}
pub proof fn lemma_marked_start<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>)
    requires marks.len() == 0
    ensures marked_to(segs, marks, false, 0, 0)
{
    lemma_marked_none(segs, marks, rows(0, 0));
}
pub proof fn lemma_round_marks(n: Seq<LineMark>, i: usize, j: usize, t: XSegment, o: XSegment, radius: int, keep: spec_fn(IntPoint) -> bool)
    requires marked(n, true, i, j, t, o, radius, keep)
    ensures n.len() > 0
{
    let c = choose|c: CrossResult| #[trigger] cross_ok(c, t, o, radius) && true == (c.is_round && keep(c.point))
        && forall|m: LineMark| #[trigger] n.contains(m) <==> cross_mark(m, i, j, c) && keep(m.point);
    let (a, b) = (LineMark { index: i, point: c.point }, LineMark { index: j, point: c.point });
    assert(cross_mark(a, i, j, c) || cross_mark(b, i, j, c));
    assert(n.contains(a) || n.contains(b));
}
// one pair more
pub proof fn lemma_marked_more<C: WindingCount>(segs: Seq<Segment<C>>, m0: Seq<LineMark>, m1: Seq<LineMark>, need: bool, round: bool, i: usize, j: usize, radius: int, d: spec_fn(int, int) -> bool, e: spec_fn(int, int) -> bool)
    requires
        ready(segs), i < j < segs.len(), radius >= 1, marked_on(segs, m0, need, d), extends(m1, m0),
        marked(tail(m1, m0), round, i, j, seg_at(segs, i as int), seg_at(segs, j as int), radius, any_point()),
        forall|x: int, y: int| 0 <= x < y < segs.len() && #[trigger] e(x, y) ==> d(x, y) || x == i && y == j
    ensures marked_on(segs, m1, need || round, e)
{
    reveal(marked_on);
    let n = tail(m1, m0);
    lemma_tail_contains(m0, m1);
    assert forall|m: LineMark| #[trigger] n.contains(m) implies fair_mark(segs, m) by { lemma_pair_fair(segs, n, round, i, j, radius, any_point(), m); }
    if round {
        lemma_round_marks(n, i, j, seg_at(segs, i as int), seg_at(segs, j as int), radius, any_point());
    } else if !need {
        lemma_pair_exact(segs, n, i, j, radius, any_point());
        assert forall|m: LineMark| #[trigger] n.contains(m) implies true_mark(segs, m) by { lemma_pair_true(segs, n, i, j, radius, any_point(), m); }
        lemma_shown_more(segs, n, m1, i as int, j as int);
        lemma_shown_more(segs, n, m1, j as int, i as int);
        assert forall|x: int, y: int| 0 <= x < segs.len() && 0 <= y < segs.len() && x != y && (if x < y { e(x, y) } else { e(y, x) }) implies #[trigger] shown(segs, m1, x, y) by {
            let (u, v) = if x < y { (x, y) } else { (y, x) };
            assert(e(u, v));
            if d(u, v) { assert(shown(segs, m0, x, y)); lemma_shown_more(segs, m0, m1, x, y); }
        }
    }
}
pub proof fn lemma_marked_pair<C: WindingCount>(segs: Seq<Segment<C>>, m0: Seq<LineMark>, m1: Seq<LineMark>, need: bool, round: bool, i: usize, j: usize, radius: int)
    requires
        ready(segs), i < j < segs.len(), radius >= 1, marked_to(segs, m0, need, i as int, j as int), extends(m1, m0),
        marked(tail(m1, m0), round, i, j, seg_at(segs, i as int), seg_at(segs, j as int), radius, any_point())
    ensures marked_to(segs, m1, need || round, i as int, j + 1)
{
    lemma_marked_more(segs, m0, m1, need, round, i, j, radius, rows(i as int, j as int), rows(i as int, j + 1));
}
pub proof fn lemma_marked_apart<C: WindingCount>(segs: Seq<Segment<C>>, m: Seq<LineMark>, need: bool, i: int, j: int)
    requires 0 <= i < j < segs.len(), marked_to(segs, m, need, i, j), apart(seg_at(segs, i), seg_at(segs, j))
    ensures marked_to(segs, m, need, i, j + 1)
{
    lemma_marked_with(segs, m, need, rows(i, j), rows(i, j + 1));
}
pub proof fn lemma_marked_beyond<C: WindingCount>(segs: Seq<Segment<C>>, m: Seq<LineMark>, need: bool, i: int, j: int)
    requires ready(segs), 0 <= i < j < segs.len(), marked_to(segs, m, need, i, j), segs[i].x_segment.b.x < segs[j].x_segment.a.x
    ensures marked_to(segs, m, need, i, segs.len() as int)
    decreases segs.len() - j
{
    assert(seg_ok(segs[i].x_segment) && seg_ok(segs[j].x_segment));
    lemma_apart_x(seg_at(segs, i), seg_at(segs, j));
    lemma_marked_apart(segs, m, need, i, j);
    if j + 1 < segs.len() {
        assert(seg_lt(segs[j].x_segment, segs[j + 1].x_segment));
        lemma_marked_beyond(segs, m, need, i, j + 1);
    }
}
pub proof fn lemma_marked_row<C: Send>(segs: Seq<Segment<C>>, m: Seq<LineMark>, need: bool, i: int)
    requires 0 <= i < segs.len()
    ensures
        marked_to(segs, m, need, i, i) ==> marked_to(segs, m, need, i, i + 1),
        marked_to(segs, m, need, i, segs.len() as int) ==> marked_to(segs, m, need, i + 1, i + 1),
        i == segs.len() - 1 && marked_to(segs, m, need, i, i) ==> marked_on(segs, m, need, all_pairs())
{
    if marked_to(segs, m, need, i, i) {
        lemma_marked_with(segs, m, need, rows(i, i), rows(i, i + 1));
        if i == segs.len() - 1 { lemma_marked_with(segs, m, need, rows(i, i), all_pairs()); }
    }
    if marked_to(segs, m, need, i, segs.len() as int) { lemma_marked_with(segs, m, need, rows(i, segs.len() as int), rows(i + 1, i + 1)); }
}

// ---- a pass and what it leaves ----
pub proof fn lemma_balanced<C: WindingCount>(a: Seq<Segment<C>>, b: Seq<Segment<C>>, c: Seq<Segment<C>>)
    requires balanced(a, b), balanced(b, c)
    ensures balanced(a, c)
{
    assert forall|w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int| linear(w) implies #[trigger] flow(c, w, f) == flow(a, w, f) by {
        assert(flow(b, w, f) == flow(a, w, f));
    }
}
pub proof fn lemma_begun<C: WindingCount>(s: Seq<Segment<C>>)
    requires ready(s)
    ensures under_way(s, s, true), s.len() <= 1 ==> planar(s)
{}
// all the pairs are looked at and there are no marks
pub proof fn lemma_unmarked<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, need: bool)
    requires marked_on(segs, marks, need, all_pairs()), marks.len() == 0
    ensures planar(segs)
{
    reveal(marked_on);
    assert forall|i: int, j: int| 0 <= i < segs.len() && 0 <= j < segs.len() && i != j implies apart((#[trigger] segs[i]).x_segment, (#[trigger] segs[j]).x_segment) by {
        assert(shown(segs, marks, i, j) && shown(segs, marks, j, i));
        if proper_cross(segs[i].x_segment, segs[j].x_segment) {
            let c = choose|c: IntPoint| #[trigger] both_marked(marks, i, j, seg_at(segs, i), seg_at(segs, j), c);
        }
    }
}
pub proof fn lemma_fair<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, need: bool)
    requires ready(segs), segs.len() > 0, marked_on(segs, marks, need, all_pairs())
    ensures
        marks_in(marks, segs),
        forall|i: int| 0 <= i < segs.len() ==> pt_lt((#[trigger] segs[i]).x_segment.a, segs[i].x_segment.b) && segs[0].x_segment.a.x <= segs[i].x_segment.a.x,
        forall|j: int| 0 <= j < marks.len() ==> segs[0].x_segment.a.x <= (#[trigger] marks[j]).point.x,
{
    reveal(marked_on);
    assert forall|i: int| 0 <= i < segs.len() implies pt_lt((#[trigger] segs[i]).x_segment.a, segs[i].x_segment.b) && segs[0].x_segment.a.x <= segs[i].x_segment.a.x by {
        assert(seg_ok(segs[i].x_segment));
        if i > 0 { assert(seg_lt(segs[0].x_segment, segs[i].x_segment)); }
    }
    assert forall|j: int| 0 <= j < marks.len() implies segs[0].x_segment.a.x <= (#[trigger] marks[j]).point.x && marks[j].index < segs.len() by { assert(marks.contains(marks[j])); }
}
// the pieces are proper edges within range
pub open spec fn fresh(pts: Seq<IntPoint>, s: XSegment) -> bool {
    &&& forall|i: int| 0 <= i < pts.len() ==> in_range(#[trigger] pts[i]) && !end_of(pts[i], s)
    &&& forall|i: int, j: int| 0 <= i < j < pts.len() ==> #[trigger] pts[i] != #[trigger] pts[j]
}
pub proof fn lemma_fresh<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, k: int, n: int)
    requires
        0 <= k < segs.len(), marks.no_duplicates(), forall|m: LineMark| #[trigger] marks.contains(m) ==> fair_mark(segs, m), 0 <= n <= marks.len()
    ensures fresh(pts_of(marks.take(n), k), seg_at(segs, k))
    decreases n
{
    if n > 0 {
        let d = marks.take(n - 1);
        lemma_fresh(segs, marks, k, n - 1);
        assert(marks.take(n).drop_last() =~= d);
        let (p, m) = (pts_of(d, k), marks[n - 1]);
        assert(marks.contains(m));
        if m.index == k {
            let u = p.push(m.point);
            assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i] != #[trigger] u[j] by {
                if j == p.len() {
                    lemma_pts_has(d, k, i);
                    let q = choose|q: int| 0 <= q < d.len() && d[q] == (LineMark { index: k as usize, point: p[i] });
                    assert(marks[q] == d[q]);
                    assert(marks[q] != marks[n - 1]);
                } else { assert(p[i] != p[j]); }
            }
            assert forall|i: int| 0 <= i < u.len() implies in_range(#[trigger] u[i]) && !end_of(u[i], seg_at(segs, k)) by { if i < p.len() { assert(in_range(p[i])); } }
        }
    }
}
pub proof fn lemma_cut_seg_ok<C: WindingCount>(s: Segment<C>, pts: Seq<IntPoint>, t: int)
    requires seg_ok(s.x_segment), fresh(pts, s.x_segment), 0 <= t < cut(s, pts).len()
    ensures seg_ok(cut(s, pts)[t].x_segment)
{
    if pts.len() > 0 {
        let (a, b) = (s.x_segment.a, s.x_segment.b);
        let all = pts.push(b);
        lemma_chain_len(a, all, s.count);
        if t > 0 { assert(in_range(pts[t - 1])); }
        if t < pts.len() { assert(in_range(pts[t])); }
        if 0 < t < pts.len() { assert(pts[t - 1] != pts[t]); }
    }
}
pub proof fn lemma_pieces_seg_ok<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int, t: int)
    requires
        segs_ok(segs), 0 <= n <= segs.len(), 0 <= t < pieces(segs, marks, n).len(), forall|k: int| 0 <= k < segs.len() ==> fresh(#[trigger] pts_of(marks, k), seg_at(segs, k))
    ensures seg_ok(pieces(segs, marks, n)[t].x_segment)
    decreases n
{
    if n > 0 {
        let p = pieces(segs, marks, n - 1);
        if t < p.len() { lemma_pieces_seg_ok(segs, marks, n - 1, t); }
        else {
            assert(seg_ok(segs[n - 1].x_segment));
            assert(fresh(pts_of(marks, n - 1), seg_at(segs, n - 1)));
            lemma_cut_seg_ok(segs[n - 1], pts_of(marks, n - 1), t - p.len());
        }
    }
}
// the pieces lie within the box of all ends
pub ghost struct Frame { pub x0: int, pub x1: int, pub y0: int, pub y1: int }
pub open spec fn between(lo: int, hi: int) -> Frame { Frame { x0: i32::MIN as int, x1: i32::MAX as int, y0: lo, y1: hi } }
pub open spec fn frames(f: Frame, p: IntPoint) -> bool { f.x0 <= p.x <= f.x1 && f.y0 <= p.y <= f.y1 }
pub open spec fn spans(s: XSegment, f: Frame) -> bool { frames(f, s.a) && frames(f, s.b) }
pub open spec fn framed<C: Send>(segs: Seq<Segment<C>>, f: Frame) -> bool { forall|i: int| 0 <= i < segs.len() ==> spans((#[trigger] segs[i]).x_segment, f) }
pub open spec fn flat(pts: Seq<IntPoint>, f: Frame) -> bool { forall|i: int| 0 <= i < pts.len() ==> frames(f, #[trigger] pts[i]) }
pub proof fn lemma_pts_flat<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, k: int, n: int, f: Frame)
    requires framed(segs, f), 0 <= n <= marks.len(), forall|m: LineMark| #[trigger] marks.contains(m) ==> fair_mark(segs, m)
    ensures flat(pts_of(marks.take(n), k), f)
    decreases n
{
    if n > 0 {
        lemma_pts_flat(segs, marks, k, n - 1, f);
        assert(marks.take(n).drop_last() =~= marks.take(n - 1));
        let m = marks[n - 1];
        assert(marks.contains(m));
        let q = choose|q: int| 0 <= q < segs.len() && #[trigger] in_box(m.point, seg_at(segs, q));
        assert(spans(segs[q].x_segment, f));
    }
}
pub proof fn lemma_pieces_framed<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int, t: int, f: Frame)
    requires
        framed(segs, f), 0 <= n <= segs.len(), 0 <= t < pieces(segs, marks, n).len(), forall|k: int| 0 <= k < segs.len() ==> flat(#[trigger] pts_of(marks, k), f)
    ensures spans(pieces(segs, marks, n)[t].x_segment, f)
    decreases n
{
    if n > 0 {
        let p = pieces(segs, marks, n - 1);
        if t < p.len() { lemma_pieces_framed(segs, marks, n - 1, t, f); }
        else {
            assert(spans(segs[n - 1].x_segment, f));
            let pts = pts_of(marks, n - 1);
            assert(flat(pts, f));
            if pts.len() > 0 {
                let (a, b) = (segs[n - 1].x_segment.a, segs[n - 1].x_segment.b);
                lemma_chain_len(a, pts.push(b), segs[n - 1].count);
                let u = t - p.len();
                if u > 0 { assert(frames(f, pts[u - 1])); }
                if u < pts.len() { assert(frames(f, pts[u])); }
            }
        }
    }
}
pub proof fn lemma_divided_framed<C: WindingCount>(r: Seq<Segment<C>>, segs: Seq<Segment<C>>, marks: Seq<LineMark>, f: Frame)
    requires framed(segs, f), divided(r, segs, marks), forall|m: LineMark| #[trigger] marks.contains(m) ==> fair_mark(segs, m)
    ensures framed(r, f)
{
    assert forall|k: int| 0 <= k < segs.len() implies flat(#[trigger] pts_of(marks, k), f) by {
        lemma_pts_flat(segs, marks, k, marks.len() as int, f);
        assert(marks.take(marks.len() as int) =~= marks);
    }
    assert forall|i: int| 0 <= i < r.len() implies spans((#[trigger] r[i]).x_segment, f) by {
        let j = lemma_divided_from(r, segs, marks, i);
        lemma_pieces_framed(segs, marks, segs.len() as int, j, f);
    }
}
pub proof fn lemma_mag_one<C: WindingCount>(s: Seq<Segment<C>>, i: int)
    requires 0 <= i < s.len()
    ensures C::mag(s[i].count) <= smag(s)
    decreases s.len()
{
    if i < s.len() - 1 { lemma_mag_one(s.drop_last(), i); }
}
pub proof fn lemma_divided_ready<C: WindingCount>(r: Seq<Segment<C>>, segs: Seq<Segment<C>>, marks: Seq<LineMark>)
    requires
        ready(segs), divided(r, segs, marks), marks_in(marks, segs), smag(segs) + mark_mag(segs, marks) <= i32::MAX, marks.no_duplicates(),
        forall|m: LineMark| #[trigger] marks.contains(m) ==> fair_mark(segs, m)
    ensures ready(r)
{
    let s = choose|s: Seq<Segment<C>>| #[trigger] sorted(s) && same_segs(pieces(segs, marks, segs.len() as int), s) && r == live(runs(s));
    lemma_mergeable(segs, marks, s);
    lemma_runs_total(s);
    lemma_runs_bound(s);
    lemma_live_total(runs(s));
    assert forall|k: int| 0 <= k < segs.len() implies fresh(#[trigger] pts_of(marks, k), seg_at(segs, k)) by {
        lemma_fresh(segs, marks, k, marks.len() as int);
        assert(marks.take(marks.len() as int) =~= marks);
    }
    assert forall|i: int| 0 <= i < r.len() implies seg_ok((#[trigger] r[i]).x_segment) by {
        let j = lemma_divided_from(r, segs, marks, i);
        lemma_pieces_seg_ok(segs, marks, segs.len() as int, j);
    }
    assert forall|i: int| 0 <= i < r.len() implies !C::none((#[trigger] r[i]).count) && C::wf(r[i].count) && C::mag(r[i].count) <= i32::MAX by {
        let j = lemma_live_from(runs(s), i);
        lemma_mag_one(runs(s), j);
        assert(C::wf(runs(s)[j].count));
    }
}
pub proof fn lemma_passed<C: WindingCount>(begun: Seq<Segment<C>>, segs: Seq<Segment<C>>, m0: Seq<LineMark>, ms: Seq<LineMark>, r: Seq<Segment<C>>, need: bool)
    requires
        under_way(begun, segs, true), marked_on(segs, m0, need, all_pairs()), segs.len() > 0,
        smag(segs) + mark_mag(segs, m0) <= i32::MAX, divided(r, segs, ms),
        forall|m: LineMark| ms.contains(m) <==> m0.contains(m), ms.no_duplicates(),
        forall|k: int, up: bool| 0 <= k < segs.len() && #[trigger] steady(ms, k, segs[k].x_segment, up) ==> onward(ms, k, up)
    ensures under_way(begun, r, need), forall|f: Frame| #[trigger] framed(segs, f) ==> framed(r, f)
{
    reveal(marked_on);
    lemma_mark_mag_sub(segs, m0, ms);
    lemma_fair(segs, m0, need);
    assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).index < segs.len() by { assert(ms.contains(ms[i])); assert(m0.contains(ms[i])); }
    assert forall|m: LineMark| #[trigger] ms.contains(m) implies fair_mark(segs, m) by { assert(m0.contains(m)); }
    lemma_divided_ready(r, segs, ms);
    assert forall|g: Frame| #[trigger] framed(segs, g) implies framed(r, g) by { lemma_divided_framed(r, segs, ms, g); }
    assert forall|w: spec_fn(C) -> int, f: spec_fn(IntPoint) -> int| linear(w) implies #[trigger] flow(r, w, f) == flow(begun, w, f) by {
        lemma_flow_divided(r, segs, ms, w, f);
        assert(flow(segs, w, f) == flow(begun, w, f));
    }
    if !need {
        assert(exact(segs, ms)) by {
            assert forall|i: int, j: int| 0 <= i < segs.len() && 0 <= j < segs.len() && i != j implies #[trigger] shown(segs, ms, i, j) by {
                assert(shown(segs, m0, i, j));
                lemma_shown_more(segs, m0, ms, i, j);
            }
            assert forall|m: LineMark| #[trigger] ms.contains(m) implies m.index < segs.len() && true_mark(segs, m) by { assert(m0.contains(m)); assert(fair_mark(segs, m)); }
        }
        lemma_pass_planar(segs, ms, r);
    }
}
}
fn main() {}
