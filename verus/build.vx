//@ include base.vx
//@ include vec.vx
//@ include segment.vx
//@ include count.vx
verus! {

// A measure of directed edges that cancels on reversal and adds up along a line: the signed area and the
// number of signed crossings with any ray are such measures, so what holds for every measure holds for the
// winding number of every point.
pub open spec fn measure(w: spec_fn(IntPoint, IntPoint) -> int) -> bool {
    &&& forall|a: IntPoint, b: IntPoint| #[trigger] w(a, b) == -w(b, a)
    &&& forall|a: IntPoint, b: IntPoint, c: IntPoint| area2(a, b, c) == 0 ==> #[trigger] w(a, b) + #[trigger] w(b, c) == w(a, c)
}
// p -> rest[0] -> ... -> q
pub open spec fn chain(w: spec_fn(IntPoint, IntPoint) -> int, p: IntPoint, rest: Seq<IntPoint>, q: IntPoint) -> int
    decreases rest.len(),
{
    if rest.len() == 0 { w(p, q) } else { w(p, rest[0]) + chain(w, rest[0], rest.drop_first(), q) }
}
// the closed contour
pub open spec fn closed(w: spec_fn(IntPoint, IntPoint) -> int, s: Seq<IntPoint>) -> int {
    if s.len() == 0 { 0 } else { chain(w, s[0], s.drop_first(), s[0]) }
}
pub open spec fn all_in_range(s: Seq<IntPoint>) -> bool { forall|i: int| 0 <= i < s.len() ==> in_range(#[trigger] s[i]) }

// stands for Iterator<Item = IntPoint> (fused): what is still to come
pub trait PointSource {
    spec fn rest(&self) -> Seq<IntPoint>;
    fn next(&mut self) -> (r: Option<IntPoint>)
        ensures
            match r {
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                Some(p) => old(self).rest().len() > 0 && p == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            };
}

pub open spec fn directed<C: Send>(p0: IntPoint, p1: IntPoint, direct: C, invert: C) -> Segment<C> {
    if pt_lt(p0, p1) { Segment { x_segment: XSegment { a: p0, b: p1 }, count: direct } }
    else { Segment { x_segment: XSegment { a: p1, b: p0 }, count: invert } }
}
impl<C: Send> Segment<C> {
//@ fn segm/build.rs Segment<C> with_ab
//@ spec
        ensures r == directed(p0, p1, direct, invert)
//@ endfn
}

// a new segment is a proper edge in range, counted forward or backward
pub open spec fn new_ok<C: Send>(s: Segment<C>, direct: C, invert: C) -> bool {
    seg_ok(s.x_segment) && (s.count == direct || s.count == invert)
}
// what is known about the segments appended so far
pub open spec fn grown<C: Send>(o: Seq<Segment<C>>, n: Seq<Segment<C>>, direct: C, invert: C) -> bool {
    o.len() <= n.len() && n.take(o.len() as int) == o && forall|i: int| o.len() <= i < n.len() ==> new_ok(#[trigger] n[i], direct, invert)
}
pub proof fn lemma_push<C: Send>(direct: C, invert: C)
    requires direct != invert,
    ensures
        forall|w: spec_fn(IntPoint, IntPoint) -> int, s: Seq<Segment<C>>, p: IntPoint, q: IntPoint|
            measure(w) && p != q ==> #[trigger] seg_ssum(w, s.push(directed(p, q, direct, invert)), direct) == seg_ssum(w, s, direct) + w(p, q),
        forall|o: Seq<Segment<C>>, s: Seq<Segment<C>>, p: IntPoint, q: IntPoint|
            grown(o, s, direct, invert) && p != q && in_range(p) && in_range(q) ==> #[trigger] grown(o, s.push(directed(p, q, direct, invert)), direct, invert),
{
    assert forall|w: spec_fn(IntPoint, IntPoint) -> int, s: Seq<Segment<C>>, p: IntPoint, q: IntPoint|
        measure(w) && p != q implies #[trigger] seg_ssum(w, s.push(directed(p, q, direct, invert)), direct) == seg_ssum(w, s, direct) + w(p, q) by {
        let t = s.push(directed(p, q, direct, invert));
        assert(t.drop_last() =~= s);
        assert(w(p, q) == -w(q, p));
    }
    assert forall|o: Seq<Segment<C>>, s: Seq<Segment<C>>, p: IntPoint, q: IntPoint|
        grown(o, s, direct, invert) && p != q && in_range(p) && in_range(q) implies #[trigger] grown(o, s.push(directed(p, q, direct, invert)), direct, invert) by {
        assert(s.push(directed(p, q, direct, invert)).take(o.len() as int) =~= o);
    }
}
pub proof fn lemma_area_degenerate()
    ensures
        forall|a: IntPoint, b: IntPoint| #[trigger] area2(a, a, b) == 0,
        forall|a: IntPoint, b: IntPoint| #[trigger] area2(a, b, a) == 0,
        forall|a: IntPoint, b: IntPoint| #[trigger] area2(a, b, b) == 0,
{
    assert forall|a: IntPoint, b: IntPoint| #[trigger] area2(a, a, b) == 0 by {
        assert(0 * (a.y - b.y) - (a.x - b.x) * 0 == 0) by (nonlinear_arith);
    }
    assert forall|a: IntPoint, b: IntPoint| #[trigger] area2(a, b, a) == 0 by {
        let (x, y) = (b.x - a.x, b.y - a.y);
        assert(area2(a, b, a) == x * y - x * y);
    }
    assert forall|a: IntPoint, b: IntPoint| #[trigger] area2(a, b, b) == 0 by {
        let (x, y) = (b.x - a.x, b.y - a.y);
        assert(x * 0 - 0 * y == 0) by (nonlinear_arith);
    }
}
// a b c collinear, whichever comes first
pub proof fn lemma_area_cycle(a: IntPoint, b: IntPoint, c: IntPoint)
    ensures area2(b, c, a) == area2(a, b, c), area2(c, a, b) == area2(a, b, c), area2(b, a, c) == -area2(a, b, c),
{
    let (x, y, u, v) = (b.x - a.x, b.y - a.y, c.x - a.x, c.y - a.y);
    // b - a = (x, y), c - a = (u, v)
    assert(x * (y - v) - (x - u) * y == u * y - x * v) by (nonlinear_arith);
    assert((u - x) * v - u * (v - y) == u * y - x * v) by (nonlinear_arith);
    assert((-u) * (-y) - (-x) * (-v) == u * y - x * v) by (nonlinear_arith);
    assert((-x) * (-v) - (-u) * (-y) == x * v - u * y) by (nonlinear_arith);
    assert(b.x - c.x == x - u && b.y - c.y == y - v && c.x - b.x == u - x && c.y - b.y == v - y);
    assert(a.x - c.x == -u && a.y - c.y == -v && a.x - b.x == -x && a.y - b.y == -y);
}
// two triples on lines that share two different points: one line
pub proof fn lemma_one_line(p0: IntPoint, p1: IntPoint, q0: IntPoint, q1: IntPoint)
    requires area2(p0, p1, q0) == 0, area2(q0, q1, p1) == 0, p1 != q0,
    ensures area2(p0, q0, q1) == 0,
{
    // relative to q0: v = p1 - q0, w = p0 - q0, e = q1 - q0
    let (vx, vy) = (p1.x - q0.x, p1.y - q0.y);
    let (wx, wy) = (p0.x - q0.x, p0.y - q0.y);
    let (ex, ey) = (q1.x - q0.x, q1.y - q0.y);
    assert(crs(wx, wy, vx, vy) == 0) by {
        assert((vx - wx) * vy - vx * (vy - wy) == -(wx * vy - wy * vx)) by (nonlinear_arith);
        assert(p1.x - p0.x == vx - wx && p1.y - p0.y == vy - wy);
    }
    assert(crs(ex, ey, vx, vy) == 0) by {
        assert(ex * (ey - vy) - (ex - vx) * ey == -(ex * vy - ey * vx)) by (nonlinear_arith);
        assert(q1.x - p1.x == ex - vx && q1.y - p1.y == ey - vy);
    }
    lemma_par3(vx, vy, wx, wy, ex, ey);
    assert((-wx) * (-ey) - (-ex) * (-wy) == wx * ey - wy * ex) by (nonlinear_arith);
    assert(q0.x - q1.x == -ex && q0.y - q1.y == -ey && q0.x - p0.x == -wx && q0.y - p0.y == -wy);
}

//@ fn segm/build.rs - private_append_iter
//@ sub <<<I: Iterator<Item=IntPoint>>>> <<<I: PointSource>>>
//@ sub <<<for p in &mut iter {>>> <<<loop { let p = if let Some(p) = iter.next() { p } else { break; };>>>
//@ spec
    requires all_in_range(iter.rest())
    ensures
        // nothing already there changes, and what is added are proper edges with unit counts
        grown(old(segments)@, final(segments)@, C::forward(shape_type), C::backward(shape_type)),
        // every measure of the closed contour is the sum over the added edges
        forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] measure(w) ==>
            seg_ssum(w, final(segments)@, C::forward(shape_type)) - seg_ssum(w, old(segments)@, C::forward(shape_type)) == closed(w, iter.rest())
//@ entry
    proof {
        C::lemma_units(shape_type);
        lemma_push(C::forward(shape_type), C::backward(shape_type));
        lemma_area_degenerate();
    }
    let ghost g_pts = iter.rest();
    let ghost g_old = segments@;
    let ghost (g_d, g_i) = (C::forward(shape_type), C::backward(shape_type));
    assert(g_old.take(g_old.len() as int) =~= g_old);
//@ loop 0
        invariant_except_break
            p0 == q0,
            forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] measure(w) ==> closed(w, g_pts) == w(p0, p1) + chain(w, p1, iter.rest(), q0),
        invariant
            in_range(q0), in_range(p0), in_range(p1), all_in_range(iter.rest()),
            forall|a: IntPoint, b: IntPoint| #[trigger] area2(a, a, b) == 0,
        ensures
            in_range(p0), in_range(p1), in_range(q0), all_in_range(iter.rest()), area2(q0, p0, p1) != 0 || (p0 == q0 && iter.rest().len() == 0),
            forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] measure(w) ==> closed(w, g_pts) == w(q0, p0) + w(p0, p1) + chain(w, p1, iter.rest(), q0),
        decreases iter.rest().len()
//@ loop 1
        invariant
            in_range(p0), in_range(p1), in_range(q0), in_range(q1), all_in_range(iter.rest()),
            q0 == q1 ==> p0 == q0 && iter.rest().len() == 0,
            direct == g_d, invert == g_i, g_d != g_i,
            grown(g_old, segments@, g_d, g_i),
            forall|a: IntPoint, b: IntPoint| #[trigger] area2(a, a, b) == 0,
            forall|w: spec_fn(IntPoint, IntPoint) -> int, s: Seq<Segment<C>>, p: IntPoint, q: IntPoint|
                measure(w) && p != q ==> #[trigger] seg_ssum(w, s.push(directed(p, q, g_d, g_i)), g_d) == seg_ssum(w, s, g_d) + w(p, q),
            forall|o: Seq<Segment<C>>, s: Seq<Segment<C>>, p: IntPoint, q: IntPoint|
                grown(o, s, g_d, g_i) && p != q && in_range(p) && in_range(q) ==> #[trigger] grown(o, s.push(directed(p, q, g_d, g_i)), g_d, g_i),
            forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] measure(w) ==>
                closed(w, g_pts) == w(q0, q1) + (seg_ssum(w, segments@, g_d) - seg_ssum(w, g_old, g_d)) + w(p0, p1) + chain(w, p1, iter.rest(), q0),
        ensures
            in_range(p0), in_range(p1), iter.rest().len() == 0, grown(g_old, segments@, g_d, g_i),
            q0 == q1 ==> p0 == q0,
            forall|w: spec_fn(IntPoint, IntPoint) -> int| #[trigger] measure(w) ==>
                closed(w, g_pts) == w(q0, q1) + (seg_ssum(w, segments@, g_d) - seg_ssum(w, g_old, g_d)) + w(p0, p1) + w(p1, q0),
        decreases iter.rest().len()
//@ after_loop 1
    proof {
        if area2(p0, p1, q0) == 0 && area2(q0, q1, p1) == 0 && p1 != q0 { lemma_one_line(p0, p1, q0, q1); }
        lemma_area_cycle(q0, q1, p1);
        lemma_area_cycle(p0, p1, q0);
        lemma_area_cycle(p0, q0, q1);
    }
//@ endfn
} // verus!
fn main() {}
