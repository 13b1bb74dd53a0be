// ---- the ends that lie on a vertical edge along the border of a column ----
#![feature(allocator_api)]
//@ import split.vx
//@ import grid.vx
verus! {
pub open spec fn int_ord2(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
// the end of f lies within the height of v
pub open spec fn on_height(v: BorderVSegment, p: IntPoint) -> bool { v.y_range.min < p.y < v.y_range.max }
pub open spec fn border_mark(m: LineMark, v: BorderVSegment, p: IntPoint) -> bool { m == (LineMark { index: v.id, point: p }) && on_height(v, p) }
pub open spec fn end_at(s: Seq<Fragment>, x: int, p: IntPoint) -> bool { p.x == x && exists|q: int| 0 <= q < s.len() && p == (#[trigger] s[q]).x_segment.b }
pub open spec fn some_border(s: Seq<Fragment>, x: int, vs: Seq<BorderVSegment>, n: int, m: LineMark) -> bool {
    exists|v: int, p: IntPoint| 0 <= v < n && #[trigger] border_mark(m, vs[v], p) && end_at(s, x, p)
}
// the marks n are those of the ends at x strictly within the height of one of the first k edges
pub open spec fn borders(s: Seq<Fragment>, x: int, vs: Seq<BorderVSegment>, k: int, n: Seq<LineMark>) -> bool {
    &&& forall|m: LineMark| #[trigger] n.contains(m) ==> some_border(s, x, vs, k, m)
    &&& forall|m: LineMark| #[trigger] some_border(s, x, vs, k, m) ==> n.contains(m)
}
pub open spec fn pts_at(s: Seq<Fragment>, x: int, pts: Seq<IntPoint>) -> bool { forall|p: IntPoint| #[trigger] pts.contains(p) <==> end_at(s, x, p) }
pub open spec fn by_y(s: Seq<IntPoint>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).y <= (#[trigger] s[j]).y }
pub open spec fn by_low(s: Seq<BorderVSegment>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).y_range.min <= (#[trigger] s[j]).y_range.min }
// std: sorts by the given comparison
#[verifier::external_body]
pub fn sort_pts<F: Fn(&IntPoint, &IntPoint) -> Ordering>(v: &mut Vec<IntPoint>, compare: F)
    requires
        forall|a: &IntPoint, b: &IntPoint| #[trigger] compare.requires((a, b)),
        forall|a: &IntPoint, b: &IntPoint, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> o == int_ord2(a.y as int, b.y as int)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), by_y(final(v)@)
{ unimplemented!() }
#[verifier::external_body]
pub fn sort_borders<F: Fn(&BorderVSegment, &BorderVSegment) -> Ordering>(v: &mut [BorderVSegment], compare: F)
    requires
        forall|a: &BorderVSegment, b: &BorderVSegment| #[trigger] compare.requires((a, b)),
        forall|a: &BorderVSegment, b: &BorderVSegment, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> o == int_ord2(a.y_range.min as int, b.y_range.min as int)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), by_low(final(v)@)
{ unimplemented!() }
pub proof fn lemma_perm_contains<T>(a: Seq<T>, b: Seq<T>)
    requires a.to_multiset() == b.to_multiset()
    ensures forall|t: T| #![trigger a.contains(t)] #![trigger b.contains(t)] a.contains(t) <==> b.contains(t), a.len() == b.len()
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|t: T| #[trigger] a.contains(t) <==> b.contains(t) by {
        assert(a.to_multiset().count(t) > 0 <==> a.contains(t));
        assert(b.to_multiset().count(t) > 0 <==> b.contains(t));
    }
}
// the order of the edges does not matter
pub proof fn lemma_borders_perm(s: Seq<Fragment>, x: int, a: Seq<BorderVSegment>, b: Seq<BorderVSegment>, n: Seq<LineMark>)
    requires borders(s, x, b, b.len() as int, n), a.to_multiset() == b.to_multiset()
    ensures borders(s, x, a, a.len() as int, n)
{
    lemma_perm_contains(a, b);
    assert forall|m: LineMark| #![trigger some_border(s, x, a, a.len() as int, m)] #![trigger some_border(s, x, b, b.len() as int, m)] some_border(s, x, a, a.len() as int, m) <==> some_border(s, x, b, b.len() as int, m) by {
        if some_border(s, x, a, a.len() as int, m) {
            let (v, p) = choose|v: int, p: IntPoint| 0 <= v < a.len() && #[trigger] border_mark(m, a[v], p) && end_at(s, x, p);
            assert(a.contains(a[v]));
            assert(b.contains(a[v]));
            let w = choose|w: int| 0 <= w < b.len() && b[w] == a[v];
            assert(border_mark(m, b[w], p));
        }
        if some_border(s, x, b, b.len() as int, m) {
            let (v, p) = choose|v: int, p: IntPoint| 0 <= v < b.len() && #[trigger] border_mark(m, b[v], p) && end_at(s, x, p);
            assert(b.contains(b[v]));
            assert(a.contains(b[v]));
            let w = choose|w: int| 0 <= w < a.len() && a[w] == b[v];
            assert(border_mark(m, a[w], p));
        }
    }
}
// one edge more: n gains the points i ..< j of the sorted points
pub open spec fn gains(n0: Seq<LineMark>, n1: Seq<LineMark>, v: BorderVSegment, pts: Seq<IntPoint>, i: int, j: int) -> bool {
    n1.len() == n0.len() + j - i && forall|q: int| 0 <= q < n1.len() ==> #[trigger] n1[q] == if q < n0.len() { n0[q] } else { LineMark { index: v.id, point: pts[i + q - n0.len()] } }
}
pub proof fn lemma_borders_step(s: Seq<Fragment>, x: int, vs: Seq<BorderVSegment>, k: int, n0: Seq<LineMark>, n1: Seq<LineMark>, pts: Seq<IntPoint>, i: int, j: int)
    requires
        borders(s, x, vs, k, n0), 0 <= k < vs.len(), 0 <= i <= j <= pts.len(), gains(n0, n1, vs[k], pts, i, j), pts_at(s, x, pts),
        forall|q: int| 0 <= q < pts.len() ==> (i <= q < j <==> on_height(vs[k], #[trigger] pts[q]))
    ensures borders(s, x, vs, k + 1, n1)
{
    assert forall|m: LineMark| #[trigger] n1.contains(m) implies some_border(s, x, vs, k + 1, m) by {
        let q = choose|q: int| 0 <= q < n1.len() && n1[q] == m;
        if q < n0.len() {
            assert(n0[q] == m);
            assert(n0.contains(m));
            let (v, p) = choose|v: int, p: IntPoint| 0 <= v < k && #[trigger] border_mark(m, vs[v], p) && end_at(s, x, p);
            assert(border_mark(m, vs[v], p));
        } else {
            let p = pts[i + q - n0.len()];
            assert(pts.contains(p));
            assert(border_mark(m, vs[k], p));
        }
    }
    assert forall|m: LineMark| #[trigger] some_border(s, x, vs, k + 1, m) implies n1.contains(m) by {
        let (v, p) = choose|v: int, p: IntPoint| 0 <= v < k + 1 && #[trigger] border_mark(m, vs[v], p) && end_at(s, x, p);
        if v < k {
            assert(some_border(s, x, vs, k, m));
            let q = choose|q: int| 0 <= q < n0.len() && n0[q] == m;
            assert(n1[q] == m);
        } else {
            assert(pts.contains(p));
            let q = choose|q: int| 0 <= q < pts.len() && pts[q] == p;
            assert(i <= q < j);
            assert(n1[n0.len() + q - i] == m);
        }
    }
}
pub proof fn lemma_no_points(s: Seq<Fragment>, x: int, vs: Seq<BorderVSegment>, pts: Seq<IntPoint>, n: int)
    requires n == 0 || pts_at(s, x, pts) && pts.len() == 0
    ensures borders(s, x, vs, n, Seq::empty())
{
    assert forall|m: LineMark| #[trigger] some_border(s, x, vs, n, m) implies false by {
        let (v, p) = choose|v: int, p: IntPoint| 0 <= v < n && #[trigger] border_mark(m, vs[v], p) && end_at(s, x, p);
        if n > 0 { assert(pts.contains(p)); }
    }
}
pub open spec fn ends_to(s: Seq<Fragment>, x: int, k: int, pts: Seq<IntPoint>) -> bool { pts_at(s.take(k), x, pts) }
pub proof fn lemma_ends_step(s: Seq<Fragment>, x: int, k: int, p0: Seq<IntPoint>, p1: Seq<IntPoint>)
    requires 0 <= k < s.len(), ends_to(s, x, k, p0), p1 == if s[k].x_segment.b.x == x { p0.push(s[k].x_segment.b) } else { p0 }
    ensures ends_to(s, x, k + 1, p1)
{
    let (t0, t1) = (s.take(k), s.take(k + 1));
    assert forall|p: IntPoint| #[trigger] p1.contains(p) <==> end_at(t1, x, p) by {
        if p1.contains(p) {
            let q = choose|q: int| 0 <= q < p1.len() && p1[q] == p;
            if q < p0.len() {
                assert(p0[q] == p);
                assert(p0.contains(p));
                let z = choose|z: int| 0 <= z < t0.len() && p == (#[trigger] t0[z]).x_segment.b;
                assert(t1[z] == t0[z]);
            } else { assert(t1[k] == s[k]); }
        }
        if end_at(t1, x, p) {
            let z = choose|z: int| 0 <= z < t1.len() && p == (#[trigger] t1[z]).x_segment.b;
            if z < k {
                assert(t0[z] == t1[z]);
                assert(end_at(t0, x, p));
                assert(p0.contains(p));
                let q = choose|q: int| 0 <= q < p0.len() && p0[q] == p;
                assert(p1[q] == p);
            } else { assert(p1[p0.len() as int] == p); }
        }
    }
}
impl SplitSolver {
//@ fn split/solver_fragment.rs SplitSolver on_border_split
//@ index_loops
//@ attr #[verifier::loop_isolation(false)]
//@ sub <<<let mut points = Vec::new();>>> <<<let mut points: Vec<IntPoint> = Vec::new(); let ghost (b0, v0, bx) = (marks@, vertical_segments@, border_x as int); proof { assert(fragments@.take(0) =~= Seq::empty()); }>>>
//@ sub <<<points.sort_unstable_by(|$A, $B| $C);>>> <<<let ghost p9 = points@; sort_pts(&mut points, |$A: &IntPoint, $B: &IntPoint| -> (o: Ordering) ensures o == int_ord2($A.y as int, $B.y as int) { $C }); proof { lemma_perm_contains(p9, points@); assert(pts_at(fragments@, bx, p9)); assert(pts_at(fragments@, bx, points@)); }>>>
//@ sub <<<vertical_segments.sort_by(|$A, $B| $C);>>> <<<sort_borders(vertical_segments, |$A: &BorderVSegment, $B: &BorderVSegment| -> (o: Ordering) ensures o == int_ord2($A.y_range.min as int, $B.y_range.min as int) { $C }); proof { assert(b0.take(b0.len() as int) =~= b0); assert(tail(b0, b0) =~= Seq::empty()); lemma_no_points(fragments@, bx, vertical_segments@, points@, 0); }>>>
//@ sub <<<if points.is_empty() {>>> <<<proof { assert(fragments@.take(fragments@.len() as int) =~= fragments@); assert(b0.take(b0.len() as int) =~= b0); assert(tail(b0, b0) =~= Seq::empty()); if points@.len() == 0 { lemma_no_points(fragments@, bx, v0, points@, v0.len() as int); } } if points.is_empty() {>>>
//@ spec
        ensures
            extends(final(marks)@, old(marks)@), final(vertical_segments)@.to_multiset() == old(vertical_segments)@.to_multiset(),
            borders(fragments@, border_x as int, old(vertical_segments)@, old(vertical_segments)@.len() as int, tail(final(marks)@, old(marks)@))
//@ loop 0
            invariant ends_to(fragments@, bx, it0 as int, points@), marks@ == b0, vertical_segments@ == v0
//@ loopbody 0
            let ghost p0 = points@;
//@ loopend 0
            proof { lemma_ends_step(fragments@, bx, it0 as int, p0, points@); }
//@ loop 1
            invariant
                i <= points@.len(), extends(marks@, b0), borders(fragments@, bx, vertical_segments@, it1 as int, tail(marks@, b0)),
                forall|q: int| 0 <= q < i ==> it1 > 0 && (#[trigger] points@[q]).y <= vertical_segments@[it1 - 1].y_range.min
//@ loopbody 1
            let ghost m1 = marks@;
//@ loop 2
                invariant i <= points@.len(), forall|q: int| 0 <= q < i ==> (#[trigger] points@[q]).y <= vertical_segments@[it1 as int].y_range.min
                decreases points@.len() - i
//@ loop 3
                invariant
                    i <= j <= points@.len(), marks@.len() == m1.len() + j - i, forall|q: int| i <= q < j ==> (#[trigger] points@[q]).y < vertical_segments@[it1 as int].y_range.max,
                    forall|q: int| 0 <= q < marks@.len() ==> #[trigger] marks@[q] == if q < m1.len() { m1[q] } else { LineMark { index: s.id, point: points@[i + q - m1.len()] } }
                decreases points@.len() - j
//@ loopend 1
            proof {
                let (n0, n1) = (tail(m1, b0), tail(marks@, b0));
                assert(marks@.take(b0.len() as int) =~= m1.take(b0.len() as int));
                assert(gains(n0, n1, vertical_segments@[it1 as int], points@, i as int, j as int));
                lemma_borders_step(fragments@, bx, vertical_segments@, it1 as int, n0, n1, points@, i as int, j as int);
            }
//@ after_loop 1
        proof { lemma_borders_perm(fragments@, bx, v0, vertical_segments@, tail(marks@, b0)); }
//@ endfn
}
}
fn main() {}
