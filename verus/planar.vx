// ---- edges cut at all their exact meetings meet only in their ends: the geometry ----
//@ import base.vx
//@ import cross_spec.vx
verus! {
pub open spec fn wedge(ux: int, uy: int, vx: int, vy: int) -> int { ux * vy - uy * vx }
pub open spec fn dx(a: IntPoint, b: IntPoint) -> int { b.x - a.x }
pub open spec fn dy(a: IntPoint, b: IntPoint) -> int { b.y - a.y }
// the side of p along the direction from a to b
pub open spec fn off_line(a: IntPoint, b: IntPoint, o: IntPoint, p: IntPoint) -> int { wedge(dx(a, b), dy(a, b), dx(o, p), dy(o, p)) }
pub proof fn lemma_area_crs(a: IntPoint, b: IntPoint, p: IntPoint)
    ensures area2(a, b, p) == -off_line(a, b, a, p)
{
    let (x, y, u, v) = (dx(a, b), dy(a, b), dx(a, p), dy(a, p));
    assert(b.y - p.y == y - v && b.x - p.x == x - u);
    assert(x * (y - v) - (x - u) * y == u * y - x * v) by (nonlinear_arith);
    assert(u * y == y * u) by (nonlinear_arith);
}
// parallel to a common direction, parallel to one another
pub proof fn lemma_par(ux: int, uy: int, vx: int, vy: int, wx: int, wy: int)
    requires wedge(ux, uy, wx, wy) == 0, wedge(vx, vy, wx, wy) == 0, wx != 0 || wy != 0
    ensures wedge(ux, uy, vx, vy) == 0
{
    assert(wx * (ux * vy - uy * vx) == 0 && wy * (ux * vy - uy * vx) == 0) by (nonlinear_arith)
        requires ux * wy - uy * wx == 0, vx * wy - vy * wx == 0;
    assert(ux * vy - uy * vx == 0) by (nonlinear_arith)
        requires wx * (ux * vy - uy * vx) == 0, wy * (ux * vy - uy * vx) == 0, wx != 0 || wy != 0;
}
pub proof fn lemma_crs_add(ux: int, uy: int, ax: int, ay: int, bx: int, by: int)
    ensures wedge(ux, uy, ax + bx, ay + by) == wedge(ux, uy, ax, ay) + wedge(ux, uy, bx, by), wedge(ux, uy, -ax, -ay) == -wedge(ux, uy, ax, ay), wedge(ux, uy, ax, ay) == -wedge(ax, ay, ux, uy)
{
    assert(ux * (ay + by) == ux * ay + ux * by && uy * (ax + bx) == uy * ax + uy * bx && ux * (-ay) == -(ux * ay) && uy * (-ax) == -(uy * ax) && ux * ay == ay * ux && uy * ax == ax * uy) by (nonlinear_arith);
}
pub open spec fn ahead(x: int, y: int) -> bool { x > 0 || x == 0 && y > 0 }
// two parallel vectors that lead the same way
pub proof fn lemma_same_way(vx: int, vy: int, wx: int, wy: int, yx: int, yy: int)
    requires wedge(vx, vy, wx, wy) == 0, ahead(vx, vy), ahead(wx, wy)
    ensures sgn(wedge(vx, vy, yx, yy)) == sgn(wedge(wx, wy, yx, yy))
{
    let (a, b) = (wedge(vx, vy, yx, yy), wedge(wx, wy, yx, yy));
    if vx > 0 {
        if wx == 0 { assert(vx * wy > 0) by (nonlinear_arith) requires vx > 0, wy > 0; assert(vy * wx == 0) by (nonlinear_arith) requires wx == 0; assert(false); }
        lemma_way(vx, vy, wx, wy, yx, yy);
        lemma_scaled(vx, b, wx, a);
    } else {
        assert(vy * wx == 0) by (nonlinear_arith) requires vx * wy - vy * wx == 0, vx == 0;
        assert(wx == 0) by (nonlinear_arith) requires vy * wx == 0, vy > 0;
        assert(vy * (wx * yy - wy * yx) == wy * (vx * yy - vy * yx)) by (nonlinear_arith) requires vx == 0, wx == 0;
        lemma_scaled(vy, b, wy, a);
    }
}
pub proof fn lemma_way(vx: int, vy: int, wx: int, wy: int, yx: int, yy: int)
    requires vx * wy - vy * wx == 0
    ensures vx * (wx * yy - wy * yx) == wx * (vx * yy - vy * yx)
{
    assert(vx * (wx * yy - wy * yx) - wx * (vx * yy - vy * yx) == -(vx * wy - vy * wx) * yx) by (nonlinear_arith);
    assert((vx * wy - vy * wx) * yx == 0) by (nonlinear_arith) requires vx * wy - vy * wx == 0;
    assert(-(vx * wy - vy * wx) * yx == -((vx * wy - vy * wx) * yx)) by (nonlinear_arith);
}
pub proof fn lemma_scaled(p: int, b: int, q: int, a: int)
    requires p > 0, q > 0, p * b == q * a
    ensures sgn(a) == sgn(b)
{
    assert(a > 0 ==> q * a > 0) by (nonlinear_arith) requires q > 0;
    assert(a < 0 ==> q * a < 0) by (nonlinear_arith) requires q > 0;
    assert(a == 0 ==> q * a == 0) by (nonlinear_arith);
    assert(b > 0 ==> p * b > 0) by (nonlinear_arith) requires p > 0;
    assert(b < 0 ==> p * b < 0) by (nonlinear_arith) requires p > 0;
    assert(b == 0 ==> p * b == 0) by (nonlinear_arith);
}
pub open spec fn on_line(p: IntPoint, s: XSegment) -> bool { area2(s.a, s.b, p) == 0 }
// between two points of the line the direction is that of the line
pub proof fn lemma_along(s: XSegment, p: IntPoint, q: IntPoint)
    requires on_line(p, s), on_line(q, s)
    ensures off_line(s.a, s.b, p, q) == 0, off_line(p, q, s.a, s.b) == 0
{
    lemma_area_crs(s.a, s.b, p);
    lemma_area_crs(s.a, s.b, q);
    let (ux, uy) = (dx(s.a, s.b), dy(s.a, s.b));
    lemma_crs_add(ux, uy, dx(s.a, p), dy(s.a, p), dx(p, q), dy(p, q));
    lemma_crs_add(ux, uy, dx(p, q), dy(p, q), 0, 0);
}
pub proof fn lemma_ends_on(s: XSegment)
    ensures on_line(s.a, s), on_line(s.b, s)
{
    lemma_area_crs(s.a, s.b, s.a);
    lemma_area_crs(s.a, s.b, s.b);
    assert(dx(s.a, s.b) * dy(s.a, s.b) == dy(s.a, s.b) * dx(s.a, s.b)) by (nonlinear_arith);
    assert(dx(s.a, s.b) * 0 == 0 && dy(s.a, s.b) * 0 == 0);
}
// a point of the line of a part of the line
pub proof fn lemma_part_line(s: XSegment, p: XSegment, e: IntPoint)
    requires pt_lt(p.a, p.b), on_line(p.a, s), on_line(p.b, s), on_line(e, p)
    ensures on_line(e, s)
{
    let (ux, uy, wx, wy, ex, ey) = (dx(s.a, s.b), dy(s.a, s.b), dx(p.a, p.b), dy(p.a, p.b), dx(p.a, e), dy(p.a, e));
    lemma_along(s, p.a, p.b);
    lemma_area_crs(p.a, p.b, e);
    lemma_crs_add(ex, ey, wx, wy, 0, 0);
    lemma_par(ux, uy, ex, ey, wx, wy);
    lemma_area_crs(s.a, s.b, p.a);
    lemma_area_crs(s.a, s.b, e);
    lemma_crs_add(ux, uy, dx(s.a, p.a), dy(s.a, p.a), ex, ey);
}
// two lines with two common points are one
pub proof fn lemma_common(s: XSegment, o: XSegment, e: IntPoint, c: IntPoint)
    requires pt_lt(s.a, s.b), pt_lt(o.a, o.b), on_line(e, s), on_line(e, o), on_line(c, s), on_line(c, o), e != c
    ensures all_collinear(s, o)
{
    let (ux, uy, vx, vy) = (dx(s.a, s.b), dy(s.a, s.b), dx(o.a, o.b), dy(o.a, o.b));
    let (wx, wy) = (dx(e, c), dy(e, c));
    lemma_along(s, e, c);
    lemma_along(o, e, c);
    lemma_par(ux, uy, vx, vy, wx, wy);
    lemma_one_line(s, o, e);
}
pub proof fn lemma_one_line(s: XSegment, o: XSegment, e: IntPoint)
    requires pt_lt(s.a, s.b), pt_lt(o.a, o.b), on_line(e, s), on_line(e, o), wedge(dx(s.a, s.b), dy(s.a, s.b), dx(o.a, o.b), dy(o.a, o.b)) == 0
    ensures all_collinear(s, o)
{
    let (ux, uy, vx, vy) = (dx(s.a, s.b), dy(s.a, s.b), dx(o.a, o.b), dy(o.a, o.b));
    lemma_crs_add(ux, uy, vx, vy, 0, 0);
    lemma_ends_on(s);
    lemma_ends_on(o);
    lemma_on_parallel(s, o, e, o.a);
    lemma_on_parallel(s, o, e, o.b);
    lemma_on_parallel(o, s, e, s.a);
    lemma_on_parallel(o, s, e, s.b);
}
pub proof fn lemma_on_parallel(s: XSegment, o: XSegment, e: IntPoint, q: IntPoint)
    requires pt_lt(s.a, s.b), pt_lt(o.a, o.b), on_line(e, s), on_line(e, o), on_line(q, o), wedge(dx(s.a, s.b), dy(s.a, s.b), dx(o.a, o.b), dy(o.a, o.b)) == 0
    ensures on_line(q, s)
{
    let (ux, uy, vx, vy) = (dx(s.a, s.b), dy(s.a, s.b), dx(o.a, o.b), dy(o.a, o.b));
    lemma_along(o, e, q);
    lemma_crs_add(vx, vy, dx(e, q), dy(e, q), 0, 0);
    lemma_par(ux, uy, dx(e, q), dy(e, q), vx, vy);
    lemma_area_crs(s.a, s.b, e);
    lemma_area_crs(s.a, s.b, q);
    lemma_crs_add(ux, uy, dx(s.a, e), dy(s.a, e), dx(e, q), dy(e, q));
}
// along a line one moves to one side of another line, or along it
pub open spec fn drift(s: XSegment, o: XSegment) -> int { wedge(dx(o.a, o.b), dy(o.a, o.b), dx(s.a, s.b), dy(s.a, s.b)) }
pub proof fn lemma_drift(s: XSegment, o: XSegment, p: IntPoint, q: IntPoint)
    requires pt_lt(s.a, s.b), on_line(p, s), on_line(q, s), pt_lt(p, q)
    ensures sgn(area2(o.a, o.b, p) - area2(o.a, o.b, q)) == sgn(drift(s, o))
{
    let (ux, uy, vx, vy, wx, wy) = (dx(s.a, s.b), dy(s.a, s.b), dx(o.a, o.b), dy(o.a, o.b), dx(p, q), dy(p, q));
    lemma_area_crs(o.a, o.b, p);
    lemma_area_crs(o.a, o.b, q);
    lemma_crs_add(vx, vy, dx(o.a, p), dy(o.a, p), wx, wy);
    lemma_along(s, p, q);
    lemma_same_way(ux, uy, wx, wy, vx, vy);
    lemma_crs_add(vx, vy, wx, wy, 0, 0);
    lemma_crs_add(vx, vy, ux, uy, 0, 0);
}
// the sides seen from a part of a line
pub proof fn lemma_part_side(o: XSegment, q: XSegment, x: IntPoint)
    requires pt_lt(o.a, o.b), pt_lt(q.a, q.b), on_line(q.a, o), on_line(q.b, o)
    ensures sgn(area2(q.a, q.b, x)) == sgn(area2(o.a, o.b, x))
{
    let (vx, vy, wx, wy) = (dx(o.a, o.b), dy(o.a, o.b), dx(q.a, q.b), dy(q.a, q.b));
    lemma_area_crs(o.a, o.b, x);
    lemma_area_crs(o.a, o.b, q.a);
    lemma_area_crs(q.a, q.b, x);
    lemma_along(o, q.a, q.b);
    lemma_same_way(vx, vy, wx, wy, dx(q.a, x), dy(q.a, x));
    lemma_crs_add(vx, vy, dx(o.a, q.a), dy(o.a, q.a), dx(q.a, x), dy(q.a, x));
}
pub open spec fn le_pt(a: IntPoint, b: IntPoint) -> bool { a == b || pt_lt(a, b) }
// p is a part of s
pub open spec fn part_of_seg(p: XSegment, s: XSegment) -> bool {
    pt_lt(s.a, s.b) && pt_lt(p.a, p.b) && on_line(p.a, s) && on_line(p.b, s) && le_pt(s.a, p.a) && le_pt(p.b, s.b)
}
pub proof fn lemma_part_inside(s: XSegment, p: XSegment, e: IntPoint)
    requires part_of_seg(p, s), inside(e, p)
    ensures inside(e, s)
{
    lemma_part_line(s, p, e);
}
// if parts cross, the segments do
pub proof fn lemma_parts_opposite(s: XSegment, o: XSegment, p: XSegment, q: XSegment)
    requires part_of_seg(p, s), part_of_seg(q, o), opposite(area2(q.a, q.b, p.a), area2(q.a, q.b, p.b))
    ensures
        opposite(area2(o.a, o.b, p.a), area2(o.a, o.b, p.b)), opposite(area2(o.a, o.b, s.a), area2(o.a, o.b, s.b)),
        // and not where p ends
        forall|c: IntPoint| on_line(c, s) && #[trigger] on_line(c, o) ==> pt_lt(p.a, c) && pt_lt(c, p.b)
{
    lemma_part_side(o, q, p.a);
    lemma_part_side(o, q, p.b);
    lemma_drift(s, o, p.a, p.b);
    lemma_ends_on(s);
    if s.a != p.a { lemma_drift(s, o, s.a, p.a); }
    if s.b != p.b { lemma_drift(s, o, p.b, s.b); }
    assert forall|c: IntPoint| on_line(c, s) && #[trigger] on_line(c, o) implies pt_lt(p.a, c) && pt_lt(c, p.b) by {
        if !pt_lt(p.a, c) { if c != p.a { lemma_drift(s, o, c, p.a); } }
        if !pt_lt(c, p.b) { if c != p.b { lemma_drift(s, o, p.b, c); } }
    }
}
pub proof fn lemma_parts_cross(s: XSegment, o: XSegment, p: XSegment, q: XSegment)
    requires part_of_seg(p, s), part_of_seg(q, o), proper_cross(p, q)
    ensures proper_cross(s, o), forall|c: IntPoint| on_line(c, s) && #[trigger] on_line(c, o) ==> pt_lt(p.a, c) && pt_lt(c, p.b)
{
    lemma_parts_opposite(s, o, p, q);
    lemma_parts_opposite(o, s, q, p);
}
// a point of both lines, where they cross
pub proof fn lemma_cross_inside(s: XSegment, o: XSegment, c: IntPoint)
    requires pt_lt(s.a, s.b), proper_cross(s, o), on_line(c, s), on_line(c, o)
    ensures inside(c, s)
{
    lemma_ends_on(s);
    lemma_drift(s, o, s.a, s.b);
    if !pt_lt(s.a, c) { if c != s.a { lemma_drift(s, o, c, s.a); } }
    if !pt_lt(c, s.b) { if c != s.b { lemma_drift(s, o, s.b, c); } }
}
// two segments whose insides hold a common point, not on one line, cross
pub proof fn lemma_inside_cross(s: XSegment, o: XSegment, e: IntPoint)
    requires inside(e, s), inside(e, o), !all_collinear(s, o)
    ensures proper_cross(s, o)
{
    lemma_inside_opposite(s, o, e);
    if all_collinear(o, s) { assert(all_collinear(s, o)); }
    lemma_inside_opposite(o, s, e);
}
pub proof fn lemma_inside_opposite(s: XSegment, o: XSegment, e: IntPoint)
    requires inside(e, s), inside(e, o), !all_collinear(s, o)
    ensures opposite(area2(o.a, o.b, s.a), area2(o.a, o.b, s.b))
{
    lemma_ends_on(s);
    lemma_drift(s, o, s.a, e);
    lemma_drift(s, o, e, s.b);
    if drift(s, o) == 0 {
        lemma_crs_add(dx(o.a, o.b), dy(o.a, o.b), dx(s.a, s.b), dy(s.a, s.b), 0, 0);
        lemma_one_line(s, o, e);
    }
}
// the edges do not meet but in their ends
pub open spec fn apart(t: XSegment, o: XSegment) -> bool {
    !proper_cross(t, o) && !inside(o.a, t) && !inside(o.b, t) && !inside(t.a, o) && !inside(t.b, o)
}
// boxes apart, edges apart: along one axis all of o lies beyond all of t
pub proof fn lemma_beyond(d: int, f: int, g: int, u: int, v: int, w: int)
    requires d * w == g * u + f * v, 0 < w, u < w, 0 < w + v, u < w + v, opposite(f, f + d), opposite(g, g - d)
    ensures false
{
    let m = max2(0, u);
    if d > 0 {
        let k = -f;
        assert(0 < k < d && 0 < g < d);
        assert((d - k) * w >= (d - k) * (m + 1)) by (nonlinear_arith) requires w >= m + 1, d - k >= 0;
        assert(k * (w + v) >= k * (m + 1)) by (nonlinear_arith) requires w + v >= m + 1, k >= 0;
        assert(g * u <= d * m) by (nonlinear_arith) requires 0 < g < d, m >= 0, m >= u;
        assert((d - k) * w + k * (w + v) == d * w + k * v) by (nonlinear_arith);
        assert((d - k) * (m + 1) + k * (m + 1) == d * (m + 1)) by (nonlinear_arith);
        assert(k * v == -(f * v)) by (nonlinear_arith) requires k == -f;
        assert(d * (m + 1) == d * m + d) by (nonlinear_arith);
    } else {
        let (e, k, h) = (-d, f, -g);
        assert(0 < k < e && 0 < h < e);
        assert((e - k) * w >= (e - k) * (m + 1)) by (nonlinear_arith) requires w >= m + 1, e - k >= 0;
        assert(k * (w + v) >= k * (m + 1)) by (nonlinear_arith) requires w + v >= m + 1, k >= 0;
        assert(h * u <= e * m) by (nonlinear_arith) requires 0 < h < e, m >= 0, m >= u;
        assert((e - k) * w + k * (w + v) == e * w + k * v) by (nonlinear_arith);
        assert((e - k) * (m + 1) + k * (m + 1) == e * (m + 1)) by (nonlinear_arith);
        assert(e * w == -(d * w)) by (nonlinear_arith) requires e == -d;
        assert(h * u == -(g * u)) by (nonlinear_arith) requires h == -g;
        assert(e * (m + 1) == e * m + e) by (nonlinear_arith);
    }
}
pub proof fn lemma_cramer(ux: int, uy: int, vx: int, vy: int, wx: int, wy: int)
    ensures
        (ux * vy - uy * vx) * wx == (vy * wx - vx * wy) * ux + (ux * wy - uy * wx) * vx,
        (ux * vy - uy * vx) * wy == (vy * wx - vx * wy) * uy + (ux * wy - uy * wx) * vy
{
    assert((ux * vy - uy * vx) * wx == (vy * wx - vx * wy) * ux + (ux * wy - uy * wx) * vx) by (nonlinear_arith);
    assert((ux * vy - uy * vx) * wy == (vy * wx - vx * wy) * uy + (ux * wy - uy * wx) * vy) by (nonlinear_arith);
}
pub proof fn lemma_cross_ratio(t: XSegment, o: XSegment)
    requires proper_cross(t, o)
    ensures ({
        let (ux, uy, vx, vy, wx, wy) = (dx(t.a, t.b), dy(t.a, t.b), dx(o.a, o.b), dy(o.a, o.b), dx(t.a, o.a), dy(t.a, o.a));
        let (d, f, g) = (wedge(ux, uy, vx, vy), wedge(ux, uy, wx, wy), wedge(vx, vy, -wx, -wy));
        d * wx == g * ux + f * vx && d * wy == g * uy + f * vy && opposite(f, f + d) && opposite(g, g - d)
    })
{
    let (ux, uy, vx, vy, wx, wy) = (dx(t.a, t.b), dy(t.a, t.b), dx(o.a, o.b), dy(o.a, o.b), dx(t.a, o.a), dy(t.a, o.a));
    let (d, f, g) = (wedge(ux, uy, vx, vy), wedge(ux, uy, wx, wy), wedge(vx, vy, -wx, -wy));
    lemma_area_crs(t.a, t.b, o.a);
    lemma_area_crs(t.a, t.b, o.b);
    lemma_area_crs(o.a, o.b, t.a);
    lemma_area_crs(o.a, o.b, t.b);
    lemma_crs_add(ux, uy, wx, wy, vx, vy);
    lemma_crs_add(vx, vy, -wx, -wy, ux, uy);
    lemma_crs_add(vx, vy, ux, uy, 0, 0);
    assert(vx * (-wy) == -(vx * wy) && vy * (-wx) == -(vy * wx)) by (nonlinear_arith);
    lemma_cramer(ux, uy, vx, vy, wx, wy);
    assert(g == vy * wx - vx * wy);
}
pub proof fn lemma_neg(d: int, f: int, g: int, u: int, v: int, w: int)
    requires d * w == g * u + f * v
    ensures d * (-w) == g * (-u) + f * (-v)
{
    assert(d * (-w) == -(d * w) && g * (-u) == -(g * u) && f * (-v) == -(f * v)) by (nonlinear_arith);
}
pub proof fn lemma_apart_x(t: XSegment, o: XSegment)
    requires pt_lt(t.a, t.b), pt_lt(o.a, o.b), t.b.x < o.a.x
    ensures apart(t, o)
{
    if proper_cross(t, o) {
        lemma_cross_ratio(t, o);
        let (ux, uy, vx, vy, wx, wy) = (dx(t.a, t.b), dy(t.a, t.b), dx(o.a, o.b), dy(o.a, o.b), dx(t.a, o.a), dy(t.a, o.a));
        lemma_beyond(wedge(ux, uy, vx, vy), wedge(ux, uy, wx, wy), wedge(vx, vy, -wx, -wy), ux, vx, wx);
    }
}
pub open spec fn y_min(s: XSegment) -> int { min2(s.a.y as int, s.b.y as int) }
pub open spec fn y_max(s: XSegment) -> int { max2(s.a.y as int, s.b.y as int) }
pub proof fn lemma_apart_y(t: XSegment, o: XSegment)
    requires pt_lt(t.a, t.b), pt_lt(o.a, o.b), y_max(t) < y_min(o) || y_max(o) < y_min(t)
    ensures apart(t, o)
{
    if proper_cross(t, o) {
        lemma_cross_ratio(t, o);
        let (ux, uy, vx, vy, wx, wy) = (dx(t.a, t.b), dy(t.a, t.b), dx(o.a, o.b), dy(o.a, o.b), dx(t.a, o.a), dy(t.a, o.a));
        let (d, f, g) = (wedge(ux, uy, vx, vy), wedge(ux, uy, wx, wy), wedge(vx, vy, -wx, -wy));
        if y_max(t) < y_min(o) { lemma_beyond(d, f, g, uy, vy, wy); }
        else { lemma_neg(d, f, g, uy, vy, wy); lemma_beyond(d, f, g, -uy, -vy, -wy); }
    }
    if inside(o.a, t) { lemma_inside_y(o.a, t); }
    if inside(o.b, t) { lemma_inside_y(o.b, t); }
    if inside(t.a, o) { lemma_inside_y(t.a, o); }
    if inside(t.b, o) { lemma_inside_y(t.b, o); }
}
pub proof fn lemma_inside_y(p: IntPoint, s: XSegment)
    requires inside(p, s)
    ensures y_min(s) <= p.y <= y_max(s), s.a.x <= p.x <= s.b.x
{
    let (ux, uy, ex, ey) = (dx(s.a, s.b), dy(s.a, s.b), dx(s.a, p), dy(s.a, p));
    lemma_area_crs(s.a, s.b, p);
    // ux * ey == uy * ex, 0 <= ex <= ux
    if ux > 0 {
        if uy >= 0 {
            assert(0 <= ey <= uy) by (nonlinear_arith) requires ux * ey - uy * ex == 0, ux > 0, 0 <= ex <= ux, uy >= 0;
        } else {
            assert(uy <= ey <= 0) by (nonlinear_arith) requires ux * ey - uy * ex == 0, ux > 0, 0 <= ex <= ux, uy < 0;
        }
    }
}
}
fn main() {}
