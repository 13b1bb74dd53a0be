// ---- crossing predicates over exact integers ----
verus! {

pub open spec fn o1(t: XSegment, o: XSegment) -> int { area2(t.a, t.b, o.a) }
pub open spec fn o2(t: XSegment, o: XSegment) -> int { area2(t.a, t.b, o.b) }
pub open spec fn o3(t: XSegment, o: XSegment) -> int { area2(o.a, o.b, t.a) }
pub open spec fn o4(t: XSegment, o: XSegment) -> int { area2(o.a, o.b, t.b) }

pub open spec fn opposite(a: int, b: int) -> bool { (a > 0 && b < 0) || (a < 0 && b > 0) }

// the open segments cross in one point that is interior to both
pub open spec fn proper_cross(t: XSegment, o: XSegment) -> bool {
    opposite(o1(t, o), o2(t, o)) && opposite(o3(t, o), o4(t, o))
}
pub open spec fn all_collinear(t: XSegment, o: XSegment) -> bool {
    o1(t, o) == 0 && o2(t, o) == 0 && o3(t, o) == 0 && o4(t, o) == 0
}
// p lies on s, strictly between its ends
pub open spec fn inside(p: IntPoint, s: XSegment) -> bool {
    area2(s.a, s.b, p) == 0 && pt_lt(s.a, p) && pt_lt(p, s.b)
}
pub open spec fn on_closed(p: IntPoint, s: XSegment) -> bool {
    area2(s.a, s.b, p) == 0 && (s.a == p || pt_lt(s.a, p)) && (p == s.b || pt_lt(p, s.b))
}
// an end of one segment is interior to the other, non parallel segment
pub open spec fn touch(t: XSegment, o: XSegment) -> bool {
    !all_collinear(t, o) && (inside(o.a, t) || inside(o.b, t) || inside(t.a, o) || inside(t.b, o))
}

pub open spec fn min2(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max2(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn in_box(p: IntPoint, s: XSegment) -> bool {
    min2(s.a.x as int, s.b.x as int) <= p.x <= max2(s.a.x as int, s.b.x as int)
    && min2(s.a.y as int, s.b.y as int) <= p.y <= max2(s.a.y as int, s.b.y as int)
}

// exact crossing of the two lines: P = t.a + (t.b - t.a) * num / den
pub open spec fn x_num(t: XSegment, o: XSegment) -> int {
    (o.a.x - t.a.x) * (o.b.y - t.a.y) - (o.a.y - t.a.y) * (o.b.x - t.a.x)
}
pub open spec fn x_den(t: XSegment, o: XSegment) -> int {
    (t.b.y - t.a.y) * (o.a.x - o.b.x) - (t.b.x - t.a.x) * (o.a.y - o.b.y)
}
// error of p against the exact crossing, scaled by x_den
pub open spec fn x_err(p: IntPoint, t: XSegment, o: XSegment) -> int {
    (p.x - t.a.x) * x_den(t, o) - (t.b.x - t.a.x) * x_num(t, o)
}
pub open spec fn y_err(p: IntPoint, t: XSegment, o: XSegment) -> int {
    (p.y - t.a.y) * x_den(t, o) - (t.b.y - t.a.y) * x_num(t, o)
}
// p is less than one unit away from the exact crossing in x and in y
pub open spec fn near_cross(p: IntPoint, t: XSegment, o: XSegment) -> bool {
    iabs(x_err(p, t, o)) < iabs(x_den(t, o)) && iabs(y_err(p, t, o)) < iabs(x_den(t, o))
}

} // verus!
