// ---- segments of a sweep: which of two is below the other ----
verus! {
//@ item geom/v_segment.rs struct VSegment
pub open spec fn way_of(s: VSegment) -> FixVec { diff(s.b, s.a) }
pub open spec fn vs_ok(s: VSegment) -> bool { in_range(s.a) && in_range(s.b) && pt_lt(s.a, s.b) }
// where the later of the two starts, s is below o
// (and when it starts on the other: where it ends)
pub open spec fn side(a: IntPoint, p: IntPoint, q: IntPoint, b: IntPoint) -> int { if area2(a, p, b) != 0 { area2(a, p, b) } else { area2(a, q, b) } }
pub open spec fn side_of(a: IntPoint, b: IntPoint, p: IntPoint, q: IntPoint) -> int { if area2(a, b, p) != 0 { area2(a, b, p) } else { area2(a, b, q) } }
pub open spec fn drop_of(s: VSegment, o: VSegment) -> int {
    if pt_lt(s.a, o.a) { side(s.a, o.a, o.b, s.b) } else if s.a == o.a { area2(s.a, o.b, s.b) } else { side_of(o.a, o.b, s.a, s.b) }
}
pub open spec fn under(s: VSegment, o: VSegment) -> bool { drop_of(s, o) > 0 }
pub open spec fn level(s: VSegment, o: VSegment) -> bool { drop_of(s, o) == 0 }
pub assume_specification[<Ordering as PartialEq>::eq](a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r == (*a == *b);
impl VSegment {
//@ fn geom/v_segment.rs VSegment is_under_segment_order
//@ spec
        requires in_range(self.a), in_range(self.b), in_range(other.a), in_range(other.b)
        ensures r == (if under(*self, *other) { Ordering::Less } else if level(*self, *other) { Ordering::Equal } else { Ordering::Greater })
//@ endfn
}
}
