// ---- the heights an edge spans ----
//@ import base.vx
verus! {
//@ item geom/line_range.rs struct LineRange
pub open spec fn min_i(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max_i(a: int, b: int) -> int { if a >= b { a } else { b } }
impl XSegment {
//@ fn geom/x_segment.rs XSegment y_range
//@ spec
        ensures r.min == min_i(self.a.y as int, self.b.y as int), r.max == max_i(self.a.y as int, self.b.y as int)
//@ endfn
}
}
fn main() {}
