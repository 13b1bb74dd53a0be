// ---- shared geometry base: extracted i_float / i_overlay types and their contracts ----
use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::cmp::*;
use vstd::bits::*;
use vstd::arithmetic::power2::*;
use std::cmp::Ordering;

verus! {

pub assume_specification[ i64::signum ](a: i64) -> (r: i64)
    ensures r == sgn(a as int);

pub assume_specification[ i64::unsigned_abs ](a: i64) -> (r: u64)
    ensures r == iabs(a as int);

pub assume_specification[ u64::overflowing_add ](a: u64, b: u64) -> (r: (u64, bool))
    ensures
        r.1 == (a + b > u64::MAX),
        r.0 == (if a + b > u64::MAX { a + b - 0x1_0000_0000_0000_0000 } else { a + b });

pub open spec fn sgn(a: int) -> int { if a > 0 { 1 } else if a < 0 { -1 } else { 0 } }
pub open spec fn iabs(a: int) -> int { if a >= 0 { a } else { -a } }

//@ item i_float:int/point.rs struct IntPoint

pub open spec fn pt_lt(a: IntPoint, b: IntPoint) -> bool { a.x < b.x || (a.x == b.x && a.y < b.y) }
pub open spec fn pt_ord(a: IntPoint, b: IntPoint) -> Ordering {
    if a == b { Ordering::Equal } else if pt_lt(a, b) { Ordering::Less } else { Ordering::Greater }
}
// the engine's coordinate domain: |x|, |y| < 2^30
pub open spec fn in_range(p: IntPoint) -> bool {
    -0x4000_0000 < p.x < 0x4000_0000 && -0x4000_0000 < p.y < 0x4000_0000
}
// twice the signed area of p0 p1 p2 (clockwise positive, as in the i_float code)
pub open spec fn area2(p0: IntPoint, p1: IntPoint, p2: IntPoint) -> int {
    (p1.x - p0.x) * (p1.y - p2.y) - (p1.x - p2.x) * (p1.y - p0.y)
}

impl PartialEqSpecImpl for IntPoint {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialOrdSpecImpl for IntPoint {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(pt_ord(*self, *other)) }
}
impl OrdSpecImpl for IntPoint {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { pt_ord(*self, *other) }
}

impl PartialOrd for IntPoint {
//@ fn i_float:int/point.rs PartialOrd for IntPoint partial_cmp
//@ nopub
//@ endfn
}
impl Ord for IntPoint {
//@ fn i_float:int/point.rs Ord for IntPoint cmp
//@ nopub
//@ endfn
}

impl IntPoint {
    pub const ZERO: Self = Self { x: 0, y: 0 };

//@ fn i_float:int/point.rs IntPoint new
//@ spec
        ensures r.x == x, r.y == y
//@ endfn

//@ fn i_float:int/point.rs IntPoint sqr_length
//@ spec
        requires -0x8000_0000 < self.x < 0x8000_0000, -0x8000_0000 < self.y < 0x8000_0000
        ensures r == self.x * self.x + self.y * self.y
//@ entry
        proof {
            lemma_sq_bound(self.x as int, 0x8000_0000);
            lemma_sq_bound(self.y as int, 0x8000_0000);
        }
//@ endfn

//@ fn i_float:int/point.rs ops::Sub for IntPoint sub
//@ as sub_pt
//@ sub <<<IntPoint {>>> <<<IntPoint {>>>
//@ spec
        requires
            i32::MIN <= self.x - other.x <= i32::MAX, i32::MIN <= self.y - other.y <= i32::MAX
        ensures r.x == self.x - other.x, r.y == self.y - other.y
//@ endfn

//@ fn i_float:int/point.rs IntPoint sqr_distance
//@ sub <<<(self - other)>>> <<<self.sub_pt(other)>>>
//@ spec
        requires in_range(self), in_range(other)
        ensures r == sqd(self, other), r >= 0
//@ entry
        proof {
            lemma_sq_bound((self.x - other.x) as int, 0x8000_0000);
            lemma_sq_bound((self.y - other.y) as int, 0x8000_0000);
        }
//@ endfn
}

pub open spec fn sqd(a: IntPoint, b: IntPoint) -> int {
    (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)
}

pub proof fn lemma_sq_bound(a: int, m: int)
    requires -m < a < m,
    ensures 0 <= a * a < m * m,
{
    assert(0 <= a * a < m * m) by (nonlinear_arith) requires -m < a < m;
}

pub proof fn lemma_mul_bound(a: int, b: int, m: int, n: int)
    requires -m <= a <= m, -n <= b <= n,
    ensures -(m * n) <= a * b <= m * n,
{
    assert(-(m * n) <= a * b <= m * n) by (nonlinear_arith) requires -m <= a <= m, -n <= b <= n;
}

pub proof fn lemma_area2_range(p0: IntPoint, p1: IntPoint, p2: IntPoint)
    requires in_range(p0), in_range(p1), in_range(p2),
    ensures
        -0x7fff_ffff_ffff_ffff <= area2(p0, p1, p2) <= 0x7fff_ffff_ffff_ffff,
        -0x3fff_ffff_ffff_ffff <= (p1.x - p0.x) * (p1.y - p2.y) <= 0x3fff_ffff_ffff_ffff,
        -0x3fff_ffff_ffff_ffff <= (p1.x - p2.x) * (p1.y - p0.y) <= 0x3fff_ffff_ffff_ffff,
{
    lemma_mul_bound(p1.x - p0.x, p1.y - p2.y, 0x7fff_fffe, 0x7fff_fffe);
    lemma_mul_bound(p1.x - p2.x, p1.y - p0.y, 0x7fff_fffe, 0x7fff_fffe);
    assert(0x7fff_fffe * 0x7fff_fffe == 0x3fff_fffe_0000_0004int) by (compute);
}

pub struct Triangle;

impl Triangle {
//@ fn i_float:triangle.rs Triangle area_two_point
//@ spec
        requires in_range(p0), in_range(p1), in_range(p2)
        ensures r == area2(p0, p1, p2), -0x7fff_ffff_ffff_ffff <= r
//@ entry
        proof { lemma_area2_range(p0, p1, p2); }
//@ endfn
//@ fn i_float:triangle.rs Triangle is_clockwise_point
//@ spec
        requires in_range(p0), in_range(p1), in_range(p2)
        ensures r == (area2(p0, p1, p2) > 0)
//@ endfn
//@ fn i_float:triangle.rs Triangle is_cw_or_line_point
//@ spec
        requires in_range(p0), in_range(p1), in_range(p2)
        ensures r == (area2(p0, p1, p2) >= 0)
//@ endfn
//@ fn i_float:triangle.rs Triangle is_line_point
//@ spec
        requires in_range(p0), in_range(p1), in_range(p2)
        ensures r == (area2(p0, p1, p2) == 0)
//@ endfn
//@ fn i_float:triangle.rs Triangle is_not_line_point
//@ spec
        requires in_range(p0), in_range(p1), in_range(p2)
        ensures r == (area2(p0, p1, p2) != 0)
//@ endfn
//@ fn i_float:triangle.rs Triangle clock_direction_point
//@ spec
        requires in_range(p0), in_range(p1), in_range(p2)
        ensures r == sgn(area2(p0, p1, p2))
//@ endfn
//@ fn i_float:triangle.rs Triangle clock_order_point
//@ spec
        requires in_range(p0), in_range(p1), in_range(p2)
        ensures r == (if area2(p0, p1, p2) > 0 { Ordering::Less } else if area2(p0, p1, p2) < 0 { Ordering::Greater } else { Ordering::Equal })
//@ endfn
}

//@ item geom/x_segment.rs struct XSegment

pub open spec fn seg_ok(s: XSegment) -> bool { in_range(s.a) && in_range(s.b) && pt_lt(s.a, s.b) }

} // verus!
