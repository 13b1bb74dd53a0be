// ---- i_float::fix_vec::FixVec (extracted) ----
use vstd::std_specs::ops::*;
use std::ops::Sub;
verus! {
//@ item i_float:fix_float.rs type FixFloat
//@ item i_float:fix_vec.rs struct FixVec

pub open spec fn vec_ok(v: FixVec) -> bool { bnd31(v.x as int) && bnd31(v.y as int) }
pub open spec fn bnd31(a: int) -> bool { -0x7fff_fffe <= a <= 0x7fff_fffe }
pub open spec fn crs(ax: int, ay: int, bx: int, by: int) -> int { ax * by - ay * bx }
pub open spec fn dotp(ax: int, ay: int, bx: int, by: int) -> int { ax * bx + ay * by }

impl SubSpecImpl for FixVec {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: FixVec) -> bool {
        i64::MIN <= self.x - rhs.x <= i64::MAX && i64::MIN <= self.y - rhs.y <= i64::MAX
    }
    open spec fn sub_spec(self, rhs: FixVec) -> FixVec { FixVec { x: (self.x - rhs.x) as i64, y: (self.y - rhs.y) as i64 } }
}
impl Sub for FixVec {
    type Output = FixVec;
//@ fn i_float:fix_vec.rs ops::Sub for FixVec sub
//@ nopub
//@ endfn
}
impl FixVec {
//@ fn i_float:fix_vec.rs FixVec new
//@ spec
        ensures r.x == x, r.y == y
//@ endfn
//@ fn i_float:fix_vec.rs FixVec new_point
//@ spec
        ensures r.x == point.x, r.y == point.y
//@ endfn
//@ fn i_float:fix_vec.rs FixVec dot_product
//@ spec
        requires vec_ok(self), vec_ok(v)
        ensures r == dotp(self.x as int, self.y as int, v.x as int, v.y as int), r > i64::MIN
//@ entry
        proof {
            lemma_mul_bound(self.x as int, v.x as int, 0x7fff_fffe, 0x7fff_fffe);
            lemma_mul_bound(self.y as int, v.y as int, 0x7fff_fffe, 0x7fff_fffe);
            assert(0x7fff_fffe * 0x7fff_fffe == 0x3fff_fffe_0000_0004int) by (compute);
        }
//@ endfn
//@ fn i_float:fix_vec.rs FixVec cross_product
//@ spec
        requires vec_ok(self), vec_ok(v)
        ensures r == crs(self.x as int, self.y as int, v.x as int, v.y as int), r > i64::MIN
//@ entry
        proof {
            lemma_mul_bound(self.x as int, v.y as int, 0x7fff_fffe, 0x7fff_fffe);
            lemma_mul_bound(self.y as int, v.x as int, 0x7fff_fffe, 0x7fff_fffe);
            assert(0x7fff_fffe * 0x7fff_fffe == 0x3fff_fffe_0000_0004int) by (compute);
        }
//@ endfn
}
impl IntPoint {
//@ fn i_float:int/point.rs IntPoint subtract
//@ spec
        ensures r.x == self.x - other.x, r.y == self.y - other.y
//@ endfn
}

// ---- plane vector algebra ----
// three vectors, two of them parallel to a third non-zero one
pub proof fn lemma_par3(vx: int, vy: int, wx: int, wy: int, ex: int, ey: int)
    requires crs(wx, wy, vx, vy) == 0, crs(ex, ey, vx, vy) == 0, vx != 0 || vy != 0,
    ensures crs(wx, wy, ex, ey) == 0,
{
    let k = crs(wx, wy, ex, ey);
    assert(k * vx == 0 && k * vy == 0) by (nonlinear_arith)
        requires k == wx * ey - wy * ex, wx * vy - wy * vx == 0, ex * vy - ey * vx == 0;
    assert(k == 0) by (nonlinear_arith) requires k * vx == 0, k * vy == 0, vx != 0 || vy != 0;
}
// e x u == 0  ==>  (w x e) u == (w x u) e
pub proof fn lemma_par_mul(ex: int, ey: int, ux: int, uy: int, wx: int, wy: int)
    requires crs(ex, ey, ux, uy) == 0,
    ensures
        crs(wx, wy, ex, ey) * ux == crs(wx, wy, ux, uy) * ex,
        crs(wx, wy, ex, ey) * uy == crs(wx, wy, ux, uy) * ey,
{
    lemma_par_mul_x(ex, ey, ux, uy, wx, wy);
    lemma_par_mul_x(ey, ex, uy, ux, wy, wx);
    let (a, b) = (crs(wx, wy, ex, ey), crs(wx, wy, ux, uy));
    let (a2, b2) = (crs(wy, wx, ey, ex), crs(wy, wx, uy, ux));
    assert(a2 == -a && b2 == -b);
    assert(a2 * uy == -(a * uy) && b2 * ey == -(b * ey)) by (nonlinear_arith) requires a2 == -a, b2 == -b;
}
pub proof fn lemma_par_mul_x(ex: int, ey: int, ux: int, uy: int, wx: int, wy: int)
    requires crs(ex, ey, ux, uy) == 0,
    ensures crs(wx, wy, ex, ey) * ux == crs(wx, wy, ux, uy) * ex,
{
    let (p, q, r) = (ey * ux, uy * ex, ex * ux);
    assert(p == q) by (nonlinear_arith) requires p == ey * ux, q == uy * ex, ex * uy - ey * ux == 0;
    assert((wx * ey - wy * ex) * ux == wx * p - wy * r) by (nonlinear_arith) requires p == ey * ux, r == ex * ux;
    assert((wx * uy - wy * ux) * ex == wx * q - wy * r) by (nonlinear_arith) requires q == uy * ex, r == ex * ux;
}
pub proof fn lemma_opposite_scale(a: int, b: int, e: int, u: int)
    requires a * u == b * e, (a > 0 && b < 0) || (a < 0 && b > 0),
    ensures (e > 0 && u < 0) || (e < 0 && u > 0) || (e == 0 && u == 0),
{
    assert((e > 0 && u < 0) || (e < 0 && u > 0) || (e == 0 && u == 0)) by (nonlinear_arith)
        requires a * u == b * e, (a > 0 && b < 0) || (a < 0 && b > 0);
}
} // verus!
