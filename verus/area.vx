// ---- the area of a contour (i_shape) ----
verus! {
// twice the signed area, clockwise positive
pub open spec fn area_step(a: IntPoint, b: IntPoint) -> int { b.x * a.y - b.y * a.x }
pub open spec fn area_to(s: Seq<IntPoint>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { area_to(s, n - 1) + area_step(if n == 1 { s.last() } else { s[n - 2] }, s[n - 1]) }
}
pub open spec fn area(s: Seq<IntPoint>) -> int { area_to(s, s.len() as int) }
pub open spec fn wrap(a: int) -> int { (a + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000 }
pub proof fn lemma_wrap_mul(a: i32, b: i32)
    ensures -0x4000_0000_0000_0000 <= a * b <= 0x4000_0000_0000_0000
{
    assert(-0x4000_0000_0000_0000 <= a * b <= 0x4000_0000_0000_0000) by (nonlinear_arith) requires -0x8000_0000 <= a <= 0x7fff_ffff, -0x8000_0000 <= b <= 0x7fff_ffff;
}
pub proof fn lemma_wrap_add(a: int, b: int)
    ensures wrap(wrap(a) + b) == wrap(a + b)
{
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a + 0x8000_0000_0000_0000, b, 0x1_0000_0000_0000_0000);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(wrap(a) + 0x8000_0000_0000_0000, b, 0x1_0000_0000_0000_0000);
}
pub proof fn lemma_wrapped(s: int, r: int)
    requires -0x8000_0000_0000_0000 <= r <= 0x7fff_ffff_ffff_ffff, r == s || r == s + 0x1_0000_0000_0000_0000 || r == s - 0x1_0000_0000_0000_0000
    ensures r == wrap(s)
{}
// one more corner
pub proof fn lemma_corner(s: Seq<IntPoint>, i: int, p0: IntPoint, area: int, with_a: int, with_ab: int, a: int, b: int)
    requires
        0 <= i < s.len(), p0 == (if i == 0 { s.last() } else { s[i - 1] }), area == wrap(area_to(s, i)),
        a == s[i].x * p0.y, b == s[i].y * p0.x, with_a == wrap(area + a), with_ab == wrap(with_a - b),
    ensures with_ab == wrap(area_to(s, i + 1))
{
    hide(wrap);
    lemma_wrap_add(area_to(s, i), a);
    lemma_wrap_add(area_to(s, i) + a, -b);
    assert(p0.x * s[i].y == b) by (nonlinear_arith) requires b == s[i].y * p0.x;
}

pub trait PointPathExtension {
    spec fn pts(&self) -> Seq<IntPoint>;
    fn unsafe_area(&self) -> i64
        requires self.pts().len() > 0;
    fn is_clockwise_ordered(&self) -> (r: bool)
        requires self.pts().len() > 0
        ensures r == (wrap(area(self.pts())) >= 0);
}
impl PointPathExtension for IntPath {
    open spec fn pts(&self) -> Seq<IntPoint> { self@ }
//@ fn i_shape:int/path.rs PointPathExtension for IntPath unsafe_area
//@ index_loops
//@ nopub
//@ spec
        ensures r == wrap(area(self@))
//@ entry
        hide(wrap);
        hide(area_to);
        proof { reveal_with_fuel(area_to, 2); lemma_wrapped(0, 0); }
//@ loop 0
            invariant
                n == self@.len(), n > 0,
                p0 == (if it0 == 0 { self@.last() } else { self@[it0 as int - 1] }),
                area == wrap(area_to(self@, it0 as int)),
//@ loopbody 0
            let ghost (area0, q) = (area, p0);
//@ after b
            proof {
                lemma_wrap_mul(p1.x, p0.y);
                lemma_wrap_mul(p1.y, p0.x);
            }
//@ loopend 0
            proof {
                let s = area0 + a;
                let with_a = if s > i64::MAX { s - 0x1_0000_0000_0000_0000 } else if s < i64::MIN { s + 0x1_0000_0000_0000_0000 } else { s };
                lemma_wrapped(s, with_a);
                lemma_wrapped(with_a - b, area as int);
                lemma_corner(self@, it0 as int, q, area0 as int, with_a, area as int, a as int, b as int);
            }
//@ endfn
//@ fn i_shape:int/path.rs PointPathExtension for IntPath is_clockwise_ordered
//@ nopub
//@ endfn
}
}
