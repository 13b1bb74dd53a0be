// ---- mesh: what strokes and outlines are built of ----
//@ include base.vx
//@ include vec.vx
//@ include segment.vx
verus! {
use core::marker::PhantomData;
use core::ops::{Add, Mul, Div, Neg};
//@ item mesh/boolean.rs struct OffsetCountBoolean
pub type Edge = Segment<OffsetCountBoolean>;
// stand for i_float's traits: what the operations give is left open, they are only taken to end
pub trait FloatNumber: Copy + PartialOrd + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self> {
    fn from_float(value: f64) -> Self;
    fn to_f64(self) -> f64;
    fn abs(self) -> Self;
    fn max(self, other: Self) -> Self;
}
pub broadcast axiom fn total_add<T: FloatNumber>(a: T, b: T) ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn total_sub<T: FloatNumber>(a: T, b: T) ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn total_mul<T: FloatNumber>(a: T, b: T) ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn total_div<T: FloatNumber>(a: T, b: T) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn total_neg<T: FloatNumber>(a: T) ensures #[trigger] vstd::std_specs::ops::NegSpec::neg_req(a);
pub broadcast axiom fn total_mul_f(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn total_div_f(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn total_neg_f(a: f64) ensures #[trigger] vstd::std_specs::ops::NegSpec::neg_req(a);
pub broadcast group total_floats { total_add, total_sub, total_mul, total_div, total_neg, total_mul_f, total_div_f, total_neg_f }
pub trait FloatPointCompatible<T: FloatNumber>: Copy {
    fn from_xy(x: T, y: T) -> Self;
    fn x(&self) -> T;
    fn y(&self) -> T;
}
pub struct FloatPointAdapter<P, T> { pub p: P, pub t: T }
// the conversion of points: a name, nothing is assumed of it
pub uninterp spec fn to_int<P, T>(a: FloatPointAdapter<P, T>, p: P) -> IntPoint;
impl<P: FloatPointCompatible<T>, T: FloatNumber> FloatPointAdapter<P, T> {
    #[verifier::external_body]
    pub fn float_to_int(&self, p: &P) -> (r: IntPoint)
        ensures r == to_int(*self, *p)
    { unimplemented!() }
}
pub struct FloatPointMath<T, P> { pub t: T, pub p: P }
impl<T: FloatNumber, P: FloatPointCompatible<T>> FloatPointMath<T, P> {
    #[verifier::external_body] pub fn add(a: &P, b: &P) -> P { unimplemented!() }
    #[verifier::external_body] pub fn sub(a: &P, b: &P) -> P { unimplemented!() }
    #[verifier::external_body] pub fn scale(p: &P, s: T) -> P { unimplemented!() }
    #[verifier::external_body] pub fn length(p: &P) -> T { unimplemented!() }
    #[verifier::external_body] pub fn normalize(p: &P) -> P { unimplemented!() }
    #[verifier::external_body] pub fn dot_product(a: &P, b: &P) -> T { unimplemented!() }
    #[verifier::external_body] pub fn cross_product(a: &P, b: &P) -> T { unimplemented!() }
}
pub assume_specification[f64::acos](x: f64) -> f64;
pub assume_specification[f64::round](x: f64) -> f64;
#[verifier::external_body]
pub fn within(x: f64, lo: f64, hi: f64) -> f64 { x.clamp(lo, hi) }
#[verifier::external_body]
pub fn opposite(x: f64) -> f64 { -x }
#[verifier::external_body]
pub fn whole(x: f64) -> usize { x as usize }
// (the square of a distance, far below 64 bits)
#[verifier::external_body]
pub fn sqr_distance(a: IntPoint, b: IntPoint) -> i64 { unimplemented!() }
#[verifier::external_body]
pub fn rotator_of<T: FloatNumber>(angle: f64) -> Rotator<T> { unimplemented!() }
//@ item mesh/rotator.rs struct Rotator
impl<T: FloatNumber> Rotator<T> {
//@ fn mesh/rotator.rs Rotator<T> new
//@ entry
        broadcast use total_floats;
//@ endfn
//@ fn mesh/rotator.rs Rotator<T> with_vector
//@ endfn
//@ fn mesh/rotator.rs Rotator<T> rotate
//@ entry
        broadcast use total_floats;
//@ endfn
}
pub struct Math<T, P> { pub t: T, pub p: P }
impl<T: FloatNumber, P: FloatPointCompatible<T>> Math<T, P> {
//@ fn mesh/math.rs Math<T,P> normal
//@ endfn
//@ fn mesh/math.rs Math<T,P> ortho_and_scale
//@ entry
        broadcast use total_floats;
//@ endfn
}

// ---- edges, and how many of them leave a point more than come to it ----
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
// (an edge counts 1 or -1: is_edge)
pub open spec fn out_of(e: Edge, p: IntPoint) -> int { if e.count.subj > 0 { way(e.x_segment.a, e.x_segment.b, p) } else { way(e.x_segment.b, e.x_segment.a, p) } }
pub open spec fn flow(s: Seq<Edge>, p: IntPoint) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { flow(s.drop_last(), p) + out_of(s.last(), p) }
}
// an edge from a to b
pub open spec fn leads(e: Edge, a: IntPoint, b: IntPoint) -> bool {
    pt_lt(e.x_segment.a, e.x_segment.b)
        && ((e.x_segment == XSegment { a: a, b: b } && e.count.subj == 1) || (e.x_segment == XSegment { a: b, b: a } && e.count.subj == -1))
}
pub open spec fn is_edge(e: Edge) -> bool { pt_lt(e.x_segment.a, e.x_segment.b) && (e.count.subj == 1 || e.count.subj == -1) }
pub open spec fn edges_ok(s: Seq<Edge>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_edge(#[trigger] s[i]) }
// what a line from a to b adds at p
pub open spec fn way(a: IntPoint, b: IntPoint, p: IntPoint) -> int { one(a == p) - one(b == p) }
// s grew by one or more lines that together lead from a to b
pub open spec fn grew(o: Seq<Edge>, s: Seq<Edge>) -> bool { edges_ok(s) && o.len() <= s.len() && s.take(o.len() as int) =~= o }
pub open spec fn led(o: Seq<Edge>, s: Seq<Edge>, a: IntPoint, b: IntPoint) -> bool {
    grew(o, s) && forall|p: IntPoint| #[trigger] flow(s, p) == flow(o, p) + way(a, b, p)
}
pub open spec fn led_two(o: Seq<Edge>, s: Seq<Edge>, a: IntPoint, b: IntPoint, c: IntPoint, d: IntPoint) -> bool {
    grew(o, s) && forall|p: IntPoint| #[trigger] flow(s, p) == flow(o, p) + way(a, b, p) + way(c, d, p)
}
pub broadcast proof fn lemma_flow_push(s: Seq<Edge>, e: Edge, p: IntPoint)
    ensures #[trigger] flow(s.push(e), p) == flow(s, p) + out_of(e, p)
{
    assert(s.push(e).drop_last() =~= s);
}
pub broadcast proof fn lemma_push_ok(s: Seq<Edge>, e: Edge)
    requires edges_ok(s), is_edge(e)
    ensures #[trigger] edges_ok(s.push(e))
{
    assert forall|i: int| 0 <= i < s.push(e).len() implies is_edge(#[trigger] s.push(e)[i]) by { if i < s.len() { assert(s.push(e)[i] == s[i]); } }
}
impl Segment<OffsetCountBoolean> {
//@ fn mesh/subject.rs Segment<OffsetCountBoolean> bold_subject_ab
//@ spec
        requires p0 != p1
        ensures leads(r, p0, p1), r.count.bold
//@ endfn
//@ fn mesh/subject.rs Segment<OffsetCountBoolean> weak_subject_ab
//@ spec
        requires p0 != p1
        ensures leads(r, p0, p1), !r.count.bold
//@ endfn
}
pub struct Miter;
//@ item mesh/miter.rs enum SharpMiter
impl Miter {
//@ fn mesh/miter.rs Miter sharp
//@ spec
        ensures match r {
            SharpMiter::Degenerate => to_int(*adapter, pa) == to_int(*adapter, pb),
            SharpMiter::AB(a, b) => a == to_int(*adapter, pa) && b == to_int(*adapter, pb) && a != b,
            SharpMiter::AcB(a, c, b) => a == to_int(*adapter, pa) && b == to_int(*adapter, pb) && a != b && a != c && b != c,
        }
//@ entry
        broadcast use total_floats;
//@ endfn
}

// ---- whole paths ----
// as many edges come to every point as leave it
pub open spec fn closed_up(o: Seq<Edge>, s: Seq<Edge>) -> bool { grew(o, s) && forall|p: IntPoint| #[trigger] flow(s, p) == flow(o, p) }
// all points are the same one on the grid
pub open spec fn is_dot<P, T>(c: FloatPointAdapter<P, T>, path: Seq<P>) -> bool { forall|i: int, j: int| 0 <= i < path.len() && 0 <= j < path.len() ==> to_int(c, #[trigger] path[i]) == to_int(c, #[trigger] path[j]) }
pub open spec fn banded<P, T>(c: FloatPointAdapter<P, T>, path: Seq<P>, o: Seq<Edge>, s: Seq<Edge>) -> bool { closed_up(o, s) && (is_dot(c, path) ==> s == o) }
}
fn main() {}
