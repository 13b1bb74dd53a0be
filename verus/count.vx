// ---- winding counts: the trait contract and its two implementations (extracted) ----
verus! {
//@ item segm/winding_count.rs struct ShapeCountBoolean
//@ item segm/winding_count.rs struct ShapeCountString
//@ item segm/winding_count.rs const STRING_FORWARD_CLIP
//@ item segm/winding_count.rs const STRING_BACK_CLIP

pub trait WindingCount: Clone + Copy + Send + Sized {
    // counts of coincident edges combine
    spec fn comb(a: Self, b: Self) -> Self;
    spec fn none(a: Self) -> bool;
    spec fn inv(a: Self) -> Self;
    // how far the components are from zero: what must stay within 32 bits
    spec fn mag(a: Self) -> nat;
    // a well formed count (a set of direction bits, for strings)
    spec fn wf(a: Self) -> bool;
    spec fn forward(shape_type: ShapeType) -> Self;
    spec fn backward(shape_type: ShapeType) -> Self;

    // a commutative, associative combination with an inverse that distributes over it
    proof fn lemma_assoc(a: Self, b: Self, c: Self)
        requires Self::mag(a) + Self::mag(b) + Self::mag(c) <= i32::MAX, Self::wf(a), Self::wf(b), Self::wf(c)
        ensures Self::comb(Self::comb(a, b), c) == Self::comb(a, Self::comb(b, c));
    proof fn lemma_comb(a: Self, b: Self)
        requires Self::mag(a) + Self::mag(b) <= i32::MAX, Self::wf(a), Self::wf(b)
        ensures
            Self::mag(Self::comb(a, b)) <= Self::mag(a) + Self::mag(b),
            Self::wf(Self::comb(a, b)),
            Self::comb(a, b) == Self::comb(b, a),
            Self::inv(Self::comb(a, b)) == Self::comb(Self::inv(a), Self::inv(b)),
            Self::none(a) ==> Self::comb(a, b) == b;
    proof fn lemma_inv(a: Self)
        requires Self::mag(a) <= i32::MAX, Self::wf(a)
        ensures
            Self::inv(Self::inv(a)) == a, Self::none(Self::inv(a)) == Self::none(a), Self::wf(Self::inv(a)), Self::mag(Self::inv(a)) == Self::mag(a),
            // (string directions unite instead of cancelling)
            Self::cancels() ==> Self::none(Self::comb(a, Self::inv(a)));
    spec fn cancels() -> bool;
    // a unit edge and the reverse edge
    proof fn lemma_units(shape_type: ShapeType)
        ensures
            Self::forward(shape_type) != Self::backward(shape_type),
            Self::inv(Self::forward(shape_type)) == Self::backward(shape_type),
            Self::inv(Self::backward(shape_type)) == Self::forward(shape_type),
            Self::wf(Self::forward(shape_type)), Self::wf(Self::backward(shape_type)),
            !Self::none(Self::forward(shape_type)), !Self::none(Self::backward(shape_type)),
            Self::mag(Self::forward(shape_type)) <= 1, Self::mag(Self::backward(shape_type)) <= 1;

    spec fn made(subj: i32, clip: i32) -> Self;
    fn is_not_empty(&self) -> (r: bool)
        ensures r == !Self::none(*self);
    fn new(subj: i32, clip: i32) -> (r: Self)
        ensures r == Self::made(subj, clip);
    fn with_shape_type(shape_type: ShapeType) -> (r: (Self, Self))
        ensures r.0 == Self::forward(shape_type), r.1 == Self::backward(shape_type);
    fn add(self, count: Self) -> (r: Self)
        requires Self::mag(self) + Self::mag(count) <= i32::MAX
        ensures r == Self::comb(self, count);
    fn apply(&mut self, count: Self)
        requires Self::mag(*old(self)) + Self::mag(count) <= i32::MAX
        ensures *final(self) == Self::comb(*old(self), count);
    fn invert(self) -> (r: Self)
        requires Self::mag(self) <= i32::MAX, Self::wf(self)
        ensures r == Self::inv(self);
}
impl ShapeCountBoolean {
//@ item segm/winding_count.rs const SUBJ_DIRECT in ShapeCountBoolean
//@ item segm/winding_count.rs const SUBJ_INVERT in ShapeCountBoolean
//@ item segm/winding_count.rs const CLIP_DIRECT in ShapeCountBoolean
//@ item segm/winding_count.rs const CLIP_INVERT in ShapeCountBoolean
}
pub open spec fn nabs(a: int) -> nat { if a < 0 { (-a) as nat } else { a as nat } }
impl WindingCount for ShapeCountBoolean {
    open spec fn comb(a: Self, b: Self) -> Self { ShapeCountBoolean { subj: (a.subj + b.subj) as i32, clip: (a.clip + b.clip) as i32 } }
    open spec fn none(a: Self) -> bool { a.subj == 0 && a.clip == 0 }
    open spec fn inv(a: Self) -> Self { ShapeCountBoolean { subj: (-a.subj) as i32, clip: (-a.clip) as i32 } }
    open spec fn mag(a: Self) -> nat { nabs(a.subj as int) + nabs(a.clip as int) }
    open spec fn wf(a: Self) -> bool { true }
    open spec fn forward(shape_type: ShapeType) -> Self {
        if shape_type is Subject { ShapeCountBoolean { subj: 1, clip: 0 } } else { ShapeCountBoolean { subj: 0, clip: 1 } }
    }
    open spec fn backward(shape_type: ShapeType) -> Self {
        if shape_type is Subject { ShapeCountBoolean { subj: -1i32, clip: 0 } } else { ShapeCountBoolean { subj: 0, clip: -1i32 } }
    }
    proof fn lemma_assoc(a: Self, b: Self, c: Self) {}
    proof fn lemma_comb(a: Self, b: Self) {}
    proof fn lemma_inv(a: Self) {}
    open spec fn cancels() -> bool { true }
    proof fn lemma_units(shape_type: ShapeType) {}
    open spec fn made(subj: i32, clip: i32) -> Self { ShapeCountBoolean { subj, clip } }
//@ fn segm/winding_count.rs WindingCount for ShapeCountBoolean new
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountBoolean is_not_empty
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountBoolean with_shape_type
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountBoolean add
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountBoolean apply
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountBoolean invert
//@ nopub
//@ endfn
}
// direction bits of a polyline edge: 1 back, 2 forward
pub open spec fn swap2(c: u8) -> u8 { if c == 1 { 2 } else if c == 2 { 1 } else { c } }
impl WindingCount for ShapeCountString {
    open spec fn comb(a: Self, b: Self) -> Self { ShapeCountString { subj: (a.subj + b.subj) as i32, clip: a.clip | b.clip } }
    open spec fn none(a: Self) -> bool { a.subj == 0 && a.clip == 0 }
    open spec fn inv(a: Self) -> Self { ShapeCountString { subj: (-a.subj) as i32, clip: swap2(a.clip) } }
    open spec fn mag(a: Self) -> nat { nabs(a.subj as int) }
    open spec fn wf(a: Self) -> bool { a.clip <= 3 }
    open spec fn forward(shape_type: ShapeType) -> Self {
        if shape_type is Subject { ShapeCountString { subj: 1, clip: 0 } } else { ShapeCountString { subj: 0, clip: 2 } }
    }
    open spec fn backward(shape_type: ShapeType) -> Self {
        if shape_type is Subject { ShapeCountString { subj: -1i32, clip: 0 } } else { ShapeCountString { subj: 0, clip: 1 } }
    }
    proof fn lemma_inv(a: Self) {}
    open spec fn cancels() -> bool { false }
    proof fn lemma_assoc(a: Self, b: Self, c: Self) {
        let (x, y, z) = (a.clip, b.clip, c.clip);
        assert((x | y) | z == x | (y | z)) by (bit_vector);
    }
    proof fn lemma_comb(a: Self, b: Self) {
        let (x, y) = (a.clip, b.clip);
        assert(x | y == y | x) by (bit_vector);
        assert(x <= 3 && y <= 3 ==> x | y <= 3) by (bit_vector);
        assert(0u8 | y == y) by (bit_vector);
        assert(x <= 3 && y <= 3 ==> (if (x | y) == 1u8 { 2u8 } else if (x | y) == 2u8 { 1u8 } else { (x | y) })
            == (if x == 1u8 { 2u8 } else if x == 2u8 { 1u8 } else { x }) | (if y == 1u8 { 2u8 } else if y == 2u8 { 1u8 } else { y })) by (bit_vector);
    }
    proof fn lemma_units(shape_type: ShapeType) {}
    open spec fn made(subj: i32, clip: i32) -> Self { ShapeCountString { subj, clip: if clip > 0 { 2 } else if clip < 0 { 1 } else { 0 } } }
//@ fn segm/winding_count.rs WindingCount for ShapeCountString new
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountString is_not_empty
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountString with_shape_type
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountString add
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountString apply
//@ nopub
//@ endfn
//@ fn segm/winding_count.rs WindingCount for ShapeCountString invert
//@ nopub
//@ entry
        proof {
            let x = self.clip;
            assert(x <= 3 ==> ((x & 0b01) << 1 | (x & 0b10) >> 1) == (if x == 1u8 { 2u8 } else if x == 2u8 { 1u8 } else { x })) by (bit_vector);
        }
//@ endfn
}
// the stored edge of a directed one, with its count
pub open spec fn stored<C: WindingCount>(a: IntPoint, b: IntPoint, count: C) -> Segment<C> {
    if pt_lt(a, b) { Segment { x_segment: XSegment { a: a, b: b }, count: count } }
    else { Segment { x_segment: XSegment { a: b, b: a }, count: C::inv(count) } }
}
impl<C: WindingCount> Segment<C> {
//@ fn segm/segment.rs Segment<C> create_and_validate
//@ spec
        requires C::mag(count) <= i32::MAX, C::wf(count)
        ensures r == stored(a, b, count)
//@ endfn
}
// the reverse of a directed edge with the inverse count is the same stored edge
pub proof fn lemma_stored_reverse<C: WindingCount>(a: IntPoint, b: IntPoint, count: C)
    requires a != b, C::wf(count), C::mag(count) <= i32::MAX
    ensures stored(a, b, count) == stored(b, a, C::inv(count)), pt_lt(stored(a, b, count).x_segment.a, stored(a, b, count).x_segment.b)
{
    C::lemma_inv(count);
}
} // verus!
