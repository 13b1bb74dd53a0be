// ---- string/overlay.rs: lines become edges that carry their direction ----
//@ import base.vx
verus! {
//@ item segm/winding_count.rs struct ShapeCountString
//@ item segm/winding_count.rs const STRING_FORWARD_CLIP
//@ item segm/winding_count.rs const STRING_BACK_CLIP
//@ item segm/segment.rs struct Segment
//@ item string/line.rs type IntLine
//@ item i_shape:int/path.rs type IntPath
//@ item i_shape:int/shape.rs type IntContour
//@ item string/overlay.rs struct StringOverlay

// the edge of a line from a to b: from its lower to its upper end, the bit tells the direction; it winds around nothing
pub open spec fn edge(a: IntPoint, b: IntPoint) -> Segment<ShapeCountString> {
    if pt_lt(a, b) { Segment { x_segment: XSegment { a, b }, count: ShapeCountString { subj: 0, clip: 1 } } }
    else { Segment { x_segment: XSegment { a: b, b: a }, count: ShapeCountString { subj: 0, clip: 2 } } }
}
pub open spec fn step(a: IntPoint, b: IntPoint) -> Seq<Segment<ShapeCountString>> { if a == b { Seq::empty() } else { seq![edge(a, b)] } }
// the edges of the first n steps from a along the points
pub open spec fn steps(a: IntPoint, p: Seq<IntPoint>, n: int) -> Seq<Segment<ShapeCountString>>
    decreases n
{
    if n <= 0 { Seq::empty() } else { steps(a, p, n - 1) + step(if n == 1 { a } else { p[n - 2] }, p[n - 1]) }
}
pub open spec fn open_path(p: Seq<IntPoint>) -> Seq<Segment<ShapeCountString>> { if p.len() < 2 { Seq::empty() } else { steps(p[0], p.skip(1), p.len() - 1) } }
pub open spec fn ring(p: Seq<IntPoint>) -> Seq<Segment<ShapeCountString>> { if p.len() < 2 { Seq::empty() } else { steps(p.last(), p, p.len() as int) } }
pub open spec fn open_paths(p: Seq<IntPath>, n: int) -> Seq<Segment<ShapeCountString>>
    decreases n
{
    if n <= 0 { Seq::empty() } else { open_paths(p, n - 1) + open_path(p[n - 1]@) }
}
pub open spec fn rings(p: Seq<IntContour>, n: int) -> Seq<Segment<ShapeCountString>>
    decreases n
{
    if n <= 0 { Seq::empty() } else { rings(p, n - 1) + ring(p[n - 1]@) }
}
pub open spec fn apiece(p: Seq<IntLine>, n: int) -> Seq<Segment<ShapeCountString>>
    decreases n
{
    if n <= 0 { Seq::empty() } else { apiece(p, n - 1) + step(p[n - 1]@[0], p[n - 1]@[1]) }
}

impl StringOverlay {
//@ fn string/overlay.rs StringOverlay new
//@ sub <<<Vec::with_capacity(capacity)>>> <<<Vec::<Segment<ShapeCountString>>::with_capacity(capacity)>>>
//@ spec
        ensures r.segments@.len() == 0
//@ endfn
//@ fn string/overlay.rs StringOverlay add_string_line
//@ spec
        ensures final(self).segments@ == old(self).segments@ + step(line@[0], line@[1])
//@ entry
        let ghost s0 = self.segments@;
//@ exit
        assert(self.segments@ =~= s0 + step(line@[0], line@[1]));
//@ endfn
//@ fn string/overlay.rs StringOverlay add_string_lines
//@ index_loops
//@ spec
        ensures final(self).segments@ == old(self).segments@ + apiece(lines@, lines@.len() as int)
//@ entry
        let ghost s0 = self.segments@;
        assert(s0 =~= s0 + apiece(lines@, 0));
//@ loop 0
            invariant self.segments@ == s0 + apiece(lines@, it0 as int)
//@ loopend 0
            assert(self.segments@ =~= s0 + apiece(lines@, it0 + 1));
//@ endfn
//@ fn string/overlay.rs StringOverlay add_string_path
//@ index_loops
//@ spec
        ensures final(self).segments@ == old(self).segments@ + open_path(path@)
//@ entry
        let ghost s0 = self.segments@;
        let ghost q = path@.skip(1);
        assert(s0 =~= s0 + Seq::<Segment<ShapeCountString>>::empty());
//@ loop 0
            invariant path@.len() >= 2, q == path@.skip(1), a == path@[it0 - 1], self.segments@ == s0 + steps(path@[0], q, it0 - 1)
//@ loopend 0
            assert(self.segments@ =~= s0 + steps(path@[0], q, it0 as int));
//@ endfn
//@ fn string/overlay.rs StringOverlay add_string_contour
//@ index_loops
//@ spec
        ensures final(self).segments@ == old(self).segments@ + ring(contour@)
//@ entry
        let ghost s0 = self.segments@;
        assert(s0 =~= s0 + Seq::<Segment<ShapeCountString>>::empty());
//@ loop 0
            invariant contour@.len() >= 2, a == (if it0 == 0 { contour@.last() } else { contour@[it0 - 1] }), self.segments@ == s0 + steps(contour@.last(), contour@, it0 as int)
//@ loopend 0
            assert(self.segments@ =~= s0 + steps(contour@.last(), contour@, it0 + 1));
//@ endfn
//@ fn string/overlay.rs StringOverlay add_string_paths
//@ index_loops
//@ spec
        ensures final(self).segments@ == old(self).segments@ + open_paths(paths@, paths@.len() as int)
//@ entry
        let ghost s0 = self.segments@;
        assert(s0 =~= s0 + open_paths(paths@, 0));
//@ loop 0
            invariant self.segments@ == s0 + open_paths(paths@, it0 as int)
//@ loopend 0
            assert(self.segments@ =~= s0 + open_paths(paths@, it0 + 1));
//@ endfn
//@ fn string/overlay.rs StringOverlay add_string_contours
//@ index_loops
//@ spec
        ensures final(self).segments@ == old(self).segments@ + rings(contours@, contours@.len() as int)
//@ entry
        let ghost s0 = self.segments@;
        assert(s0 =~= s0 + rings(contours@, 0));
//@ loop 0
            invariant self.segments@ == s0 + rings(contours@, it0 as int)
//@ loopend 0
            assert(self.segments@ =~= s0 + rings(contours@, it0 + 1));
//@ endfn
}
}
fn main() {}
