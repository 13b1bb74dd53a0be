// ---- segments with winding counts (extracted types, abstract counts) ----
verus! {
//@ item core/overlay.rs enum ShapeType
//@ item segm/segment.rs struct Segment

pub open spec fn seg_sval<C: Send>(w: spec_fn(IntPoint, IntPoint) -> int, s: Segment<C>, direct: C) -> int {
    if s.count == direct { w(s.x_segment.a, s.x_segment.b) } else { -w(s.x_segment.a, s.x_segment.b) }
}
pub open spec fn seg_ssum<C: Send>(w: spec_fn(IntPoint, IntPoint) -> int, s: Seq<Segment<C>>, direct: C) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { seg_ssum(w, s.drop_last(), direct) + seg_sval(w, s.last(), direct) }
}
} // verus!
