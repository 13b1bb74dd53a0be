ID="b05-same-direction-cancels"; PROP="C05"; FILE="segm/merge.rs"
EDITS=[("segm/winding_count.rs","self.clip |= count.clip;","self.clip ^= count.clip;")]
DEMO="""
#[test]
fn t() {
    use i_float::int::point::IntPoint;
    use crate::segm::winding_count::ShapeCountString;
    let p = |x, y| IntPoint { x, y };
    let c = ShapeCountString { subj: 0, clip: 2 };
    let mut v = vec![Segment { x_segment: crate::geom::x_segment::XSegment { a: p(0, 0), b: p(3, 1) }, count: c }; 2];
    v.merge_if_needed();
    assert_eq!(v.len(), 1);
    assert_eq!(v[0].count, c);
}
"""
NEEDS="two polylines (or one that runs back over itself) passing the same edge in the same direction"
BREAKS="the doubled polyline edge vanishes from the overlay"
