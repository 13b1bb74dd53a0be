ID="b12-edges-from-first-hole-end"; PROP="C12"; FILE="vector/extract_vectors.rs"
EDITS=[("vector/extract_vectors.rs","let x_min = hole_segments[0].v_segment.a.x;","let x_min = hole_segments[0].v_segment.b.x;")]
DEMO="""
#[test]
fn t() {
    use crate::core::fill_rule::FillRule;
    use crate::core::overlay::{Overlay, ShapeType};
    let p = |x, y| IntPoint::new(x, y);
    let mut o = Overlay::new(8);
    // a frame whose bottom has a corner under the hole, and a second shape further down
    o.add_contour(&[p(0, 0), p(12, -2), p(40, 0), p(40, 40), p(0, 40)], ShapeType::Subject);
    o.add_contour(&[p(-10, -40), p(60, -40), p(60, -20), p(-10, -20)], ShapeType::Subject);
    o.add_contour(&[p(10, 10), p(30, 10), p(30, 30), p(10, 30)], ShapeType::Clip);
    let r = o.into_shape_vectors(FillRule::NonZero, OverlayRule::Difference, Default::default());
    assert_eq!(r.len(), 2);
    for s in r.iter() {
        let high = s[0].iter().any(|e| e.a.y == 40);
        assert_eq!(s.len(), if high { 2 } else { 1 });
    }
}
"""
NEEDS="at least two shapes, and under the most left hole a border edge that ends before the lowest edge at the hole's most left point does"
BREAKS="that border edge is not looked at, so that the hole goes to a shape further down"
