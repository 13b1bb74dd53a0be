ID="b20-same-subject-kept"; PROP="C20"; FILE="vector/edge.rs"
EDITS=[("vector/edge.rs","        let clip_left = self & CLIP_LEFT;","        if (subj_left << 1) == subj_right {\n            // the same on both sides\n            return self;\n        }\n        let clip_left = self & CLIP_LEFT;")]
DEMO="""
#[test]
fn t() {
    use i_float::int::point::IntPoint;
    use crate::core::fill_rule::FillRule;
    use crate::core::overlay::{Overlay, ShapeType};
    use crate::core::overlay_rule::OverlayRule;
    let p = |x, y| IntPoint::new(x, y);
    let mut o = Overlay::new(8);
    o.add_contour(&[p(0, 0), p(40, 0), p(40, 40), p(0, 40)], ShapeType::Subject);
    o.add_contour(&[p(10, 10), p(30, 10), p(30, 30), p(10, 30)], ShapeType::Clip);
    let r = o.into_shape_vectors(FillRule::NonZero, OverlayRule::Difference, Default::default());
    assert_eq!(r.len(), 1);
    assert_eq!(r[0].len(), 2);
    for e in r[0][1].iter() {
        // around the hole the clip is on one and the same side
        assert_eq!(e.fill & SUBJ_LEFT != 0, true);
        assert_eq!(e.fill & SUBJ_RIGHT != 0, true);
        assert_eq!(e.fill & CLIP_LEFT != 0, true);
        assert_eq!(e.fill & CLIP_RIGHT != 0, false);
    }
}
"""
NEEDS="an edge of the clip in the middle of the subject (or away from it), walked against the order of its ends"
BREAKS="left and right of the clip are not exchanged there, so that the fill of an edge names the wrong side"
