ID="b11-not-the-topmost-start"; PROP="C11"; FILE="core/extract.rs"
EDITS=[("core/extract.rs","""        let mut top = link;

        // find most top link
""","""        let top = link;

        // find most top link
"""),("core/extract.rs","""            top_index = i;
            top = link;
""","""            top_index = i;
""")]
DEMO="""
#[test]
fn t() {
    use crate::core::overlay::{Overlay, ShapeType};
    use crate::core::fill_rule::FillRule;
    let p = |v: &[(i32, i32)]| v.iter().map(|&(x, y)| IntPoint::new(x, y)).collect::<Vec<_>>();
    let mut o = Overlay::new(16);
    // two triangles with the same most left point; the right ends are not in the order of the slopes
    o.add_contour(&p(&[(0, 0), (10, -20), (30, -30)]), ShapeType::Subject);
    o.add_contour(&p(&[(0, 0), (40, 40), (20, 40)]), ShapeType::Subject);
    let s = o.into_graph(FillRule::NonZero).extract_shapes(OverlayRule::Subject);
    assert_eq!(s.len(), 2);
    assert!(s.iter().all(|s| s.len() == 1));
}
"""
NEEDS="two contours with the same most left point, where the last edge listed there is above the first but not the top one"
BREAKS="an outer contour is walked as a hole"
