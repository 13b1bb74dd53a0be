ID="b22-direction-before-union"; PROP="C22"; FILE="mesh/outline/offset.rs"
EDITS=[("mesh/outline/offset.rs","""                            .extract_offset(ContourDirection::CounterClockwise, 0);
                    overlay.add_shapes(&shapes, ShapeType::Subject);
                } else {""","""                            .extract_offset(main_direction, 0);
                    overlay.add_shapes(&shapes, ShapeType::Subject);
                } else {""")]
DEMO="""
#[test]
fn t() {
    use crate::core::overlay::ContourDirection;
    use crate::mesh::outline::offset::OutlineOffset;
    use crate::mesh::style::{LineJoin, OutlineStyle};
    let square = |x: f64| [[x, 0.0], [x + 10.0, 0.0], [x + 10.0, 10.0], [x, 10.0]].to_vec();
    let two = [square(0.0), square(30.0)].to_vec();
    let style = || OutlineStyle::new(1.0).line_join(LineJoin::Bevel);
    for (d, sign) in [(ContourDirection::CounterClockwise, 1.0), (ContourDirection::Clockwise, -1.0)] {
        let shapes = two.outline_custom(style(), d, Default::default());
        assert_eq!(shapes.len(), 2);
        for s in &shapes {
            let c = &s[0];
            let mut a = 0.0f64;
            for i in 0..c.len() { let (p, q) = (c[i], c[(i + 1) % c.len()]); a += 0.5 * (p[0] * q[1] - p[1] * q[0]); }
            assert!((sign * a - 142.0).abs() < 0.1, "{}", a);
        }
    }
}
"""
NEEDS="two or more contours and clockwise output"
BREAKS="the outlines of the contours are united with the wrong direction, so that they count as negative and vanish"
