ID="b22-first-point-again"; PROP="C22"; FILE="mesh/stroke/builder.rs"
EDITS=[("mesh/stroke/builder.rs","""        segments.add_section(&s0, adapter);

        ip0 = ip;
        j += 1;""","""        segments.add_section(&s0, adapter);

        j += 1;""")]
DEMO="""
#[test]
fn t() {
    use crate::mesh::stroke::offset::StrokeOffset;
    use crate::mesh::style::{LineJoin, StrokeStyle};
    // there and back along the x-axis, then up
    let path = [[0.0, 0.0], [10.0, 0.0], [0.0, 0.0], [0.0, 10.0]].to_vec();
    let shapes = path.stroke(StrokeStyle::new(2.0).line_join(LineJoin::Bevel), false);
    let mut a = 0.0f64;
    for c in shapes.iter().flatten() {
        for i in 0..c.len() {
            let (p, q) = (c[i], c[(i + 1) % c.len()]);
            a += 0.5 * (p[0] * q[1] - p[1] * q[0]);
        }
        // nothing of the band is far from both axes
        for p in c { assert!(p[0] < 1.01 || p[1] < 1.01, "{:?}", c); }
    }
    assert!((a.abs() - 39.0).abs() < 0.6, "{}", a);
}
"""
NEEDS="an open path whose third point is its first point again"
BREAKS="the third point is taken as repeated and left out, so that the band runs straight from the second point to the fourth"
