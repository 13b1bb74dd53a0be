ID="b22-round-shrink-turns-back"; PROP="C22"; FILE="mesh/outline/builder_join.rs"
EDITS=[("mesh/outline/builder_join.rs","            (true, -1.0)","            (true, 1.0)")]
DEMO="""
#[test]
fn t() {
    use crate::mesh::outline::offset::OutlineOffset;
    use crate::mesh::style::{LineJoin, OutlineStyle};
    // an L, made smaller by one: the inner corner at (10, 10) becomes a quarter circle around it
    let l = [[0.0, 0.0], [20.0, 0.0], [20.0, 10.0], [10.0, 10.0], [10.0, 20.0], [0.0, 20.0]].to_vec();
    let shapes = l.outline(OutlineStyle::new(-1.0).line_join(LineJoin::Round(0.1)));
    assert_eq!(shapes.len(), 1);
    let mut a = 0.0f64;
    for c in &shapes[0] {
        for i in 0..c.len() {
            let (p, q) = (c[i], c[(i + 1) % c.len()]);
            a += 0.5 * (p[0] * q[1] - p[1] * q[0]);
        }
        for p in c { assert!((p[0] - 10.0).hypot(p[1] - 10.0) > 0.98); }
    }
    assert!((a.abs() - (18.0 * 18.0 - 100.0 + 1.0 - std::f64::consts::PI / 4.0)).abs() < 0.05, "{}", a);
}
"""
NEEDS="a negative offset, Round joins and a corner that turns inwards"
BREAKS="the arc runs around the other side of the corner, so that the outline comes too close to it or is cut wrongly"
