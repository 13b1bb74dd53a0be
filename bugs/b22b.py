ID="b22-limited-left-miter"; PROP="C22"; FILE="mesh/stroke/builder_join.rs"
EDITS=[("mesh/stroke/builder_join.rs","let (pa, pb, va, vb) = (s1.a_bot, s0.b_bot, s1.dir, s0.dir);","let (pa, pb, va, vb) = (s1.a_bot, s0.b_bot, s0.dir, s1.dir);")]
DEMO="""
#[test]
fn t() {
    use crate::mesh::stroke::offset::StrokeOffset;
    use crate::mesh::style::{LineJoin, StrokeStyle};
    for s in [1.0, -1.0] {
        // almost back again, the corner is cut at its limit
        let path = [[0.0, 0.0], [10.0, 0.0], [0.0, s]].to_vec();
        let shapes = path.stroke(StrokeStyle::new(0.4).line_join(LineJoin::Miter(0.5)), false);
        let right = shapes.iter().flatten().flatten().fold(0.0f64, |m, p| m.max(p[0]));
        // 0.2 / tan(0.25) beyond the corner
        assert!((right - 10.0 - 0.2 / 0.25f64.tan()).abs() < 0.05, "{} {}", s, right);
    }
}
"""
NEEDS="a stroke with Miter joins and a left turn sharper than the limit"
BREAKS="both ends of the cut corner go back along the path instead of beyond it, so that the corner is missing"
