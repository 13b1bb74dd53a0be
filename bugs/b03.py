ID="b03-invert-loses-forward"; PROP="C03"; FILE="segm/winding_count.rs"
EDITS=[("segm/winding_count.rs","let clip = (b0 << 1) | (b1 >> 1);","let clip = if b1 != 0 { b1 >> 1 } else { b0 << 1 };")]
DEMO="""
#[test]
fn t() {
    for c in 0..4u8 {
        let x = ShapeCountString { subj: 3, clip: c };
        assert_eq!(x.invert().invert(), x);
        assert_eq!(x.invert().clip.count_ones(), c.count_ones());
    }
}
"""
NEEDS="an edge passed by polylines in both directions that is split and rebuilt the other way round"
BREAKS="one of the two directions of the polyline edge is lost when the edge is turned"
