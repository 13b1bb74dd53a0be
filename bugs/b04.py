ID="b04-seam-spike"; PROP="C04"; FILE="segm/build.rs"
EDITS=[("segm/build.rs","if p1 != q1 {","if p1 != q0 {")]
DEMO="""
#[test]
fn t() {
    use crate::segm::winding_count::ShapeCountBoolean;
    let p = |x, y| IntPoint { x, y };
    // starts in the middle of an edge whose far end is also the last point
    let path = [p(1, 0), p(4, 0), p(4, 4), p(0, 4), p(4, 0)];
    let mut v: Vec<Segment<ShapeCountBoolean>> = Vec::new();
    v.append_path_iter(path.iter().copied(), ShapeType::Subject);
    for s in v.iter() {
        assert!(s.x_segment.a < s.x_segment.b, "degenerate segment {:?}", s);
    }
}
"""
NEEDS="a contour that starts inside an edge and returns to that edge's far end with its last point"
BREAKS="a zero-length segment enters the overlay"
