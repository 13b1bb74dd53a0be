ID="b06-left-end-on-vertical"; PROP="C06"; FILE="split/solver.rs"
EDITS=[("split/solver_list.rs","if ei.b.x < ej.a.x {","if ei.b.x <= ej.a.x {")]
DEMO="""
#[test]
fn t() {
    use crate::core::solver::{Precision, Strategy};
    use crate::segm::winding_count::ShapeCountBoolean;
    let s = |ax, ay, bx, by| Segment { x_segment: XSegment { a: IntPoint::new(ax, ay), b: IntPoint::new(bx, by) }, count: ShapeCountBoolean { subj: 1, clip: 0 } };
    let v = vec![s(0, 0, 10, 0), s(10, -10, 10, 10)];
    let r = v.split_segments(Solver { strategy: Strategy::List, precision: Precision::ABSOLUTE, multithreading: None });
    assert_eq!(r.len(), 3);
}
"""
NEEDS="the list strategy and a vertical edge on which an edge coming from the left ends, strictly between its own ends"
BREAKS="the pair is never compared, so the vertical edge is not split at that point"
