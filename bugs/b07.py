ID="b07-snap-far-end"; PROP="C07"; FILE="split/cross_solver.rs"
EDITS=[("split/cross_solver.rs","let p = if ra1 < rb1 { other.a } else { other.b };","let p = if ra1 < ra0 { other.a } else { other.b };")]
DEMO="""
#[test]
fn t() {
    let p = |x, y| IntPoint { x, y };
    // the end of `o` sits one unit above `t`, the crossing is rounded onto it
    let t = XSegment { a: p(-1000, 0), b: p(1001, 3) };
    for y in -6..6 {
        for x in -40..40 {
            for (a, b) in [(p(x, y), p(x + 70, -90)), (p(x - 70, 90), p(x, y)), (p(x - 70, -90), p(x, y))] {
                let o = XSegment { a, b };
                if let Some(r) = CrossSolver::cross(&t, &o, 8) {
                    if let CrossType::OtherEnd = r.cross_type {
                        assert_eq!(r.point, p(x, y), "{:?}", o);
                    }
                }
            }
        }
    }
}
"""
NEEDS="a proper crossing whose rounded point is within the snap radius of the end b of the other segment, and nearer to its start than the start of the target is: never on unit-test sized inputs"
BREAKS="the crossing snaps to the far end of the other segment, hundreds of units away"
