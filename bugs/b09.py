ID="b09-third-link-skipped"; PROP="C09"; FILE="core/extract.rs"
EDITS=[("core/extract.rs","for &link_index in indices.iter().skip(pos + 1) {","for &link_index in indices.iter().skip(pos + 2) {")]
DEMO="""
#[test]
fn t() {
    use crate::core::solver::Solver;
    use crate::geom::id_point::IdPoint;
    let c = IntPoint::new(0, 0);
    let l = |i: usize, x: i32, y: i32| { let (n, f) = (IdPoint::new(0, c), IdPoint::new(i, IntPoint::new(x, y))); if (x, y) < (0, 0) { OverlayLink::new(f, n, 1) } else { OverlayLink::new(n, f, 1) } };
    let g = OverlayGraph { solver: Solver::AUTO, nodes: vec![], links: vec![l(1, -1, 0), l(2, 1, 0), l(3, 0, -1), l(4, 0, 1)] };
    // from the left turning clockwise the upward link comes first
    assert_eq!(g.find_nearest_link_to(0, 0, true, &[0, 1, 2, 3], &[true, false, false, false]), 3);
    assert_eq!(g.find_nearest_link_to(0, 0, false, &[0, 1, 2, 3], &[true, false, false, false]), 2);
}
"""
NEEDS="a crossing with three or more edges not walked yet, where the third listed is the nearest in turning order"
BREAKS="the third free edge of a crossing is never compared, so the walk takes a farther turn"
