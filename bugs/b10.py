ID="b10-ends-already-in-order"; PROP="C10"; FILE="core/graph.rs"
EDITS=[("core/graph.rs","""        end_bs.smart_bin_sort_by(solver, |a, b| a.point.cmp(&b.point));
""","""        // the right ends often come in order already
        if end_bs.windows(2).any(|w| w[0].point.x > w[1].point.x) {
            end_bs.smart_bin_sort_by(solver, |a, b| a.point.cmp(&b.point));
        }
""")]
DEMO="""
#[test]
fn t() {
    use crate::geom::id_point::IdPoint;
    let l = |ax: i32, ay: i32, bx: i32, by: i32| OverlayLink::new(IdPoint::new(0, IntPoint::new(ax, ay)), IdPoint::new(0, IntPoint::new(bx, by)), 1);
    // two triangles whose right ends lie on one vertical line, the upper one starts farther to the left
    let mut links = vec![
        l(0, 10, 9, 10), l(0, 10, 9, 12), l(1, 0, 9, 0), l(1, 0, 9, 2), l(9, 0, 9, 2), l(9, 10, 9, 12),
    ];
    links.sort_by(|a, b| a.a.point.cmp(&b.a.point));
    let g = OverlayGraph::new(Solver::AUTO, links);
    for (i, l) in g.links.iter().enumerate() {
        for (j, m) in g.links.iter().enumerate() {
            let (p, q) = ([(l.a.id, l.a.point), (l.b.id, l.b.point)], [(m.a.id, m.a.point), (m.b.id, m.b.point)]);
            for (n, s) in p { for (k, t) in q { assert_eq!(n == k, s == t, "{i} {j}"); } }
        }
    }
}
"""
NEEDS="all right ends come in the order of x while two with the same x are in the wrong order of y"
BREAKS="edges that end in one point get different nodes"
