// ---- links connected at nodes: what the graph promises ----
verus! {
// the links listed at a node
pub open spec fn listed(node: OverlayNode) -> Seq<usize> { match node { OverlayNode::Bridge(b) => b@, OverlayNode::Cross(v) => v@ } }
pub open spec fn bridge_ok(node: OverlayNode) -> bool { (node is Bridge) == (listed(node).len() == 2) }
pub open spec fn rising(pts: Seq<IntPoint>) -> bool { forall|i: int, j: int| 0 <= i < j < pts.len() ==> pt_lt(#[trigger] pts[i], #[trigger] pts[j]) }
// one node per point, in order; it lists exactly the links that end there, once each
pub open spec fn wired(l: Seq<OverlayLink>, nodes: Seq<OverlayNode>, pts: Seq<IntPoint>) -> bool {
    &&& pts.len() == nodes.len()
    &&& rising(pts)
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> end_at(l[i].a, i, nodes, pts) && end_at(l[i].b, i, nodes, pts)
    &&& forall|k: int, p: int| #![trigger listed(nodes[k])[p]] 0 <= k < nodes.len() && 0 <= p < listed(nodes[k]).len() ==>
            listed(nodes[k])[p] < l.len() && (l[listed(nodes[k])[p] as int].a.id == k || l[listed(nodes[k])[p] as int].b.id == k)
    &&& forall|k: int| #![trigger nodes[k]] 0 <= k < nodes.len() ==> listed(nodes[k]).no_duplicates() && listed(nodes[k]).len() > 0 && bridge_ok(nodes[k])
}
#[verifier::opaque]
pub open spec fn end_at(e: IdPoint, i: int, nodes: Seq<OverlayNode>, pts: Seq<IntPoint>) -> bool {
    e.id < nodes.len() && pts[e.id as int] == e.point && exists|p: int| 0 <= p < listed(nodes[e.id as int]).len() && #[trigger] listed(nodes[e.id as int])[p] == i
}
}
