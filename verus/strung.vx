// ---- links connected at the nodes of a graph of lines ----
verus! {
// the nodes of a graph of lines
pub open spec fn strung(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>) -> bool {
    &&& pts.len() == nodes.len()
    &&& rising(pts)
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> meets(l[i].a, i, nodes, pts) && meets(l[i].b, i, nodes, pts)
    &&& forall|k: int, p: int| #![trigger nodes[k]@[p]] 0 <= k < nodes.len() && 0 <= p < nodes[k]@.len() ==>
            nodes[k]@[p] < l.len() && (l[nodes[k]@[p] as int].a.id == k || l[nodes[k]@[p] as int].b.id == k)
    &&& forall|k: int| #![trigger nodes[k]] 0 <= k < nodes.len() ==> nodes[k]@.no_duplicates() && nodes[k]@.len() > 0
}
#[verifier::opaque]
pub open spec fn meets(e: IdPoint, i: int, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>) -> bool {
    e.id < nodes.len() && pts[e.id as int] == e.point && exists|p: int| 0 <= p < nodes[e.id as int]@.len() && #[trigger] nodes[e.id as int]@[p] == i
}
}
