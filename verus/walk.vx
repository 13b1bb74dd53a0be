// ---- core/extract.rs: the walk along a contour ----
//@ import nearest.vx
//@ include wired.vx
verus! {
global size_of usize == 8;
//@ item i_shape:int/path.rs type IntPath
//@ item i_shape:int/shape.rs type IntContour
//@ item core/extract.rs struct StartPathData

// the links of the list that are not walked yet
pub open spec fn unseen(list: Seq<usize>, v: Seq<bool>) -> int
    decreases list.len()
{
    if list.len() == 0 { 0 } else { unseen(list.drop_last(), v) + if v[list.last() as int] { 0int } else { 1 } }
}
pub open spec fn left(v: Seq<bool>) -> nat
    decreases v.len()
{
    if v.len() == 0 { 0 } else { left(v.drop_last()) + if v.last() { 0nat } else { 1 } }
}
// an even number of links that are not walked yet at every node, except at the two given ones (if they differ)
pub open spec fn even_but(nodes: Seq<OverlayNode>, v: Seq<bool>, x: int, y: int) -> bool {
    forall|k: int| #![trigger nodes[k]] 0 <= k < nodes.len() ==> unseen(listed(nodes[k]), v) % 2 == (if (k == x) != (k == y) { 1int } else { 0 })
}
pub open spec fn even(nodes: Seq<OverlayNode>, v: Seq<bool>) -> bool { even_but(nodes, v, 0, 0) }
// the graph after splitting: proper edges in range, no two of them leave a node in one direction
pub open spec fn graph_ok(g: OverlayGraph, pts: Seq<IntPoint>) -> bool {
    &&& wired(g.links@, g.nodes@, pts)
    &&& g.links@.len() < usize::MAX
    &&& forall|i: int| #![trigger g.links@[i]] 0 <= i < g.links@.len() ==> in_range(g.links@[i].a.point) && in_range(g.links@[i].b.point) && g.links@[i].a.point != g.links@[i].b.point
    &&& spread(g)
}
pub open spec fn spread(g: OverlayGraph) -> bool {
    forall|k: int, p: int, q: int| #![trigger listed(g.nodes@[k])[p], listed(g.nodes@[k])[q]] 0 <= k < g.nodes@.len() && 0 <= p < listed(g.nodes@[k]).len() && 0 <= q < listed(g.nodes@[k]).len() && p != q ==>
        apart(way(g, listed(g.nodes@[k])[p] as int, k as usize), way(g, listed(g.nodes@[k])[q] as int, k as usize))
}
pub open spec fn apart(u: FixVec, v: FixVec) -> bool { !(cp(u, v) == 0 && dp(u, v) >= 0) }
pub open spec fn joins(l: OverlayLink, x: usize, y: usize) -> bool { (l.a.id == x && l.b.id == y) || (l.b.id == x && l.a.id == y) }
pub open spec fn marked(v: Seq<bool>, walk: Seq<usize>) -> Seq<bool>
    decreases walk.len()
{
    if walk.len() == 0 { v } else { marked(v, walk.drop_last()).update(walk.last() as int, true) }
}
// at the node no link that is not walked yet comes before `to` when turning from `from`
pub open spec fn turns(g: OverlayGraph, v: Seq<bool>, node: usize, from: usize, to: usize, cw: bool) -> bool {
    forall|p: int| #![trigger listed(g.nodes@[node as int])[p]] candidate(listed(g.nodes@[node as int]), v, p) ==>
        !before(way(g, from as int, node), way(g, listed(g.nodes@[node as int])[p] as int, node), way(g, to as int, node), cw)
}
pub open spec fn turns_at(g: OverlayGraph, v: Seq<bool>, walk: Seq<usize>, ids: Seq<usize>, cw: bool, k: int) -> bool {
    ids[k] < g.nodes@.len() && turns(g, marked(v, walk.take(k)), ids[k], walk[k - 1], walk[k], cw)
}
// the links walked one after the other through the nodes: each one not walked before, and the first in the turn
pub open spec fn walked(g: OverlayGraph, v: Seq<bool>, walk: Seq<usize>, ids: Seq<usize>, cw: bool) -> bool {
    &&& walk.len() > 0 && ids.len() == walk.len() + 1
    &&& forall|k: int| #![trigger walk[k]] 0 <= k < walk.len() ==> walk[k] < g.links@.len() && joins(g.links@[walk[k] as int], ids[k], ids[k + 1]) && !marked(v, walk.take(k))[walk[k] as int]
    &&& forall|k: int| 0 < k < walk.len() ==> #[trigger] turns_at(g, v, walk, ids, cw, k)
}
pub open spec fn traced(g: OverlayGraph, points: Seq<IntPoint>, walk: Seq<usize>, ids: Seq<usize>) -> bool {
    points.len() == walk.len() && forall|k: int| #![trigger points[k]] 0 <= k < points.len() ==> points[k] == g.links@[walk[k] as int].near(ids[k]).point
}
// a contour: the walk is back at its first node for the first time
pub open spec fn contour_of(g: OverlayGraph, v0: Seq<bool>, v1: Seq<bool>, start: usize, c: Seq<IntPoint>, walk: Seq<usize>, ids: Seq<usize>, cw: bool) -> bool {
    walked(g, v0, walk, ids, cw) && walk[0] == start && ids.last() == ids[0] && (forall|k: int| 0 < k < walk.len() ==> #[trigger] ids[k] != ids[0])
    && v1 == marked(v0, walk) && traced(g, c, walk, ids)
}

pub proof fn lemma_mark(list: Seq<usize>, v: Seq<bool>, i: usize)
    requires list.no_duplicates(), i < v.len(), !v[i as int]
    ensures unseen(list, v.update(i as int, true)) == unseen(list, v) - (if list.contains(i) { 1int } else { 0 })
    decreases list.len()
{
    if list.len() > 0 {
        let l = list.drop_last();
        assert(l.no_duplicates());
        lemma_mark(l, v, i);
        if list.last() == i {
            assert(!l.contains(i)) by { if l.contains(i) { let q = choose|q: int| 0 <= q < l.len() && l[q] == i; assert(list[q] == list[list.len() - 1]); } }
            assert(list.contains(i));
        } else {
            assert(list.contains(i) ==> l.contains(i)) by {
                if list.contains(i) { let q = choose|q: int| 0 <= q < list.len() && list[q] == i; assert(l[q] == i); }
            }
            assert(l.contains(i) ==> list.contains(i)) by {
                if l.contains(i) { let q = choose|q: int| 0 <= q < l.len() && l[q] == i; assert(list[q] == i); }
            }
        }
    }
}
pub proof fn lemma_left(v: Seq<bool>, i: int)
    requires 0 <= i < v.len(), !v[i]
    ensures left(v.update(i, true)) < left(v)
    decreases v.len()
{
    if i == v.len() - 1 {
        assert(v.update(i, true).drop_last() =~= v.drop_last());
    } else {
        lemma_left(v.drop_last(), i);
        assert(v.update(i, true).drop_last() =~= v.drop_last().update(i, true));
    }
}
// some link is not walked yet
pub proof fn lemma_some(list: Seq<usize>, v: Seq<bool>)
    requires unseen(list, v) != 0
    ensures exists|p: int| #[trigger] candidate(list, v, p)
    decreases list.len()
{
    if !v[list.last() as int] {
        assert(candidate(list, v, list.len() - 1));
    } else {
        lemma_some(list.drop_last(), v);
        let p = choose|p: int| candidate(list.drop_last(), v, p);
        assert(candidate(list, v, p));
    }
}
pub proof fn lemma_pair(b0: usize, b1: usize, v: Seq<bool>)
    ensures unseen(seq![b0, b1], v) == (if v[b0 as int] { 0int } else { 1 }) + (if v[b1 as int] { 0int } else { 1 })
{
    assert(seq![b0, b1].drop_last() =~= seq![b0]);
    assert(seq![b0].drop_last() =~= Seq::<usize>::empty());
    reveal_with_fuel(unseen, 3);
}
// a link is walked from x to y
pub proof fn lemma_parity(g: OverlayGraph, pts: Seq<IntPoint>, v: Seq<bool>, i: usize, x: usize, y: usize, last: usize)
    requires graph_ok(g, pts), i < g.links@.len(), v.len() == g.links@.len(), !v[i as int], joins(g.links@[i as int], x, y), even_but(g.nodes@, v, x as int, last as int)
    ensures even_but(g.nodes@, v.update(i as int, true), y as int, last as int), x != y, x < g.nodes@.len(), y < g.nodes@.len(), left(v.update(i as int, true)) < left(v)
{
    reveal(end_at);
    let l = g.links@[i as int];
    lemma_left(v, i as int);
    assert(end_at(l.a, i as int, g.nodes@, pts) && end_at(l.b, i as int, g.nodes@, pts));
    assert forall|k: int| #![trigger g.nodes@[k]] 0 <= k < g.nodes@.len() implies
        unseen(listed(g.nodes@[k]), v.update(i as int, true)) % 2 == (if (k == y) != (k == last) { 1int } else { 0 }) by {
        let list = listed(g.nodes@[k]);
        lemma_mark(list, v, i);
        if list.contains(i) { let q = choose|q: int| 0 <= q < list.len() && list[q] == i; assert(listed(g.nodes@[k])[q] == i); assert(k == x || k == y); }
        if k == x || k == y { assert(list.contains(i)); }
    }
}
// what the choice at a node needs
pub proof fn lemma_node_ok(g: OverlayGraph, pts: Seq<IntPoint>, k: usize, target: usize)
    requires graph_ok(g, pts), k < g.nodes@.len(), target < g.links@.len(), g.links@[target as int].a.id == k || g.links@[target as int].b.id == k
    ensures
        at_node(g, target as int, k, pts[k as int]), in_range(pts[k as int]), g.links@[target as int].near(k).point == pts[k as int],
        forall|p: int| #![trigger listed(g.nodes@[k as int])[p]] 0 <= p < listed(g.nodes@[k as int]).len() ==> at_node(g, listed(g.nodes@[k as int])[p] as int, k, pts[k as int]),
        forall|p: int, cw: bool| #![trigger class(way(g, target as int, k), way(g, listed(g.nodes@[k as int])[p] as int, k), cw)] 0 <= p < listed(g.nodes@[k as int]).len() && listed(g.nodes@[k as int])[p] != target ==>
            class(way(g, target as int, k), way(g, listed(g.nodes@[k as int])[p] as int, k), cw) != 3,
        listed(g.nodes@[k as int]).contains(target),
{
    reveal(end_at);
    let list = listed(g.nodes@[k as int]);
    let t = g.links@[target as int];
    assert(end_at(t.a, target as int, g.nodes@, pts) && end_at(t.b, target as int, g.nodes@, pts));
    let q = choose|q: int| 0 <= q < list.len() && list[q] == target;
    assert forall|p: int| #![trigger listed(g.nodes@[k as int])[p]] 0 <= p < list.len() implies at_node(g, list[p] as int, k, pts[k as int]) by {
        let l = g.links@[list[p] as int];
        assert(end_at(l.a, list[p] as int, g.nodes@, pts) && end_at(l.b, list[p] as int, g.nodes@, pts));
    }
    assert(listed(g.nodes@[k as int])[q] == target);
    assert forall|p: int, cw: bool| #![trigger class(way(g, target as int, k), way(g, listed(g.nodes@[k as int])[p] as int, k), cw)] 0 <= p < list.len() && list[p] != target implies
        class(way(g, target as int, k), way(g, list[p] as int, k), cw) != 3 by {
        assert(listed(g.nodes@[k as int])[q] == target && listed(g.nodes@[k as int])[p] == list[p]);
        assert(apart(way(g, target as int, k), way(g, list[p] as int, k)));
    }
}
pub proof fn lemma_first(g: OverlayGraph, v: Seq<bool>, i: usize, x: usize, y: usize, cw: bool)
    requires i < g.links@.len(), !v[i as int], joins(g.links@[i as int], x, y)
    ensures walked(g, v, seq![i], seq![x, y], cw), marked(v, seq![i]) == v.update(i as int, true)
{
    let w = seq![i];
    assert(w.take(0) =~= Seq::<usize>::empty());
    assert(w.drop_last() =~= Seq::<usize>::empty());
    reveal_with_fuel(marked, 3);
}
pub proof fn lemma_step(g: OverlayGraph, v: Seq<bool>, walk: Seq<usize>, ids: Seq<usize>, i: usize, y: usize, cw: bool)
    requires walked(g, v, walk, ids, cw), i < g.links@.len(), !marked(v, walk)[i as int], joins(g.links@[i as int], ids.last(), y), ids.last() < g.nodes@.len(),
        turns(g, marked(v, walk), ids.last(), walk.last(), i, cw)
    ensures walked(g, v, walk.push(i), ids.push(y), cw), marked(v, walk.push(i)) == marked(v, walk).update(i as int, true)
{
    let (w, d) = (walk.push(i), ids.push(y));
    assert(w.drop_last() =~= walk);
    assert forall|k: int| #![trigger w[k]] 0 <= k < w.len() implies w[k] < g.links@.len() && joins(g.links@[w[k] as int], d[k], d[k + 1]) && !marked(v, w.take(k))[w[k] as int] by {
        assert(w.take(k) =~= walk.take(k));
        if k == walk.len() { assert(walk.take(k) =~= walk); } else { assert(w[k] == walk[k]); }
    }
    assert forall|k: int| 0 < k < w.len() implies #[trigger] turns_at(g, v, w, d, cw, k) by {
        assert(w.take(k) =~= walk.take(k));
        if k == walk.len() { assert(walk.take(k) =~= walk); } else { assert(turns_at(g, v, walk, ids, cw, k)); assert(w[k] == walk[k]); assert(w[k - 1] == walk[k - 1]); }
    }
}
// what was walked is marked
pub proof fn lemma_visited(v: Seq<bool>, walk: Seq<usize>)
    requires walk.len() > 0, forall|k: int| #![trigger walk[k]] 0 <= k < walk.len() ==> walk[k] < v.len()
    ensures marked(v, walk).len() == v.len(), marked(v, walk)[walk.last() as int]
{
    lemma_len(v, walk.drop_last());
    assert(walk[walk.len() - 1] == walk.last());
}
pub proof fn lemma_len(v: Seq<bool>, walk: Seq<usize>)
    ensures marked(v, walk).len() == v.len()
    decreases walk.len()
{
    if walk.len() > 0 { lemma_len(v, walk.drop_last()); }
}

pub proof fn lemma_arrived(g: OverlayGraph, v: Seq<bool>, walk: Seq<usize>, ids: Seq<usize>, cw: bool)
    requires walked(g, v, walk, ids, cw)
    ensures walk.len() > 0, ids.len() == walk.len() + 1, walk.last() < g.links@.len(), joins(g.links@[walk.last() as int], ids[walk.len() - 1], ids.last()),
        forall|k: int| #![trigger walk[k]] 0 <= k < walk.len() ==> walk[k] < g.links@.len(),
{
    assert(walk[walk.len() - 1] == walk.last());
}
impl StartPathData {
//@ fn core/extract.rs StartPathData new
//@ spec
        ensures r.link_id == link_id,
            if direction { r.node_id == link.a.id && r.last_node_id == link.b.id && r.begin == link.b.point }
            else { r.node_id == link.b.id && r.last_node_id == link.a.id && r.begin == link.a.point }
//@ endfn
}
impl OverlayGraph {
//@ fn core/extract.rs OverlayGraph get_contour
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
            old(visited)@.len() == self.links@.len(), even(self.nodes@, old(visited)@),
            start_data.link_id < self.links@.len(), !old(visited)@[start_data.link_id as int],
            joins(self.links@[start_data.link_id as int], start_data.last_node_id, start_data.node_id),
            start_data.begin == self.links@[start_data.link_id as int].near(start_data.last_node_id).point,
        ensures
            even(self.nodes@, final(visited)@), final(visited)@.len() == old(visited)@.len(),
            exists|walk: Seq<usize>, ids: Seq<usize>|
                #[trigger] contour_of(*self, old(visited)@, final(visited)@, start_data.link_id, r@, walk, ids, clockwise) && ids[0] == start_data.last_node_id,
//@ entry
        hide(walked);
        let ghost pts = choose|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts);
        let ghost v0 = visited@;
//@ before_loop 0
        let ghost mut walk = seq![link_id];
        let ghost mut ids = seq![last_node_id, node_id];
        proof {
            lemma_parity(*self, pts, v0, link_id, last_node_id, node_id, last_node_id);
            lemma_first(*self, v0, link_id, last_node_id, node_id, clockwise);
            assert(visited@ =~= v0.update(link_id as int, true));
        }
//@ loop 0
            invariant
                graph_ok(*self, pts), v0.len() == self.links@.len(), visited@.len() == v0.len(), even_but(self.nodes@, visited@, node_id as int, last_node_id as int),
                last_node_id < self.nodes@.len(), node_id < self.nodes@.len(),
                walked(*self, v0, walk, ids, clockwise), visited@ == marked(v0, walk), traced(*self, contour@, walk, ids),
                ids[0] == last_node_id, ids.last() == node_id, walk.last() == link_id, walk[0] == start_data.link_id,
                forall|k: int| 0 < k < walk.len() ==> #[trigger] ids[k] != last_node_id,
            decreases left(visited@)
//@ loopbody 0
            let ghost (from, at, v) = (link_id, node_id, visited@);
            let ghost list = listed(self.nodes@[at as int]);
            proof {
                lemma_arrived(*self, v0, walk, ids, clockwise);
                assert(walk[walk.len() - 1] == link_id);
                lemma_node_ok(*self, pts, node_id as usize, link_id);
                lemma_visited(v0, walk);
                assert(unseen(list, v) % 2 == 1);
                lemma_some(list, v);
                let q = choose|q: int| 0 <= q < list.len() && list[q] == from;
                match self.nodes@[at as int] {
                    OverlayNode::Bridge(b) => {
                        assert(b@ =~= seq![b[0], b[1]]);
                        lemma_pair(b[0], b[1], v);
                        assert(list[0] == b[0] && list[1] == b[1]);
                    }
                    OverlayNode::Cross(c) => {}
                }
            }
//@ after link
            proof {
                match self.nodes@[at as int] {
                    OverlayNode::Bridge(b) => {
                        assert(candidate(list, v, if b[0] == from { 1 } else { 0 }));
                        lemma_self(way(*self, from as int, at), way(*self, link_id as int, at), clockwise);
                    }
                    OverlayNode::Cross(c) => {}
                }
                assert(exists|p: int| #[trigger] candidate(list, v, p) && list[p] == link_id);
                assert(turns(*self, v, at, from, link_id, clockwise));
            }
//@ loopend 0
            proof {
                assert(joins(self.links@[link_id as int], at, node_id));
                lemma_parity(*self, pts, v, link_id, at, node_id, last_node_id);
                lemma_step(*self, v0, walk, ids, link_id, node_id, clockwise);
                assert(visited@ =~= v.update(link_id as int, true));
                walk = walk.push(link_id);
                ids = ids.push(node_id);
            }
//@ after_loop 0
        proof {
            assert(contour_of(*self, v0, visited@, start_data.link_id, contour@, walk, ids, clockwise));
        }
//@ endfn
}
}
fn main() {}
