// ---- vector/: contours with the fill beside their edges ----
//@ import tours.vx
verus! {
//@ item vector/edge.rs type SideFill
//@ item vector/edge.rs struct VectorEdge
//@ item vector/edge.rs type VectorPath
//@ item vector/edge.rs type VectorShape
//@ item vector/edge.rs const SUBJ_LEFT
//@ item vector/edge.rs const SUBJ_RIGHT
//@ item vector/edge.rs const CLIP_LEFT
//@ item vector/edge.rs const CLIP_RIGHT
//@ item vector/extract_vectors.rs struct StartVectorPathData

// the fill of the same edge seen the other way: left and right change places
pub open spec fn turned(f: u8, r: u8) -> bool {
    &&& (r & 1 != 0) == (f & 2 != 0) && (r & 2 != 0) == (f & 1 != 0)
    &&& (r & 4 != 0) == (f & 8 != 0) && (r & 8 != 0) == (f & 4 != 0)
    &&& r < 16
}
// the link as an edge from its end at the node: the fill is that of the link, seen in the direction of the edge
pub open spec fn edge_of(e: VectorEdge, l: OverlayLink, id: usize) -> bool {
    &&& e.a == l.near(id).point && e.b == l.far(id).point
    &&& if pt_lt(e.a, e.b) { e.fill == l.fill } else { turned(l.fill, e.fill) }
}
pub open spec fn edges_of(g: OverlayGraph, path: Seq<VectorEdge>, walk: Seq<usize>, ids: Seq<usize>) -> bool {
    path.len() == walk.len() && forall|k: int| #![trigger path[k]] 0 <= k < path.len() ==> edge_of(path[k], g.links@[walk[k] as int], ids[k])
}
pub open spec fn starts(path: Seq<VectorEdge>) -> Seq<IntPoint> { Seq::new(path.len(), |i: int| path[i].a) }
pub trait Reverse: Sized {
    spec fn turns_to(self, r: Self) -> bool;
    fn reverse(self) -> (r: Self)
        ensures self.turns_to(r);
}
impl Reverse for SideFill {
    open spec fn turns_to(self, r: Self) -> bool { turned(self, r) }
//@ fn vector/edge.rs Reverse for SideFill reverse
//@ nopub
//@ entry
        let f = self;
        proof {
            let r = ((f & 1) << 1) | ((f & 2) >> 1) | ((f & 4) << 1) | ((f & 8) >> 1);
            assert(r & 1 != 0 <==> f & 2 != 0) by (bit_vector) requires r == ((f & 1) << 1) | ((f & 2) >> 1) | ((f & 4) << 1) | ((f & 8) >> 1);
            assert(r & 2 != 0 <==> f & 1 != 0) by (bit_vector) requires r == ((f & 1) << 1) | ((f & 2) >> 1) | ((f & 4) << 1) | ((f & 8) >> 1);
            assert(r & 4 != 0 <==> f & 8 != 0) by (bit_vector) requires r == ((f & 1) << 1) | ((f & 2) >> 1) | ((f & 4) << 1) | ((f & 8) >> 1);
            assert(r & 8 != 0 <==> f & 4 != 0) by (bit_vector) requires r == ((f & 1) << 1) | ((f & 2) >> 1) | ((f & 4) << 1) | ((f & 8) >> 1);
            assert(r < 16) by (bit_vector) requires r == ((f & 1) << 1) | ((f & 2) >> 1) | ((f & 4) << 1) | ((f & 8) >> 1);
        }
//@ endfn
}
impl VectorEdge {
//@ fn vector/edge.rs VectorEdge new
//@ spec
        ensures r.a == a, r.b == b, if pt_lt(a, b) { r.fill == fill } else { turned(fill, r.fill) }
//@ endfn
}
impl OverlayGraph {
//@ fn vector/extract_vectors.rs OverlayGraph get_vector_path
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
            old(visited)@.len() == self.links@.len(), even(self.nodes@, old(visited)@),
            start_data.link_id < self.links@.len(), !old(visited)@[start_data.link_id as int],
            joins(self.links@[start_data.link_id as int], start_data.last_node_id, start_data.node_id),
            start_data.a == self.links@[start_data.link_id as int].near(start_data.last_node_id).point,
            start_data.b == self.links@[start_data.link_id as int].far(start_data.last_node_id).point,
            start_data.fill == self.links@[start_data.link_id as int].fill,
        ensures
            even(self.nodes@, final(visited)@), final(visited)@.len() == old(visited)@.len(),
            exists|walk: Seq<usize>, ids: Seq<usize>|
                #[trigger] contour_of(*self, old(visited)@, final(visited)@, start_data.link_id, starts(r@), walk, ids, clockwise) && ids[0] == start_data.last_node_id
                && edges_of(*self, r@, walk, ids),
//@ entry
        hide(walked);
        hide(turned);
        let ghost pts = choose|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts);
        let ghost v0 = visited@;
//@ before_loop 0
        let ghost mut walk = seq![link_id];
        let ghost mut ids = seq![last_node_id, node_id];
        proof {
            lemma_parity(*self, pts, v0, link_id, last_node_id, node_id, last_node_id);
            lemma_first(*self, v0, link_id, last_node_id, node_id, clockwise);
            assert(visited@ =~= v0.update(link_id as int, true));
        }
//@ loop 0
            invariant
                graph_ok(*self, pts), v0.len() == self.links@.len(), visited@.len() == v0.len(), even_but(self.nodes@, visited@, node_id as int, last_node_id as int),
                last_node_id < self.nodes@.len(), node_id < self.nodes@.len(),
                walked(*self, v0, walk, ids, clockwise), visited@ == marked(v0, walk), edges_of(*self, path@, walk, ids),
                ids[0] == last_node_id, ids.last() == node_id, walk.last() == link_id, walk[0] == start_data.link_id,
                forall|k: int| 0 < k < walk.len() ==> #[trigger] ids[k] != last_node_id,
            decreases left(visited@)
//@ loopbody 0
            let ghost (from, at, v) = (link_id, node_id, visited@);
            let ghost list = listed(self.nodes@[at as int]);
            proof {
                lemma_arrived(*self, v0, walk, ids, clockwise);
                assert(walk[walk.len() - 1] == link_id);
                lemma_node_ok(*self, pts, node_id as usize, link_id);
                lemma_visited(v0, walk);
                assert(unseen(list, v) % 2 == 1);
                lemma_some(list, v);
                let q = choose|q: int| 0 <= q < list.len() && list[q] == from;
                match self.nodes@[at as int] {
                    OverlayNode::Bridge(b) => {
                        assert(b@ =~= seq![b[0], b[1]]);
                        lemma_pair(b[0], b[1], v);
                        assert(list[0] == b[0] && list[1] == b[1]);
                    }
                    OverlayNode::Cross(c) => {}
                }
            }
//@ after link
            proof {
                match self.nodes@[at as int] {
                    OverlayNode::Bridge(b) => {
                        assert(candidate(list, v, if b[0] == from { 1 } else { 0 }));
                        lemma_self(way(*self, from as int, at), way(*self, link_id as int, at), clockwise);
                    }
                    OverlayNode::Cross(c) => {}
                }
                assert(exists|p: int| #[trigger] candidate(list, v, p) && list[p] == link_id);
                assert(turns(*self, v, at, from, link_id, clockwise));
            }
//@ loopend 0
            proof {
                assert(joins(self.links@[link_id as int], at, node_id));
                lemma_parity(*self, pts, v, link_id, at, node_id, last_node_id);
                lemma_step(*self, v0, walk, ids, link_id, node_id, clockwise);
                assert(visited@ =~= v.update(link_id as int, true));
                walk = walk.push(link_id);
                ids = ids.push(node_id);
            }
//@ after_loop 0
        proof {
            assert(traced(*self, starts(path@), walk, ids));
            assert(contour_of(*self, v0, visited@, start_data.link_id, starts(path@), walk, ids, clockwise));
        }
//@ endfn
}
// ---- all contours ----
// which links a rule leaves out, given to it as marks (proved for every rule and fill by C02)
pub uninterp spec fn left_out(rule: OverlayRule, fill: SegmentFill) -> bool;
pub open spec fn rule_marks(links: Seq<OverlayLink>, rule: OverlayRule) -> Seq<bool> { Seq::new(links.len(), |i: int| left_out(rule, links[i].fill)) }
pub trait MaskFilter {
    spec fn all(&self) -> Seq<OverlayLink>;
    fn filter_by_rule(&self, fill_rule: OverlayRule) -> (r: Vec<bool>)
        ensures r@ == rule_marks(self.all(), fill_rule);
}
impl MaskFilter for Vec<OverlayLink> {
    open spec fn all(&self) -> Seq<OverlayLink> { self@ }
    #[verifier::external_body] fn filter_by_rule(&self, fill_rule: OverlayRule) -> (r: Vec<bool>) { unimplemented!() }
}
pub trait JoinVectors {
    spec fn items(&self) -> Seq<VectorShape>;
    fn join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool)
        requires forall|i: int| 0 <= i < old(self).items().len() ==> (#[trigger] old(self).items()[i])@.len() == 1,
        ensures joined(outers(old(self).items()), points(holes@), final(self).items());
}
impl JoinVectors for Vec<VectorShape> {
    open spec fn items(&self) -> Seq<VectorShape> { self@ }
    #[verifier::external_body] fn join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool) { unimplemented!() }
}
// every tour drawn as edges
pub open spec fn drawn(g: OverlayGraph, t: Seq<Tour>, vs: Seq<Seq<VectorEdge>>) -> bool {
    vs.len() == t.len() && forall|k: int| #![trigger vs[k]] 0 <= k < vs.len() ==> edges_of(g, vs[k], t[k].walk, t[k].ids)
}
pub open spec fn picked(t: Seq<Tour>, vs: Seq<Seq<VectorEdge>>, hole: bool) -> Seq<Seq<VectorEdge>>
    decreases vs.len()
{
    if vs.len() == 0 || vs.len() != t.len() { seq![] } else {
        let s = picked(t.drop_last(), vs.drop_last(), hole);
        if t.last().hole == hole { s.push(vs.last()) } else { s }
    }
}
pub proof fn lemma_drawn(g: OverlayGraph, t: Seq<Tour>, vs: Seq<Seq<VectorEdge>>, x: Tour, v: Seq<VectorEdge>)
    requires drawn(g, t, vs), edges_of(g, v, x.walk, x.ids)
    ensures drawn(g, t.push(x), vs.push(v)), forall|hole: bool| #[trigger] picked(t.push(x), vs.push(v), hole) == if x.hole == hole { picked(t, vs, hole).push(v) } else { picked(t, vs, hole) }
{
    assert(t.push(x).drop_last() =~= t);
    assert(vs.push(v).drop_last() =~= vs);
}
pub open spec fn vector_contour(g: OverlayGraph, v0: Seq<bool>, v1: Seq<bool>, link: usize, last: usize, path: Seq<VectorEdge>, dir: bool) -> bool {
    exists|walk: Seq<usize>, ids: Seq<usize>| #[trigger] contour_of(g, v0, v1, link, starts(path), walk, ids, dir) && ids[0] == last && edges_of(g, path, walk, ids)
}
pub proof fn lemma_next_vectors(g: OverlayGraph, v0: Seq<bool>, t: Seq<Tour>, rule: OverlayRule, v2: Seq<bool>, path: Seq<VectorEdge>, i: usize, hole: bool) -> (x: Tour)
    requires
        tours_ok(g, v0, t, rule, true), after_tours(v0, t).len() == g.links@.len(), left_top(g, after_tours(v0, t), i as int), hole == fill_top(rule, g.links@[i as int].fill),
        vector_contour(g, after_tours(v0, t), v2, i, if hole { g.links@[i as int].b.id } else { g.links@[i as int].a.id }, path, hole),
    ensures
        tours_ok(g, v0, t.push(x), rule, true), after_tours(v0, t.push(x)) == v2, v2.len() == g.links@.len(), left(v2) < left(after_tours(v0, t)),
        forall|j: int| 0 <= j < v2.len() && after_tours(v0, t)[j] ==> #[trigger] v2[j],
        x.raw == starts(path), x.hole == hole, edges_of(g, path, x.walk, x.ids),
{
    let v1 = after_tours(v0, t);
    let raw = starts(path);
    let (walk, ids) = choose|walk: Seq<usize>, ids: Seq<usize>| #[trigger] contour_of(g, v1, v2, i, raw, walk, ids, hole) && ids[0] == (if hole { g.links@[i as int].b.id } else { g.links@[i as int].a.id }) && edges_of(g, path, walk, ids);
    let x = Tour { walk, ids, raw, hole };
    assert(tour_ok(g, v1, x, rule, true));
    lemma_tours_push(g, v0, t, rule, true, x);
    lemma_fewer(v1, walk);
    assert forall|j: int| 0 <= j < v2.len() && v1[j] implies #[trigger] v2[j] by { lemma_tour(g, v1, x, rule, true, j); }
    x
}
// one edge for every link, in the direction of the link
pub open spec fn separate(links: Seq<OverlayLink>, r: Seq<VectorEdge>) -> bool {
    r.len() == links.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).a == links[i].a.point && r[i].b == links[i].b.point && r[i].fill == links[i].fill
}
impl OverlayGraph {
//@ fn vector/extract_vectors.rs OverlayGraph extract_separate_vectors
//@ sub <<<self.links.iter().map(|$L| $B).collect()>>> <<<{ let mut out: Vec<VectorEdge> = Vec::new(); for at in 0..self.links.len() { let $L = &self.links[at]; out.push($B); } out }>>>
//@ spec
        ensures separate(self.links@, r@)
//@ loop 0
            invariant out@.len() == at, forall|i: int| 0 <= i < at ==> (#[trigger] out@[i]).a == self.links@[i].a.point && out@[i].b == self.links@[i].b.point && out@[i].fill == self.links@[i].fill
//@ endfn
//@ fn vector/extract_vectors.rs OverlayGraph extract_shape_vectors
//@ sub <<<let &is_visited = $X;>>> <<<let is_visited = *($X);>>>
//@ sub <<<self.get_vector_path($A)>>> <<<{ let p = self.get_vector_path($A); proof { assert(vector_contour(*self, v1, visited@, left_top_link, if is_hole { self.links@[left_top_link as int].b.id } else { self.links@[left_top_link as int].a.id }, p@, is_hole)); let x = lemma_next_vectors(*self, v0, t, overlay_rule, visited@, p@, left_top_link, is_hole); lemma_drawn(*self, t, vs, x, p@); t = t.push(x); vs = vs.push(p@); } p }>>>
//@ sub <<<binding.as_mut_slice()>>> <<<as_mut_slice(&mut binding)>>>
//@ sub <<<let mut shapes = Vec::new();>>> <<<let mut shapes: Vec<VectorShape> = Vec::new();>>>
//@ sub <<<let mut holes = Vec::new();>>> <<<let mut holes: Vec<VectorPath> = Vec::new();>>>
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
            forward(self.links@), in_order(self.links@), even(self.nodes@, rule_marks(self.links@, overlay_rule)),
        ensures
            exists|t: Seq<Tour>, vs: Seq<Seq<VectorEdge>>| #[trigger] drawn(*self, t, vs) && toured(*self, rule_marks(self.links@, overlay_rule), t, overlay_rule, true)
                && joined(picked(t, vs, false), picked(t, vs, true), r@),
//@ entry
        hide(graph_ok);
        hide(even_but);
        hide(forward);
        hide(in_order);
        hide(tours_ok);
        hide(contour_of);
        hide(left_top);
        hide(joined);
        hide(drawn);
        let ghost v0 = rule_marks(self.links@, overlay_rule);
        proof { lemma_no_tours(*self, v0, overlay_rule, true); lemma_none_drawn(*self); }
        let ghost mut t: Seq<Tour> = seq![];
        let ghost mut vs: Seq<Seq<VectorEdge>> = seq![];
//@ loop 0
            invariant
                exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
                forward(self.links@), in_order(self.links@), v0.len() == self.links@.len(), visited@.len() == v0.len(), link_index <= v0.len(),
                even(self.nodes@, visited@), visited@ == after_tours(v0, t), tours_ok(*self, v0, t, overlay_rule, true), drawn(*self, t, vs),
                forall|j: int| 0 <= j < link_index ==> #[trigger] visited@[j],
                forall|i: int| 0 <= i < shapes@.len() ==> (#[trigger] shapes@[i])@.len() == 1,
                outers(shapes@) == picked(t, vs, false), points(holes@) == picked(t, vs, true),
            decreases left(visited@), v0.len() - link_index
//@ before left_top_link
            let ghost v1 = visited@;
            let ghost t1 = t;
            let ghost (s1, h1) = (shapes@, holes@);
//@ after left_top_link
            proof {
                lemma_left_top(*self, visited@, left_top_link as int);
                lemma_two_ends(*self, left_top_link as int);
            }
//@ loopend 0
            proof {
                assert(outers(shapes@) =~= picked(t, vs, false));
                assert(points(holes@) =~= picked(t, vs, true));
            }
//@ after_loop 0
        proof {
            assert forall|i: int| #![trigger v0[i]] 0 <= i < v0.len() implies times_all(t, i) == (if v0[i] { 0int } else { 1 }) by { lemma_tours(*self, v0, t, overlay_rule, true, i); }
            assert(toured(*self, v0, t, overlay_rule, true));
        }
//@ endfn
}
pub proof fn lemma_none_drawn(g: OverlayGraph) ensures drawn(g, seq![], seq![]) {}
pub trait ToPath {
    spec fn run(&self) -> Seq<VectorEdge>;
    fn to_path(&self) -> (r: IntPath)
        ensures r@ == starts(self.run());
}
impl ToPath for VectorPath {
    open spec fn run(&self) -> Seq<VectorEdge> { self@ }
//@ fn vector/edge.rs ToPath for VectorPath to_path
//@ sub <<<self.iter().map(|$L| $B).collect()>>> <<<{ let mut out: Vec<IntPoint> = Vec::new(); for at in 0..self.len() { let $L = &self[at]; out.push($B); } proof { assert(out@ =~= starts(self@)); } out }>>>
//@ nopub
//@ loop 0
            invariant out@.len() == at, forall|i: int| 0 <= i < at ==> #[trigger] out@[i] == self@[i].a
//@ endfn
}
}
fn main() {}
