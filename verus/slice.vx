// ---- string/filter.rs, string/extract.rs: shapes cut by lines, traced around their filled sides ----
//@ import nearest.vx
//@ include wired.vx
//@ include strung.vx
verus! {
global size_of usize == 8;
//@ item i_shape:int/path.rs type IntPath

//@ item segm/segment.rs const SUBJ_TOP
//@ item segm/segment.rs const SUBJ_BOTTOM
//@ item segm/segment.rs const SUBJ_BOTH
//@ item segm/segment.rs const CLIP_TOP
//@ item segm/segment.rs const CLIP_BOTTOM
//@ item segm/segment.rs const CLIP_BOTH
//@ item string/rule.rs enum StringRule
//@ item string/graph.rs struct StringGraph

// the side bounds a part: it is filled, and the other side is not or a line goes along the edge
pub open spec fn bounds(fill: u8, top: bool) -> bool { shows(fill, top) && (!shows(fill, !top) || fill & 4 != 0 || fill & 8 != 0) }
// a side of an edge, above it or below it
pub struct Side { pub link: int, pub top: bool }
pub open spec fn shows(fill: u8, top: bool) -> bool { if top { fill & 1 != 0 } else { fill & 2 != 0 } }
pub open spec fn clear(fill: u8, top: bool) -> u8 { if top { fill & !1u8 } else { fill & !2u8 } }
pub open spec fn only_sides(f: Seq<u8>) -> bool { forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] <= 3 }
pub open spec fn filled(f: Seq<u8>, s: Side) -> bool { 0 <= s.link < f.len() && shows(f[s.link], s.top) }
pub open spec fn forward(l: Seq<OverlayLink>) -> bool { forall|i: int| 0 <= i < l.len() ==> pt_lt((#[trigger] l[i]).a.point, l[i].b.point) }
// the side that lies ahead on the side of the walk: on the left going out of a node if `left`, else on the right
pub open spec fn beside(l: OverlayLink, node: usize, left: bool) -> bool { (l.a.id == node) == left }

pub proof fn lemma_bits(f: u8)
    ensures SUBJ_TOP == 1, SUBJ_BOTTOM == 2, SUBJ_BOTH == 3,
        shows(f & !1u8, false) == shows(f, false), !shows(f & !1u8, true), shows(f & !2u8, true) == shows(f, true), !shows(f & !2u8, false),
        f <= 3 ==> (f & !1u8) <= 3 && (f & !2u8) <= 3, (f & 3) <= 3, shows(f & 3, true) == shows(f, true), shows(f & 3, false) == shows(f, false),
        f <= 3 ==> ((f == 0) == (!shows(f, true) && !shows(f, false))) && ((f == 3) == (shows(f, true) && shows(f, false))),
        (f & 1 == 1) == shows(f, true),
{
    assert(1u8 | 2u8 == 3u8) by (bit_vector);
    assert((f & !1u8) & 2 == f & 2 && (f & !1u8) & 1 == 0 && (f & !2u8) & 1 == f & 1 && (f & !2u8) & 2 == 0) by (bit_vector);
    assert(f <= 3 ==> (f & !1u8) <= 3 && (f & !2u8) <= 3) by (bit_vector);
    assert((f & 3) <= 3 && (f & 3) & 1 == f & 1 && (f & 3) & 2 == f & 2) by (bit_vector);
    assert(f <= 3 ==> ((f == 0) == (f & 1 == 0 && f & 2 == 0)) && ((f == 3) == (f & 1 != 0 && f & 2 != 0))) by (bit_vector);
    assert((f & 1 == 1) == (f & 1 != 0)) by (bit_vector);
}
pub proof fn lemma_bounds(f: u8)
    ensures SUBJ_BOTH == 3, CLIP_BOTH == 12, (f & 12 == 0) == (f & 4 == 0 && f & 8 == 0), !shows(0u8, true), !shows(0u8, false), (f & 3) <= 3,
        shows(f & 3, true) == shows(f, true), shows(f & 3, false) == shows(f, false), (f & 3 == 3) == (shows(f, true) && shows(f, false)),
{
    assert(1u8 | 2u8 == 3u8 && 4u8 | 8u8 == 12u8) by (bit_vector);
    assert((f & 12 == 0) == (f & 4 == 0 && f & 8 == 0)) by (bit_vector);
    assert((f & 3) <= 3 && (f & 3) & 1 == f & 1 && (f & 3) & 2 == f & 2 && 0u8 & 1 == 0 && 0u8 & 2 == 0) by (bit_vector);
    assert((f & 3 == 3) == (f & 1 != 0 && f & 2 != 0)) by (bit_vector);
}
impl OverlayLink {
//@ fn string/filter.rs OverlayLink visit_fill
//@ spec
        requires pt_lt(self.a.point, self.b.point)
        ensures
            r == clear(fill, beside(*self, node_id, clockwise)),
//@ entry
        proof { lemma_bits(fill); }
//@ endfn
//@ fn string/filter.rs OverlayLink is_move_possible
//@ spec
        requires pt_lt(self.a.point, self.b.point), fill <= 3
        ensures r == shows(fill, beside(*self, node_id, clockwise))
//@ entry
        proof { lemma_bits(fill); }
//@ endfn
}
// ---- the next edge at a node ----
pub open spec fn out_of(l: Seq<OverlayLink>, k: int, node: usize) -> FixVec { diff(l[k].far(node).point, l[k].near(node).point) }
pub open spec fn ends_here(l: Seq<OverlayLink>, k: int, node: usize, c: IntPoint) -> bool {
    0 <= k < l.len() && (l[k].a.id == node || l[k].b.id == node) && l[k].near(node).point == c
    && in_range(l[k].far(node).point) && !(l[k].far(node).point.x == c.x && l[k].far(node).point.y == c.y)
}
// the edge can be walked out of the node with the inside on that side
pub open spec fn open(l: Seq<OverlayLink>, f: Seq<u8>, k: int, node: usize, left: bool) -> bool { filled(f, Side { link: k, top: beside(l[k], node, left) }) }
pub open spec fn choice(l: Seq<OverlayLink>, list: Seq<usize>, f: Seq<u8>, p: int, node: usize, left: bool) -> bool {
    0 <= p < list.len() && open(l, f, list[p] as int, node, left)
}
// the first one in the turn; back along the edge it came only if there is no other
pub open spec fn turned_to(l: Seq<OverlayLink>, list: Seq<usize>, f: Seq<u8>, node: usize, left: bool, came: usize, r: usize) -> bool {
    forall|p: int| #[trigger] choice(l, list, f, p, node, left) && list[p] != came ==>
        r != came && !before(out_of(l, came as int, node), out_of(l, list[p] as int, node), out_of(l, r as int, node), left)
}
impl StringGraph {
//@ fn string/graph.rs StringGraph link
//@ spec
        requires index < self.links@.len()
        ensures *r == self.links@[index as int]
//@ endfn
//@ fn string/graph.rs StringGraph node
//@ spec
        requires index < self.nodes@.len()
        ensures *r == self.nodes@[index as int]
//@ endfn
//@ fn string/filter.rs StringGraph filter
//@ spec
        ensures r@.len() == self.links@.len(), forall|i: int, top: bool| #![trigger shows(r@[i], top)] 0 <= i < r@.len() ==> shows(r@[i], top) == bounds(self.links@[i].fill, top), only_sides(r@)
//@ endfn
//@ fn string/filter.rs StringGraph filter_slice
//@ sub <<<self.links.iter().map(|$L| $B).collect()>>> <<<{ let mut v: Vec<u8> = Vec::new(); for it0 in 0..self.links.len() { let $L = &self.links[it0]; v.push($B); } v }>>>
//@ spec
        ensures r@.len() == self.links@.len(), forall|i: int, top: bool| #![trigger shows(r@[i], top)] 0 <= i < r@.len() ==> shows(r@[i], top) == bounds(self.links@[i].fill, top), only_sides(r@)
//@ loop 0
            invariant v@.len() == it0, forall|i: int, top: bool| #![trigger shows(v@[i], top)] 0 <= i < v@.len() ==> shows(v@[i], top) == bounds(self.links@[i].fill, top), only_sides(v@)
//@ loopbody 0
            proof { lemma_bounds(self.links@[it0 as int].fill); }
//@ endfn
//@ fn string/extract.rs StringGraph find_nearest_link_to
//@ index_loops
//@ spec
        requires
            forward(self.links@), fills@.len() == self.links@.len(), self.links@.len() < usize::MAX, only_sides(fills@), node_id < self.nodes@.len(),
            ends_here(self.links@, target_index as int, node_id, self.links@[target_index as int].near(node_id).point),
            in_range(self.links@[target_index as int].near(node_id).point),
            forall|p: int| #![trigger self.nodes@[node_id as int]@[p]] 0 <= p < self.nodes@[node_id as int]@.len() ==>
                ends_here(self.links@, self.nodes@[node_id as int]@[p] as int, node_id, self.links@[target_index as int].near(node_id).point),
            // no other edge leaves in the direction of the one it came by
            forall|p: int| #![trigger self.nodes@[node_id as int]@[p]] 0 <= p < self.nodes@[node_id as int]@.len() && self.nodes@[node_id as int]@[p] != target_index ==>
                class(out_of(self.links@, target_index as int, node_id), out_of(self.links@, self.nodes@[node_id as int]@[p] as int, node_id), clockwise) != 3,
            exists|p: int| #[trigger] choice(self.links@, self.nodes@[node_id as int]@, fills@, p, node_id, clockwise),
        ensures
            exists|p: int| #[trigger] choice(self.links@, self.nodes@[node_id as int]@, fills@, p, node_id, clockwise) && self.nodes@[node_id as int]@[p] == r,
            turned_to(self.links@, self.nodes@[node_id as int]@, fills@, node_id, clockwise, target_index, r),
//@ entry
        let ghost u = out_of(self.links@, target_index as int, node_id);
        let ghost l = self.links@;
        let ghost list = self.nodes@[node_id as int]@;
        let ghost c0 = l[target_index as int].near(node_id).point;
//@ loop 0
            invariant_except_break
                second_index == usize::MAX,
                forall|p: int| #![trigger choice(l, list, fills@, p, node_id, clockwise)] choice(l, list, fills@, p, node_id, clockwise) && p < it0 ==> list[p] == target_index || (!is_first && list[p] == first_index),
            invariant
                l == self.links@, list == indices@, forward(l), fills@.len() == l.len(), l.len() < usize::MAX, only_sides(fills@),
                forall|p: int| #![trigger list[p]] 0 <= p < list.len() ==> ends_here(l, list[p] as int, node_id, c0),
                is_first == (first_index == usize::MAX),
                !is_first ==> first_index != target_index && exists|p: int| #[trigger] choice(l, list, fills@, p, node_id, clockwise) && list[p] == first_index,
            ensures
                second_index == usize::MAX ==> forall|p: int| #![trigger choice(l, list, fills@, p, node_id, clockwise)] choice(l, list, fills@, p, node_id, clockwise) ==> list[p] == target_index || (!is_first && list[p] == first_index),
                second_index != usize::MAX ==> !is_first && choice(l, list, fills@, pos as int, node_id, clockwise) && list[pos as int] == second_index && second_index != target_index
                    && forall|p: int| #![trigger choice(l, list, fills@, p, node_id, clockwise)] choice(l, list, fills@, p, node_id, clockwise) && p <= pos ==> list[p] == target_index || list[p] == first_index || list[p] == second_index,
//@ loopbody 0
            proof {
                assert(ends_here(l, list[it0 as int] as int, node_id, c0));
                assert(choice(l, list, fills@, it0 as int, node_id, clockwise) == open(l, fills@, list[it0 as int] as int, node_id, clockwise));
            }
//@ before_loop 1
        proof {
            let v = vector_solver.vb;
            let v0 = out_of(l, first_index as int, node_id);
            assert forall|p: int| #[trigger] choice(l, list, fills@, p, node_id, clockwise) && p < pos + 1 && list[p] != target_index implies !before(u, out_of(l, list[p] as int, node_id), v, clockwise) by {
                lemma_self(u, v0, clockwise);
                lemma_self(u, v, clockwise);
                lemma_keep(u, v0, v, out_of(l, list[p] as int, node_id), clockwise);
            }
        }
//@ loop 1
            invariant
                l == self.links@, list == indices@, forward(l), fills@.len() == l.len(), l.len() < usize::MAX, only_sides(fills@),
                nearest_ok(vector_solver), cw_of(vector_solver) == clockwise, vector_solver.va == u, u == out_of(l, target_index as int, node_id), vector_solver.c == c0,
                vector_solver.vb == out_of(l, vector_solver.best_id as int, node_id), vector_solver.best_id != target_index,
                exists|p: int| #[trigger] choice(l, list, fills@, p, node_id, clockwise) && list[p] == vector_solver.best_id,
                forall|p: int| #![trigger list[p]] 0 <= p < list.len() ==> ends_here(l, list[p] as int, node_id, c0),
                forall|p: int| #[trigger] choice(l, list, fills@, p, node_id, clockwise) && p < it1 && list[p] != target_index ==> !before(u, out_of(l, list[p] as int, node_id), vector_solver.vb, clockwise),
//@ loopbody 1
            let ghost v0 = vector_solver.vb;
            proof {
                assert(ends_here(l, list[it1 as int] as int, node_id, c0));
                assert(choice(l, list, fills@, it1 as int, node_id, clockwise) == open(l, fills@, list[it1 as int] as int, node_id, clockwise));
                lemma_back(u, v0, clockwise);
            }
//@ loopend 1
            proof {
                let v1 = vector_solver.vb;
                assert forall|p: int| #[trigger] choice(l, list, fills@, p, node_id, clockwise) && p < it1 + 1 && list[p] != target_index implies !before(u, out_of(l, list[p] as int, node_id), v1, clockwise) by {
                    lemma_keep(u, v0, v1, out_of(l, list[p] as int, node_id), clockwise);
                }
            }
//@ endfn
}
// the direction itself comes last
pub proof fn lemma_back(u: FixVec, v: FixVec, cw: bool)
    requires vec_ok(u)
    ensures class(u, u, cw) == 3, !before(u, u, v, cw)
{
    lemma_norm(u);
    assert(u.x * u.y == u.y * u.x) by (nonlinear_arith);
}

// ---- the walk along the sides ----
pub open spec fn tail(l: Seq<OverlayLink>, s: Side, left: bool) -> IdPoint { if s.top == left { l[s.link].a } else { l[s.link].b } }
pub open spec fn head(l: Seq<OverlayLink>, s: Side, left: bool) -> IdPoint { if s.top == left { l[s.link].b } else { l[s.link].a } }
pub open spec fn off(f: Seq<u8>, s: Side) -> Seq<u8> { f.update(s.link, clear(f[s.link], s.top)) }
pub open spec fn taken(f: Seq<u8>, walk: Seq<Side>) -> Seq<u8>
    decreases walk.len()
{
    if walk.len() == 0 { f } else { off(taken(f, walk.drop_last()), walk.last()) }
}
// the graph after splitting: proper edges in range, no two of them leave a node in one direction
pub open spec fn ready(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>) -> bool {
    &&& strung(l, nodes, pts)
    &&& forward(l)
    &&& l.len() < usize::MAX
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> in_range(l[i].a.point) && in_range(l[i].b.point)
    &&& forall|k: int, p: int, q: int| #![trigger nodes[k]@[p], nodes[k]@[q]] 0 <= k < nodes.len() && 0 <= p < nodes[k]@.len() && 0 <= q < nodes[k]@.len() && p != q ==>
            apart(out_of(l, nodes[k]@[p] as int, k as usize), out_of(l, nodes[k]@[q] as int, k as usize))
}
pub open spec fn apart(u: FixVec, v: FixVec) -> bool { !(cp(u, v) == 0 && dp(u, v) >= 0) }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
// how many sides lead out of the node (with the inside on that side), from these edges
pub open spec fn count(l: Seq<OverlayLink>, list: Seq<usize>, f: Seq<u8>, node: usize, left: bool) -> int
    decreases list.len()
{
    if list.len() == 0 { 0 } else { count(l, list.drop_last(), f, node, left) + one(open(l, f, list.last() as int, node, left)) }
}
// as many sides lead out of every node as into it; one more out of the first given node, one more into the second
pub open spec fn balanced_but(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, left: bool, x: int, y: int) -> bool {
    forall|k: int| #![trigger nodes[k]] 0 <= k < nodes.len() ==> count(l, nodes[k]@, f, k as usize, left) - count(l, nodes[k]@, f, k as usize, !left) == one(k == x) - one(k == y)
}
pub open spec fn balanced(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>) -> bool { balanced_but(l, nodes, f, true, 0, 0) }
pub open spec fn rest(f: Seq<u8>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { rest(f, n - 1) + one(filled(f, Side { link: n - 1, top: true })) as nat + one(filled(f, Side { link: n - 1, top: false })) as nat }
}
pub open spec fn turns_at(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, walk: Seq<Side>, ids: Seq<usize>, left: bool, k: int) -> bool {
    ids[k] < nodes.len() && turned_to(l, nodes[ids[k] as int]@, taken(f, walk.take(k)), ids[k], left, walk[k - 1].link as usize, walk[k].link as usize)
}
// the sides walked one after the other through the nodes: each one filled and not walked before, and the first in the turn
pub open spec fn goes(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, walk: Seq<Side>, ids: Seq<usize>, left: bool) -> bool {
    &&& walk.len() > 0 && ids.len() == walk.len() + 1
    &&& forall|k: int| #![trigger walk[k]] 0 <= k < walk.len() ==> 0 <= walk[k].link < l.len() && tail(l, walk[k], left).id == ids[k] && head(l, walk[k], left).id == ids[k + 1]
            && filled(taken(f, walk.take(k)), walk[k])
    &&& forall|k: int| 0 < k < walk.len() ==> #[trigger] turns_at(l, nodes, f, walk, ids, left, k)
}
pub open spec fn traced(l: Seq<OverlayLink>, points: Seq<IntPoint>, walk: Seq<Side>, left: bool) -> bool {
    points.len() == walk.len() && forall|k: int| #![trigger points[k]] 0 <= k < points.len() ==> points[k] == tail(l, walk[k], left).point
}
// a tour: the walk is back at its first node for the first time
pub open spec fn tour(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f0: Seq<u8>, f1: Seq<u8>, points: Seq<IntPoint>, walk: Seq<Side>, ids: Seq<usize>, left: bool) -> bool {
    goes(l, nodes, f0, walk, ids, left) && ids.last() == ids[0] && (forall|k: int| 0 < k < walk.len() ==> #[trigger] ids[k] != ids[0]) && f1 == taken(f0, walk) && traced(l, points, walk, left)
}
pub proof fn lemma_off(f: Seq<u8>, s: Side)
    requires only_sides(f), filled(f, s)
    ensures only_sides(off(f, s)), off(f, s).len() == f.len(), forall|x: Side| #![trigger filled(off(f, s), x)] filled(off(f, s), x) == (filled(f, x) && x != s)
{
    lemma_bits(f[s.link]);
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] off(f, s)[i] <= 3 by { assert(f[i] <= 3); }
    assert forall|x: Side| #![trigger filled(off(f, s), x)] filled(off(f, s), x) == (filled(f, x) && x != s) by {
        if x.link == s.link { if x.top == s.top { assert(x == s); } } else if 0 <= x.link < f.len() { assert(off(f, s)[x.link] == f[x.link]); }
    }
}
pub proof fn lemma_rest(f: Seq<u8>, s: Side, n: int)
    requires only_sides(f), filled(f, s), 0 <= n <= f.len()
    ensures rest(off(f, s), n) == rest(f, n) - one(s.link < n)
    decreases n
{
    if n > 0 {
        lemma_rest(f, s, n - 1);
        lemma_off(f, s);
        let (u, d) = (Side { link: n - 1, top: true }, Side { link: n - 1, top: false });
        assert(filled(off(f, s), u) == (filled(f, u) && u != s));
        assert(filled(off(f, s), d) == (filled(f, d) && d != s));
        if s.link == n - 1 { assert(s == u || s == d); }
    }
}
pub proof fn lemma_count(l: Seq<OverlayLink>, list: Seq<usize>, f: Seq<u8>, s: Side, node: usize, left: bool)
    requires list.no_duplicates(), only_sides(f), filled(f, s), 0 <= s.link < usize::MAX,
    ensures count(l, list, off(f, s), node, left) == count(l, list, f, node, left) - one(list.contains(s.link as usize) && s.top == beside(l[s.link], node, left))
    decreases list.len()
{
    if list.len() > 0 {
        let t = list.drop_last();
        let i = s.link as usize;
        lemma_off(f, s);
        lemma_count(l, t, f, s, node, left);
        let x = Side { link: list.last() as int, top: beside(l[list.last() as int], node, left) };
        assert(filled(off(f, s), x) == (filled(f, x) && x != s));
        if list.last() == i {
            assert(!t.contains(i)) by { if t.contains(i) { let q = t.index_of(i); assert(list[q] == list[list.len() - 1]); } }
            assert(list.contains(i));
        } else {
            assert(list.contains(i) == t.contains(i)) by {
                if list.contains(i) { let q = list.index_of(i); assert(t[q] == i); }
                if t.contains(i) { let q = t.index_of(i); assert(list[q] == i); }
            }
        }
    }
}
pub proof fn lemma_some(l: Seq<OverlayLink>, list: Seq<usize>, f: Seq<u8>, node: usize, left: bool)
    ensures count(l, list, f, node, left) >= 0, count(l, list, f, node, left) > 0 ==> exists|p: int| #[trigger] choice(l, list, f, p, node, left)
    decreases list.len()
{
    if list.len() > 0 {
        let t = list.drop_last();
        lemma_some(l, t, f, node, left);
        if open(l, f, list.last() as int, node, left) {
            assert(choice(l, list, f, list.len() - 1, node, left));
        } else if count(l, t, f, node, left) > 0 {
            let p = choose|p: int| choice(l, t, f, p, node, left);
            assert(choice(l, list, f, p, node, left));
        }
    }
}
// a side is walked from x to y
pub proof fn lemma_walk(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>, f: Seq<u8>, s: Side, left: bool, last: int)
    requires ready(l, nodes, pts), f.len() == l.len(), only_sides(f), filled(f, s), balanced_but(l, nodes, f, left, tail(l, s, left).id as int, last)
    ensures
        balanced_but(l, nodes, off(f, s), left, head(l, s, left).id as int, last), tail(l, s, left).id != head(l, s, left).id,
        tail(l, s, left).id < nodes.len(), head(l, s, left).id < nodes.len(), rest(off(f, s), f.len() as int) < rest(f, f.len() as int), only_sides(off(f, s)),
{
    reveal(meets);
    let (x, y, g) = (tail(l, s, left).id, head(l, s, left).id, off(f, s));
    lemma_off(f, s);
    lemma_rest(f, s, f.len() as int);
    let k0 = l[s.link];
    assert(meets(k0.a, s.link, nodes, pts) && meets(k0.b, s.link, nodes, pts) && pt_lt(k0.a.point, k0.b.point));
    assert forall|k: int| #![trigger nodes[k]] 0 <= k < nodes.len() implies count(l, nodes[k]@, g, k as usize, left) - count(l, nodes[k]@, g, k as usize, !left) == one(k == y) - one(k == last) by {
        let list = nodes[k]@;
        lemma_count(l, list, f, s, k as usize, left);
        lemma_count(l, list, f, s, k as usize, !left);
        if list.contains(s.link as usize) { let q = list.index_of(s.link as usize); assert(nodes[k]@[q] == s.link); }
        if k == x || k == y { let q = choose|q: int| 0 <= q < nodes[k]@.len() && #[trigger] nodes[k]@[q] == s.link; assert(list.contains(s.link as usize)) by { assert(list[q] == s.link as usize); } }
    }
}
pub proof fn lemma_turned(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, left: bool, x: int)
    ensures balanced_but(l, nodes, f, left, x, x) == balanced(l, nodes, f)
{
    if balanced(l, nodes, f) {
        assert forall|k: int| #![trigger nodes[k]] 0 <= k < nodes.len() implies count(l, nodes[k]@, f, k as usize, left) - count(l, nodes[k]@, f, k as usize, !left) == 0 by {}
    }
    if balanced_but(l, nodes, f, left, x, x) {
        assert forall|k: int| #![trigger nodes[k]] 0 <= k < nodes.len() implies count(l, nodes[k]@, f, k as usize, true) - count(l, nodes[k]@, f, k as usize, false) == 0 by {
            assert(count(l, nodes[k]@, f, k as usize, left) - count(l, nodes[k]@, f, k as usize, !left) == 0);
        }
    }
}
// what the choice at a node needs
pub proof fn lemma_node(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>, f: Seq<u8>, left: bool, k: usize, last: usize, came: usize)
    requires ready(l, nodes, pts), balanced_but(l, nodes, f, left, k as int, last as int), k < nodes.len(), k != last, came < l.len(), l[came as int].a.id == k || l[came as int].b.id == k
    ensures
        ends_here(l, came as int, k, l[came as int].near(k).point), in_range(l[came as int].near(k).point), l[came as int].near(k).point == pts[k as int],
        forall|p: int| #![trigger nodes[k as int]@[p]] 0 <= p < nodes[k as int]@.len() ==> ends_here(l, nodes[k as int]@[p] as int, k, l[came as int].near(k).point),
        forall|p: int| #![trigger nodes[k as int]@[p]] 0 <= p < nodes[k as int]@.len() && nodes[k as int]@[p] != came ==>
            class(out_of(l, came as int, k), out_of(l, nodes[k as int]@[p] as int, k), left) != 3,
        exists|p: int| #[trigger] choice(l, nodes[k as int]@, f, p, k, left), forward(l), l.len() < usize::MAX,
{
    reveal(meets);
    let t = l[came as int];
    let list = nodes[k as int]@;
    assert(meets(t.a, came as int, nodes, pts) && meets(t.b, came as int, nodes, pts) && pt_lt(t.a.point, t.b.point));
    let q = choose|q: int| 0 <= q < nodes[k as int]@.len() && #[trigger] nodes[k as int]@[q] == came;
    assert forall|p: int| #![trigger nodes[k as int]@[p]] 0 <= p < list.len() implies ends_here(l, list[p] as int, k, pts[k as int]) by {
        let o = l[list[p] as int];
        assert(meets(o.a, list[p] as int, nodes, pts) && meets(o.b, list[p] as int, nodes, pts) && pt_lt(o.a.point, o.b.point));
    }
    assert forall|p: int| #![trigger nodes[k as int]@[p]] 0 <= p < list.len() && list[p] != came implies class(out_of(l, came as int, k), out_of(l, list[p] as int, k), left) != 3 by {
        assert(nodes[k as int]@[q] == came);
        assert(apart(out_of(l, came as int, k), out_of(l, list[p] as int, k)));
    }
    lemma_some(l, list, f, k, left);
    lemma_some(l, list, f, k, !left);
}
pub proof fn lemma_take(f: Seq<u8>, walk: Seq<Side>, s: Side)
    ensures taken(f, walk.push(s)) == off(taken(f, walk), s), walk.push(s).take(walk.len() as int) == walk,
        forall|k: int| #![trigger walk.push(s).take(k)] 0 <= k <= walk.len() ==> walk.push(s).take(k) == walk.take(k)
{
    assert(walk.push(s).drop_last() =~= walk);
    assert forall|k: int| #![trigger walk.push(s).take(k)] 0 <= k <= walk.len() implies walk.push(s).take(k) == walk.take(k) by { assert(walk.push(s).take(k) =~= walk.take(k)); }
    assert(walk.take(walk.len() as int) =~= walk);
}
pub proof fn lemma_first(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, s: Side, left: bool)
    requires f.len() == l.len(), filled(f, s)
    ensures goes(l, nodes, f, seq![s], seq![tail(l, s, left).id, head(l, s, left).id], left), taken(f, seq![s]) == off(f, s)
{
    let w = seq![s];
    assert(w.take(0) =~= Seq::<Side>::empty());
    assert(w.drop_last() =~= Seq::<Side>::empty());
    reveal_with_fuel(taken, 3);
}
pub proof fn lemma_go_on(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, walk: Seq<Side>, ids: Seq<usize>, left: bool, s: Side)
    requires
        goes(l, nodes, f, walk, ids, left), 0 <= s.link < l.len(), filled(taken(f, walk), s), tail(l, s, left).id == ids.last(), ids.last() < nodes.len(),
        turned_to(l, nodes[ids.last() as int]@, taken(f, walk), ids.last(), left, walk.last().link as usize, s.link as usize),
    ensures goes(l, nodes, f, walk.push(s), ids.push(head(l, s, left).id), left), taken(f, walk.push(s)) == off(taken(f, walk), s)
{
    hide(turned_to);
    hide(taken);
    hide(filled);
    hide(tail);
    hide(head);
    let (w, d) = (walk.push(s), ids.push(head(l, s, left).id));
    lemma_take(f, walk, s);
    assert(w[walk.len() - 1] == walk.last() && w.last() == s && d[walk.len() as int] == ids.last() && d[w.len() as int] == head(l, s, left).id);
    assert forall|k: int| #![trigger w[k]] 0 <= k < w.len() implies 0 <= w[k].link < l.len() && tail(l, w[k], left).id == d[k] && head(l, w[k], left).id == d[k + 1] && filled(taken(f, w.take(k)), w[k]) by {
        assert(w.take(k) == walk.take(k));
        if k == walk.len() { assert(walk.take(k) =~= walk); } else { assert(w[k] == walk[k]); }
    }
    assert forall|k: int| 0 < k < w.len() implies #[trigger] turns_at(l, nodes, f, w, d, left, k) by {
        assert(w.take(k) == walk.take(k));
        if k == walk.len() { assert(walk.take(k) =~= walk); } else { assert(turns_at(l, nodes, f, walk, ids, left, k)); assert(w[k] == walk[k]); assert(w[k - 1] == walk[k - 1]); }
    }
}
pub proof fn lemma_forward(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>, i: int)
    requires ready(l, nodes, pts), 0 <= i < l.len()
    ensures pt_lt(l[i].a.point, l[i].b.point)
{}
pub proof fn lemma_arrived(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, walk: Seq<Side>, ids: Seq<usize>, left: bool)
    requires goes(l, nodes, f, walk, ids, left)
    ensures walk.len() > 0, ids.len() == walk.len() + 1, 0 <= walk.last().link < l.len(), head(l, walk.last(), left).id == ids.last()
{
    assert(walk[walk.len() - 1] == walk.last());
}
impl StringGraph {
//@ fn string/extract.rs StringGraph get_paths
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] ready(self.links@, self.nodes@, pts),
            old(fills)@.len() == self.links@.len(), only_sides(old(fills)@), balanced(self.links@, self.nodes@, old(fills)@),
            start_index < self.links@.len(), shows(old(fills)@[start_index as int], clockwise),
        ensures
            final(fills)@.len() == old(fills)@.len(), only_sides(final(fills)@), balanced(self.links@, self.nodes@, final(fills)@),
            exists|walk: Seq<Side>, ids: Seq<usize>| #[trigger] tour(self.links@, self.nodes@, old(fills)@, final(fills)@, r@, walk, ids, clockwise),
//@ entry
        hide(ready);
        hide(balanced_but);
        hide(goes);
        hide(turned_to);
        hide(class);
        hide(rest);
        hide(only_sides);
        let ghost (l, nodes, f0) = (self.links@, self.nodes@, fills@);
        let ghost pts = choose|pts: Seq<IntPoint>| #[trigger] ready(l, nodes, pts);
        let ghost s0 = Side { link: start_index as int, top: clockwise };
        let ghost mut walk = seq![s0];
        let ghost mut ids = seq![tail(l, s0, clockwise).id, head(l, s0, clockwise).id];
        proof {
            lemma_forward(l, nodes, pts, start_index as int);
            lemma_turned(l, nodes, f0, clockwise, tail(l, s0, clockwise).id as int);
            lemma_walk(l, nodes, pts, f0, s0, clockwise, tail(l, s0, clockwise).id as int);
            lemma_first(l, nodes, f0, s0, clockwise);
        }
//@ before_loop 0
        assert(fills@ =~= off(f0, s0));
//@ loop 0
            invariant
                l == self.links@, nodes == self.nodes@, ready(l, nodes, pts), f0.len() == l.len(), fills@.len() == l.len(), only_sides(fills@),
                balanced_but(l, nodes, fills@, clockwise, node_id as int, last_node_id as int), last_node_id < nodes.len(), node_id < nodes.len(),
                goes(l, nodes, f0, walk, ids, clockwise), fills@ == taken(f0, walk), traced(l, path@, walk, clockwise),
                ids[0] == last_node_id, ids.last() == node_id, walk.last().link == link_id, link_id < l.len(),
                forall|k: int| 0 < k < walk.len() ==> #[trigger] ids[k] != last_node_id,
            decreases rest(fills@, fills@.len() as int)
//@ loopbody 0
            let ghost (came, at, f) = (link_id, node_id, fills@);
            proof {
                lemma_arrived(l, nodes, f0, walk, ids, clockwise);
                lemma_node(l, nodes, pts, f, clockwise, at, last_node_id, came);
            }
//@ after link
            let ghost s = Side { link: link_id as int, top: beside(l[link_id as int], at, clockwise) };
            proof {
                let p = choose|p: int| #[trigger] choice(l, nodes[at as int]@, f, p, at, clockwise) && nodes[at as int]@[p] == link_id;
                assert(ends_here(l, nodes[at as int]@[p] as int, at, l[came as int].near(at).point));
                lemma_forward(l, nodes, pts, link_id as int);
                lemma_go_on(l, nodes, f0, walk, ids, clockwise, s);
                lemma_walk(l, nodes, pts, f, s, clockwise, last_node_id as int);
            }
//@ loopend 0
            proof {
                assert(fills@ =~= off(f, s));
                walk = walk.push(s);
                ids = ids.push(head(l, s, clockwise).id);
            }
//@ after_loop 0
        proof {
            lemma_turned(l, nodes, fills@, clockwise, node_id as int);
            assert(tour(l, nodes, f0, fills@, path@, walk, ids, clockwise));
        }
//@ endfn
}
}
fn main() {}
