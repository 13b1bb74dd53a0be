// ---- core/extract.rs: all contours together ----
//@ import walk.vx
//@ include right.vx
//@ include area.vx
//@ include joined.vx
verus! {
//@ item i_shape:int/shape.rs type IntShapes
//@ item core/overlay.rs enum ContourDirection
//@ item core/overlay_rule.rs enum OverlayRule
//@ item geom/v_segment.rs struct VSegment
//@ item bind/segment.rs struct ContourIndex
//@ item bind/segment.rs struct IdSegment

pub open spec fn forward(l: Seq<OverlayLink>) -> bool { forall|i: int| 0 <= i < l.len() ==> pt_lt((#[trigger] l[i]).a.point, l[i].b.point) }
pub open spec fn in_order(l: Seq<OverlayLink>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> !pt_lt((#[trigger] l[j]).a.point, (#[trigger] l[i]).a.point) }
// no link before i is left
pub open spec fn first(v: Seq<bool>, i: int) -> bool { 0 <= i < v.len() && !v[i] && forall|j: int| 0 <= j < i ==> #[trigger] v[j] }
// the uppermost of the links left at the most left point
pub open spec fn left_top(g: OverlayGraph, v: Seq<bool>, i: int) -> bool {
    &&& 0 <= i < g.links@.len() && !v[i]
    &&& forall|j: int| #![trigger v[j]] 0 <= j < g.links@.len() && !v[j] ==> !pt_lt(g.links@[j].a.point, g.links@[i].a.point)
    &&& forall|j: int| #![trigger v[j]] 0 <= j < g.links@.len() && !v[j] && g.links@[j].a.point == g.links@[i].a.point ==> area2(g.links@[i].a.point, g.links@[i].b.point, g.links@[j].b.point) >= 0
}
pub open spec fn ahead(l: OverlayLink) -> FixVec { diff(l.b.point, l.a.point) }
pub proof fn lemma_ahead(l: OverlayLink)
    requires in_range(l.a.point), in_range(l.b.point), pt_lt(l.a.point, l.b.point)
    ensures vec_ok(ahead(l)), right(ahead(l))
{}
// a link that is left starts where the first one that is left does, if it touches that point
pub proof fn lemma_starts(g: OverlayGraph, pts: Seq<IntPoint>, v: Seq<bool>, i: int, j: int)
    requires graph_ok(g, pts), forward(g.links@), in_order(g.links@), v.len() == g.links@.len(), first(v, i), 0 <= j < v.len(), !v[j],
    ensures g.links@[j].a.id == g.links@[i].a.id <==> g.links@[j].a.point == g.links@[i].a.point,
        g.links@[j].b.id != g.links@[i].a.id, !pt_lt(g.links@[j].a.point, g.links@[i].a.point),
{
    reveal(end_at);
    let (x, y) = (g.links@[i], g.links@[j]);
    assert(end_at(x.a, i, g.nodes@, pts) && end_at(y.a, j, g.nodes@, pts) && end_at(y.b, j, g.nodes@, pts));
    if j < i { assert(v[j]); }
    if j == i { assert(pt_lt(x.a.point, x.b.point)); }
    if j > i { assert(!pt_lt(y.a.point, x.a.point)); assert(pt_lt(y.a.point, y.b.point)); }
}
// the links left that start at the most left point are listed at its node
pub proof fn lemma_listed(g: OverlayGraph, pts: Seq<IntPoint>, v: Seq<bool>, i: int, t: int)
    requires graph_ok(g, pts), forward(g.links@), in_order(g.links@), v.len() == g.links@.len(), first(v, i), 0 <= t < v.len(), !v[t],
        g.links@[t].a.id == g.links@[i].a.id, g.links@[i].a.id < g.nodes@.len(),
        forall|p: int| #![trigger listed(g.nodes@[g.links@[i].a.id as int])[p]] candidate(listed(g.nodes@[g.links@[i].a.id as int]), v, p) ==>
            area2(g.links@[t].a.point, g.links@[t].b.point, g.links@[listed(g.nodes@[g.links@[i].a.id as int])[p] as int].b.point) >= 0,
    ensures left_top(g, v, t)
{
    lemma_starts(g, pts, v, i, t);
    assert forall|j: int| #![trigger v[j]] 0 <= j < g.links@.len() && !v[j] implies !pt_lt(g.links@[j].a.point, g.links@[t].a.point) by { lemma_starts(g, pts, v, i, j); }
    assert forall|j: int| #![trigger v[j]] 0 <= j < g.links@.len() && !v[j] && g.links@[j].a.point == g.links@[t].a.point implies area2(g.links@[t].a.point, g.links@[t].b.point, g.links@[j].b.point) >= 0 by {
        reveal(end_at);
        lemma_starts(g, pts, v, i, j);
        assert(end_at(g.links@[j].a, j, g.nodes@, pts));
        let list = listed(g.nodes@[g.links@[i].a.id as int]);
        let p = choose|p: int| 0 <= p < list.len() && #[trigger] list[p] == j;
        assert(candidate(list, v, p));
    }
}

// two links at the most left point: both are left and start there
pub proof fn lemma_bridge_left(g: OverlayGraph, pts: Seq<IntPoint>, v: Seq<bool>, i: int, b: [usize; 2])
    requires graph_ok(g, pts), v.len() == g.links@.len(), 0 <= i < v.len(), !v[i], even(g.nodes@, v),
        g.nodes@[g.links@[i].a.id as int] == OverlayNode::Bridge(b),
    ensures b[0] < g.links@.len(), b[1] < g.links@.len(), !v[b[0] as int], !v[b[1] as int], b[0] == i || b[1] == i,
        g.links@[i].a.id < g.nodes@.len(),
        g.links@[b[0] as int].a.id == g.links@[i].a.id || g.links@[b[0] as int].b.id == g.links@[i].a.id,
        g.links@[b[1] as int].a.id == g.links@[i].a.id || g.links@[b[1] as int].b.id == g.links@[i].a.id,
{
    hide(spread);
    hide(wired);
    hide(even_but);
    let k = g.links@[i].a.id as int;
    let list = listed(g.nodes@[k]);
    assert(b@ =~= seq![b[0], b[1]]);
    assert(list == seq![b[0], b[1]]);
    lemma_first_listed(g, pts, i);
    lemma_even(g.nodes@, v, k);
    lemma_pair(b[0], b[1], v);
    assert(list[0] == b[0] && list[1] == b[1]);
    assert(listed(g.nodes@[k])[0] == b[0] && listed(g.nodes@[k])[1] == b[1]);
    lemma_listed_ok(g, pts, k, 0);
    lemma_listed_ok(g, pts, k, 1);
}
pub proof fn lemma_even(nodes: Seq<OverlayNode>, v: Seq<bool>, k: int)
    requires even(nodes, v), 0 <= k < nodes.len()
    ensures unseen(listed(nodes[k]), v) % 2 == 0
{}
pub proof fn lemma_listed_ok(g: OverlayGraph, pts: Seq<IntPoint>, k: int, p: int)
    requires graph_ok(g, pts), 0 <= k < g.nodes@.len(), 0 <= p < listed(g.nodes@[k]).len()
    ensures listed(g.nodes@[k])[p] < g.links@.len(), g.links@[listed(g.nodes@[k])[p] as int].a.id == k || g.links@[listed(g.nodes@[k])[p] as int].b.id == k
{}
pub proof fn lemma_first_listed(g: OverlayGraph, pts: Seq<IntPoint>, i: int)
    requires graph_ok(g, pts), 0 <= i < g.links@.len()
    ensures g.links@[i].a.id < g.nodes@.len(), exists|p: int| 0 <= p < listed(g.nodes@[g.links@[i].a.id as int]).len() && #[trigger] listed(g.nodes@[g.links@[i].a.id as int])[p] == i
{
    reveal(end_at);
    assert(end_at(g.links@[i].a, i, g.nodes@, pts));
}
pub proof fn lemma_bridge(g: OverlayGraph, pts: Seq<IntPoint>, v: Seq<bool>, i: int, b: [usize; 2])
    requires graph_ok(g, pts), forward(g.links@), in_order(g.links@), v.len() == g.links@.len(), first(v, i), even(g.nodes@, v),
        g.nodes@[g.links@[i].a.id as int] == OverlayNode::Bridge(b),
    ensures b[0] < g.links@.len(), b[1] < g.links@.len(), g.links@[b[0] as int].a.point == g.links@[i].a.point,
        in_range(g.links@[b[0] as int].a.point), in_range(g.links@[b[0] as int].b.point), in_range(g.links@[b[1] as int].b.point),
        left_top(g, v, (if area2(g.links@[b[0] as int].a.point, g.links@[b[0] as int].b.point, g.links@[b[1] as int].b.point) > 0 { b[0] } else { b[1] }) as int),
{
    hide(area2);
    hide(spread);
    hide(wired);
    hide(left_top);
    let k = g.links@[i].a.id as int;
    lemma_bridge_left(g, pts, v, i, b);
    let (l0, l1) = (g.links@[b[0] as int], g.links@[b[1] as int]);
    lemma_starts(g, pts, v, i, b[0] as int);
    lemma_starts(g, pts, v, i, b[1] as int);
    let a = g.links@[i].a.point;
    assert(l0.a.point == a && l1.a.point == a);
    assert(pt_lt(l0.a.point, l0.b.point) && pt_lt(l1.a.point, l1.b.point));
    lemma_above(a, l0.b.point, l1.b.point, l0.b.point);
    lemma_above(a, l1.b.point, l0.b.point, l1.b.point);
    let best = if area2(l0.a.point, l0.b.point, l1.b.point) > 0 { b[0] } else { b[1] };
    assert(area2(a, g.links@[best as int].b.point, l0.b.point) >= 0 && area2(a, g.links@[best as int].b.point, l1.b.point) >= 0);
    assert forall|p: int| #![trigger listed(g.nodes@[k])[p]] candidate(listed(g.nodes@[k]), v, p) implies
        area2(g.links@[best as int].a.point, g.links@[best as int].b.point, g.links@[listed(g.nodes@[k])[p] as int].b.point) >= 0 by {
        assert(listed(g.nodes@[k]) == b@);
        assert(b@[p] == b[p]);
        assert(p == 0 || p == 1);
    }
    lemma_listed(g, pts, v, i, best as int);
}
impl OverlayLink {
//@ fn core/link.rs OverlayLink is_direct
//@ spec
        ensures r == pt_lt(self.a.point, self.b.point)
//@ endfn
}
impl OverlayGraph {
//@ fn core/extract.rs OverlayGraph find_left_top_link_on_indices
//@ index_loops
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
            forward(self.links@), in_order(self.links@), visited@.len() == self.links@.len(), first(visited@, link_index as int),
            link == self.links@[link_index as int], link.a.id < self.nodes@.len(), indices@ == listed(self.nodes@[link.a.id as int]),
        ensures left_top(*self, visited@, r as int), self.links@[r as int].a.id == link.a.id
//@ entry
        let ghost pts = choose|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts);
        let ghost first_link = *link;
        proof { lemma_starts(*self, pts, visited@, link_index as int, link_index as int); }
//@ before_loop 0
        proof { assert(area2(top.a.point, top.b.point, top.b.point) == 0) by (nonlinear_arith); }
//@ loop 0
            invariant
                graph_ok(*self, pts), forward(self.links@), in_order(self.links@), visited@.len() == self.links@.len(), first(visited@, link_index as int),
                first_link == self.links@[link_index as int], first_link.a.id < self.nodes@.len(), indices@ == listed(self.nodes@[first_link.a.id as int]),
                top_index < self.links@.len(), !visited@[top_index as int], top == self.links@[top_index as int], top.a.id == first_link.a.id, top.a.point == first_link.a.point,
                area2(top.a.point, top.b.point, first_link.b.point) >= 0,
                forall|p: int| #![trigger indices@[p]] candidate(indices@, visited@, p) && p < it0 ==> area2(top.a.point, top.b.point, self.links@[indices@[p] as int].b.point) >= 0,
//@ loopbody 0
            let ghost top0 = *top;
            proof {
                assert(listed(self.nodes@[first_link.a.id as int])[it0 as int] == indices@[it0 as int]);
                assert(indices@[it0 as int] < self.links@.len());
            }
//@ loopend 0
            proof {
                let n = indices@[it0 as int] as int;
                let l = self.links@[n];
                assert(in_range(l.a.point) && in_range(l.b.point) && in_range(top0.a.point) && in_range(top0.b.point) && in_range(top.b.point));
                if !visited@[n] {
                    lemma_starts(*self, pts, visited@, link_index as int, n);
                    assert(l.a.point == top.a.point);
                    let a = first_link.a.point;
                    assert forall|p: int| #![trigger indices@[p]] candidate(indices@, visited@, p) && p < it0 + 1 implies area2(top.a.point, top.b.point, self.links@[indices@[p] as int].b.point) >= 0 by {
                        let m = self.links@[indices@[p] as int];
                        assert(listed(self.nodes@[first_link.a.id as int])[p] == indices@[p]);
                        lemma_starts(*self, pts, visited@, link_index as int, indices@[p] as int);
                        lemma_above(a, top0.b.point, l.b.point, m.b.point);
                        lemma_above(a, l.b.point, l.b.point, l.b.point);
                    }
                    lemma_above(a, top0.b.point, l.b.point, first_link.b.point);
                }
            }
//@ exit
        proof { lemma_listed(*self, pts, visited@, link_index as int, top_index as int); }
//@ endfn
//@ fn core/extract.rs OverlayGraph find_left_top_link_on_bridge
//@ spec
        requires bridge[0] < self.links@.len(), bridge[1] < self.links@.len(), in_range(self.links@[bridge[0] as int].a.point), in_range(self.links@[bridge[0] as int].b.point), in_range(self.links@[bridge[1] as int].b.point)
        ensures r == if area2(self.links@[bridge[0] as int].a.point, self.links@[bridge[0] as int].b.point, self.links@[bridge[1] as int].b.point) > 0 { bridge[0] } else { bridge[1] }
//@ endfn
//@ fn core/extract.rs OverlayGraph find_left_top_link
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
            forward(self.links@), in_order(self.links@), visited@.len() == self.links@.len(), first(visited@, link_index as int), even(self.nodes@, visited@),
        ensures left_top(*self, visited@, r as int)
//@ entry
        let ghost pts = choose|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts);
        proof { reveal(end_at); assert(end_at(self.links@[link_index as int].a, link_index as int, self.nodes@, pts)); }
//@ after node
        proof {
            match node {
                OverlayNode::Bridge(b) => { lemma_bridge(*self, pts, visited@, link_index as int, *b); }
                OverlayNode::Cross(c) => {}
            }
        }
//@ endfn
}
// seen from a, with everything to the right: m is not above q, and q is not below l
pub proof fn lemma_above(a: IntPoint, q: IntPoint, l: IntPoint, m: IntPoint)
    requires in_range(a), in_range(q), in_range(l), in_range(m), pt_lt(a, q), pt_lt(a, l), pt_lt(a, m)
    ensures area2(a, q, m) >= 0 && area2(a, q, l) <= 0 ==> area2(a, l, m) >= 0, area2(a, l, l) == 0, area2(a, q, l) == -area2(a, l, q)
{
    lemma_area_cp(a, q, m);
    lemma_area_cp(a, q, l);
    lemma_area_cp(a, l, m);
    lemma_area_cp(a, l, q);
    lemma_area_cp(a, l, l);
    lemma_right_trans(diff(m, a), diff(q, a), diff(l, a));
}

// ---- the tours one after the other ----
pub struct Tour { pub walk: Seq<usize>, pub ids: Seq<usize>, pub raw: Seq<IntPoint>, pub hole: bool }
pub open spec fn after_tours(v: Seq<bool>, t: Seq<Tour>) -> Seq<bool>
    decreases t.len()
{
    if t.len() == 0 { v } else { marked(after_tours(v, t.drop_last()), t.last().walk) }
}
// whether the inside is above an edge (proved for every rule and fill by C02)
pub uninterp spec fn fill_top(rule: OverlayRule, fill: SegmentFill) -> bool;
impl OverlayRule {
    #[verifier::external_body]
    pub fn is_fill_top(&self, fill: SegmentFill) -> (r: bool)
        ensures r == fill_top(*self, fill)
    { unimplemented!() }
}
// a contour around the uppermost link left at the most left point, which has the inside on the proper side
pub open spec fn tour_ok(g: OverlayGraph, v: Seq<bool>, t: Tour, rule: OverlayRule, cw: bool) -> bool {
    let l = g.links@[t.walk[0] as int];
    &&& contour_of(g, v, marked(v, t.walk), t.walk[0], t.raw, t.walk, t.ids, t.hole == cw)
    &&& left_top(g, v, t.walk[0] as int)
    &&& t.hole == fill_top(rule, l.fill)
    &&& t.ids[0] == (if t.hole == cw { l.b.id } else { l.a.id })
}
pub open spec fn tours_ok(g: OverlayGraph, v: Seq<bool>, t: Seq<Tour>, rule: OverlayRule, cw: bool) -> bool {
    forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> tour_ok(g, after_tours(v, t.take(k)), t[k], rule, cw)
}
// how often a link is walked
pub open spec fn times(walk: Seq<usize>, i: int) -> int
    decreases walk.len()
{
    if walk.len() == 0 { 0 } else { times(walk.drop_last(), i) + if walk.last() == i { 1int } else { 0 } }
}
pub open spec fn times_all(t: Seq<Tour>, i: int) -> int
    decreases t.len()
{
    if t.len() == 0 { 0 } else { times_all(t.drop_last(), i) + times(t.last().walk, i) }
}
pub proof fn lemma_times(v: Seq<bool>, walk: Seq<usize>, i: int)
    requires 0 <= i < v.len(), forall|k: int| #![trigger walk[k]] 0 <= k < walk.len() ==> walk[k] < v.len() && !marked(v, walk.take(k))[walk[k] as int]
    ensures marked(v, walk).len() == v.len(), times(walk, i) == (if marked(v, walk)[i] && !v[i] { 1int } else { 0 }), v[i] ==> marked(v, walk)[i]
    decreases walk.len()
{
    if walk.len() > 0 {
        let w = walk.drop_last();
        assert forall|k: int| #![trigger w[k]] 0 <= k < w.len() implies w[k] < v.len() && !marked(v, w.take(k))[w[k] as int] by { assert(w[k] == walk[k]); assert(w.take(k) =~= walk.take(k)); }
        lemma_times(v, w, i);
        assert(walk.take(walk.len() - 1) =~= w);
        assert(walk[walk.len() - 1] == walk.last());
    }
}
pub proof fn lemma_tour(g: OverlayGraph, v: Seq<bool>, t: Tour, rule: OverlayRule, cw: bool, i: int)
    requires tour_ok(g, v, t, rule, cw), v.len() == g.links@.len(), 0 <= i < v.len()
    ensures times(t.walk, i) == (if marked(v, t.walk)[i] && !v[i] { 1int } else { 0 }), v[i] ==> marked(v, t.walk)[i], marked(v, t.walk).len() == v.len()
{
    lemma_times(v, t.walk, i);
}
pub proof fn lemma_tours(g: OverlayGraph, v: Seq<bool>, t: Seq<Tour>, rule: OverlayRule, cw: bool, i: int)
    requires tours_ok(g, v, t, rule, cw), v.len() == g.links@.len(), 0 <= i < v.len()
    ensures after_tours(v, t).len() == v.len(), times_all(t, i) == (if after_tours(v, t)[i] && !v[i] { 1int } else { 0 }), v[i] ==> after_tours(v, t)[i]
    decreases t.len()
{
    if t.len() > 0 {
        let s = t.drop_last();
        assert(tours_ok(g, v, s, rule, cw)) by {
            assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies tour_ok(g, after_tours(v, s.take(k)), s[k], rule, cw) by { assert(s[k] == t[k]); assert(s.take(k) =~= t.take(k)); }
        }
        lemma_tours(g, v, s, rule, cw, i);
        assert(t[t.len() - 1] == t.last());
        assert(t.take(t.len() - 1) =~= s);
        lemma_tour(g, after_tours(v, s), t.last(), rule, cw, i);
    }
}
pub proof fn lemma_tours_push(g: OverlayGraph, v: Seq<bool>, t: Seq<Tour>, rule: OverlayRule, cw: bool, x: Tour)
    requires tours_ok(g, v, t, rule, cw), tour_ok(g, after_tours(v, t), x, rule, cw)
    ensures tours_ok(g, v, t.push(x), rule, cw), after_tours(v, t.push(x)) == marked(after_tours(v, t), x.walk)
{
    let s = t.push(x);
    assert(s.drop_last() =~= t);
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies tour_ok(g, after_tours(v, s.take(k)), s[k], rule, cw) by {
        if k == t.len() { assert(s.take(k) =~= t); } else { assert(s[k] == t[k]); assert(s.take(k) =~= t.take(k)); }
    }
}
// one tour more
pub proof fn lemma_next_tour(g: OverlayGraph, v0: Seq<bool>, t: Seq<Tour>, rule: OverlayRule, cw: bool, v2: Seq<bool>, raw: Seq<IntPoint>, i: usize, hole: bool, dir: bool, s: StartPathData) -> (x: Tour)
    requires
        tours_ok(g, v0, t, rule, cw), after_tours(v0, t).len() == g.links@.len(), left_top(g, after_tours(v0, t), i as int), hole == fill_top(rule, g.links@[i as int].fill),
        dir == (hole == cw), s.link_id == i, s.last_node_id == (if hole == cw { g.links@[i as int].b.id } else { g.links@[i as int].a.id }),
        exists|walk: Seq<usize>, ids: Seq<usize>| #[trigger] contour_of(g, after_tours(v0, t), v2, s.link_id, raw, walk, ids, dir) && ids[0] == s.last_node_id,
    ensures
        tours_ok(g, v0, t.push(x), rule, cw), after_tours(v0, t.push(x)) == v2, v2.len() == g.links@.len(), left(v2) < left(after_tours(v0, t)),
        forall|j: int| 0 <= j < v2.len() && after_tours(v0, t)[j] ==> #[trigger] v2[j],
        x.raw == raw, x.hole == hole,
{
    let v1 = after_tours(v0, t);
    let (walk, ids) = choose|walk: Seq<usize>, ids: Seq<usize>| #[trigger] contour_of(g, v1, v2, s.link_id, raw, walk, ids, dir) && ids[0] == s.last_node_id;
    let x = Tour { walk, ids, raw, hole };
    assert(tour_ok(g, v1, x, rule, cw));
    lemma_tours_push(g, v0, t, rule, cw, x);
    lemma_fewer(v1, walk);
    assert forall|j: int| 0 <= j < v2.len() && v1[j] implies #[trigger] v2[j] by { lemma_tour(g, v1, x, rule, cw, j); }
    x
}
pub proof fn lemma_kept(t: Seq<Tour>, x: Tour, simplify: bool, min_area: usize)
    ensures forall|hole: bool| #[trigger] kept(t.push(x), hole, simplify, min_area) == if x.hole == hole && large(cleaned(x.raw, simplify), min_area) { kept(t, hole, simplify, min_area).push(cleaned(x.raw, simplify)) } else { kept(t, hole, simplify, min_area) }
{
    assert(t.push(x).drop_last() =~= t);
}
pub proof fn lemma_two_ends(g: OverlayGraph, i: int)
    requires exists|pts: Seq<IntPoint>| #[trigger] graph_ok(g, pts), 0 <= i < g.links@.len()
    ensures g.links@[i].a.id != g.links@[i].b.id
{
    reveal(end_at);
    let pts = choose|pts: Seq<IntPoint>| #[trigger] graph_ok(g, pts);
    assert(end_at(g.links@[i].a, i, g.nodes@, pts) && end_at(g.links@[i].b, i, g.nodes@, pts));
}
pub proof fn lemma_no_tours(g: OverlayGraph, v: Seq<bool>, rule: OverlayRule, cw: bool)
    ensures tours_ok(g, v, seq![], rule, cw)
{}
pub proof fn lemma_left_top(g: OverlayGraph, v: Seq<bool>, i: int)
    requires left_top(g, v, i)
    ensures 0 <= i < g.links@.len(), !v[i]
{}
pub proof fn lemma_fewer(v: Seq<bool>, walk: Seq<usize>)
    requires forall|k: int| #![trigger walk[k]] 0 <= k < walk.len() ==> walk[k] < v.len() && !marked(v, walk.take(k))[walk[k] as int]
    ensures marked(v, walk).len() == v.len(), left(marked(v, walk)) + walk.len() <= left(v)
    decreases walk.len()
{
    if walk.len() > 0 {
        let w = walk.drop_last();
        assert forall|k: int| #![trigger w[k]] 0 <= k < w.len() implies w[k] < v.len() && !marked(v, w.take(k))[w[k] as int] by { assert(w[k] == walk[k]); assert(w.take(k) =~= walk.take(k)); }
        lemma_fewer(v, w);
        assert(walk.take(walk.len() - 1) =~= w);
        assert(walk[walk.len() - 1] == walk.last());
        lemma_left(marked(v, w), walk.last() as int);
    }
}

// ---- which contours are kept ----
// the contour without the points that i_shape removes (all in the middle of straight runs, or only repeated ones)
pub uninterp spec fn cleaned(c: Seq<IntPoint>, simplify: bool) -> Seq<IntPoint>;
pub trait CleanContour {
    spec fn seen(&self) -> Seq<IntPoint>;
    fn simplify_contour(&mut self) -> (r: bool)
        ensures final(self).seen() == cleaned(old(self).seen(), true), !r ==> final(self).seen() == old(self).seen();
    fn dedup_contour(&mut self) -> (r: bool)
        ensures final(self).seen() == cleaned(old(self).seen(), false), !r ==> final(self).seen() == old(self).seen();
}
impl CleanContour for IntPath {
    open spec fn seen(&self) -> Seq<IntPoint> { self@ }
    #[verifier::external_body] fn simplify_contour(&mut self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn dedup_contour(&mut self) -> (r: bool) { unimplemented!() }
}
// at least three points and at least the minimum area
pub open spec fn large(c: Seq<IntPoint>, min_area: usize) -> bool { c.len() >= 3 && (min_area == 0 || iabs(wrap(area(c))) / 2 >= min_area) }
pub trait Validate {
    spec fn now(&self) -> Seq<IntPoint>;
    fn validate(&mut self, min_area: usize, simplify: bool) -> (r: (bool, bool))
        ensures final(self).now() == cleaned(old(self).now(), simplify), r.0 == large(final(self).now(), min_area), !r.1 ==> final(self).now() == old(self).now();
}
impl Validate for IntPath {
    open spec fn now(&self) -> Seq<IntPoint> { self@ }
//@ fn core/extract.rs Validate for IntPath validate
//@ nopub
//@ after area
        proof { let a = iabs(area as int) as usize; assert(a >> 1 == a / 2) by (bit_vector); }
//@ endfn
}
pub open spec fn kept(t: Seq<Tour>, hole: bool, simplify: bool, min_area: usize) -> Seq<Seq<IntPoint>>
    decreases t.len()
{
    if t.len() == 0 { seq![] } else {
        let c = cleaned(t.last().raw, simplify);
        let s = kept(t.drop_last(), hole, simplify, min_area);
        if t.last().hole == hole && large(c, min_area) { s.push(c) } else { s }
    }
}
pub open spec fn is_kept(s: Seq<Seq<IntPoint>>, t: Seq<Tour>, hole: bool, simplify: bool, min_area: usize) -> bool { s =~= kept(t, hole, simplify, min_area) }
pub trait JoinHoles {
    spec fn list(&self) -> Seq<IntShape>;
    fn join_sorted_holes(&mut self, solver: &Solver, holes: Vec<IntContour>, anchors: Vec<IdSegment>, clockwise: bool)
        requires forall|i: int| 0 <= i < old(self).list().len() ==> (#[trigger] old(self).list()[i])@.len() == 1, anchors@.len() == holes@.len(),
        ensures joined(outers(old(self).list()), points(holes@), final(self).list());
}
impl JoinHoles for Vec<IntShape> {
    open spec fn list(&self) -> Seq<IntShape> { self@ }
    #[verifier::external_body] fn join_sorted_holes(&mut self, solver: &Solver, holes: Vec<IntContour>, anchors: Vec<IdSegment>, clockwise: bool) { unimplemented!() }
}
pub trait LeftBottomSegment {
    fn left_bottom_segment(&self) -> (r: VSegment);
}
impl LeftBottomSegment for IntContour {
    #[verifier::external_body] fn left_bottom_segment(&self) -> (r: VSegment) { unimplemented!() }
}
impl PartialEqSpecImpl for VSegment {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
pub assume_specification[ <VSegment as PartialEq>::eq ](a: &VSegment, b: &VSegment) -> (r: bool) ensures r == (*a == *b);
pub assume_specification[ <ContourDirection as PartialEq>::eq ](a: &ContourDirection, b: &ContourDirection) -> (r: bool) ensures r == (*a == *b);
impl ContourIndex {
    #[verifier::external_body] pub fn new_hole(index: usize) -> Self { unimplemented!() }
}
impl IdSegment {
    #[verifier::external_body] pub fn with_segment(data: ContourIndex, v_segment: VSegment) -> (r: IdSegment) { unimplemented!() }
}
#[verifier::external_body]
pub fn as_mut_slice(v: &mut Vec<bool>) -> (r: &mut [bool])
    ensures r@ == old(v)@, final(v)@ == final(r)@
{ unimplemented!() }
#[verifier::external_body]
pub fn sort_by<F: Fn(&IdSegment, &IdSegment) -> Ordering>(v: &mut Vec<IdSegment>, compare: F)
    ensures final(v)@.len() == old(v)@.len()
{ unimplemented!() }
// all tours of a graph: every link that is not filtered out is walked once, in contours around links that are left most and uppermost then
pub open spec fn toured(g: OverlayGraph, filter: Seq<bool>, t: Seq<Tour>, rule: OverlayRule, cw: bool) -> bool {
    tours_ok(g, filter, t, rule, cw) && forall|i: int| #![trigger filter[i]] 0 <= i < filter.len() ==> times_all(t, i) == (if filter[i] { 0int } else { 1 })
}
impl OverlayGraph {
//@ fn core/extract.rs OverlayGraph extract
//@ sub <<<buffer.as_mut_slice()>>> <<<as_mut_slice(&mut buffer)>>>
//@ sub <<<let mut shapes = Vec::new();>>> <<<let mut shapes: Vec<IntShape> = Vec::new();>>>
//@ sub <<<let mut holes = Vec::new();>>> <<<let mut holes: Vec<IntContour> = Vec::new();>>>
//@ sub <<<let mut anchors = Vec::new();>>> <<<let mut anchors: Vec<IdSegment> = Vec::new();>>>
//@ sub <<<debug_assert_eq!($X);>>> <<<>>>
//@ sub <<<anchors.sort_by(|$A, $C| $B);>>> <<<sort_by(&mut anchors, |$A: &IdSegment, $C: &IdSegment| -> (o: Ordering) { $B });>>>
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
            forward(self.links@), in_order(self.links@), filter@.len() == self.links@.len(), even(self.nodes@, filter@),
        ensures
            exists|t: Seq<Tour>| #[trigger] toured(*self, filter@, t, overlay_rule, main_direction is Clockwise)
                && joined(kept(t, false, simplify_contour, min_area), kept(t, true, simplify_contour, min_area), r@),
//@ entry
        hide(graph_ok);
        hide(even_but);
        hide(forward);
        hide(in_order);
        hide(tours_ok);
        hide(contour_of);
        hide(left_top);
        hide(wrap);
        hide(area);
        hide(joined);
        let ghost v0 = filter@;
        proof { lemma_no_tours(*self, v0, overlay_rule, main_direction is Clockwise); }
        let ghost mut t: Seq<Tour> = seq![];
//@ loop 0
            invariant
                exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
                forward(self.links@), in_order(self.links@), v0.len() == self.links@.len(), visited@.len() == v0.len(), link_index <= v0.len(),
                even(self.nodes@, visited@), visited@ == after_tours(v0, t), tours_ok(*self, v0, t, overlay_rule, clockwise),
                clockwise == (main_direction is Clockwise),
                forall|j: int| 0 <= j < link_index ==> #[trigger] visited@[j],
                forall|i: int| 0 <= i < shapes@.len() ==> (#[trigger] shapes@[i])@.len() == 1,
                outers(shapes@) == kept(t, false, simplify_contour, min_area), points(holes@) == kept(t, true, simplify_contour, min_area),
                anchors@.len() == holes@.len(),
            decreases left(visited@), v0.len() - link_index
//@ before left_top_link
            let ghost v1 = visited@;
            let ghost t1 = t;
//@ after left_top_link
            proof {
                lemma_left_top(*self, visited@, left_top_link as int);
                lemma_two_ends(*self, left_top_link as int);
            }
//@ after contour
            let ghost raw = contour@;
            proof {
                let x = lemma_next_tour(*self, v0, t, overlay_rule, clockwise, visited@, raw, left_top_link, is_hole, direction, start_data);
                t = t.push(x);
                lemma_kept(t1, x, simplify_contour, min_area);
            }
//@ after is_valid
            let ghost (s1, h1) = (shapes@, holes@);
//@ loopend 0
            proof {
                assert(outers(shapes@) =~= kept(t, false, simplify_contour, min_area));
                assert(points(holes@) =~= kept(t, true, simplify_contour, min_area));
            }
//@ after_loop 0
        proof {
            assert forall|i: int| #![trigger v0[i]] 0 <= i < v0.len() implies times_all(t, i) == (if v0[i] { 0int } else { 1 }) by { lemma_tours(*self, v0, t, overlay_rule, clockwise, i); }
            assert(toured(*self, v0, t, overlay_rule, clockwise));
        }
//@ endfn
}
}
fn main() {}
