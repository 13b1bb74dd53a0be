// ---- core/graph.rs: the links are connected at their end points ----
//@ import base.vx
//@ include wired.vx
verus! {
global size_of usize == 8;
//@ item core/solver.rs enum Strategy
//@ item core/solver.rs struct Precision
//@ item core/solver.rs struct MultithreadOptions
//@ item core/solver.rs struct Solver
//@ item geom/id_point.rs struct IdPoint
//@ item geom/end.rs struct End
//@ item segm/segment.rs type SegmentFill
//@ item core/link.rs struct OverlayLink
//@ item core/node.rs enum OverlayNode
//@ item core/graph.rs struct OverlayGraph

pub open spec fn in_order(l: Seq<OverlayLink>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> !pt_lt((#[trigger] l[j]).a.point, (#[trigger] l[i]).a.point) }
pub open spec fn forward(l: Seq<OverlayLink>) -> bool { forall|i: int| 0 <= i < l.len() ==> pt_lt((#[trigger] l[i]).a.point, l[i].b.point) }
// the same links, up to the ids of their ends
pub open spec fn same_links(l: Seq<OverlayLink>, o: Seq<OverlayLink>) -> bool {
    l.len() == o.len() && forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> l[i].a.point == o[i].a.point && l[i].b.point == o[i].b.point && l[i].fill == o[i].fill
}
// the same for the first ai links by their start and the first bi ends
#[verifier::opaque]
pub open spec fn part(l: Seq<OverlayLink>, nodes: Seq<OverlayNode>, pts: Seq<IntPoint>, ends: Seq<End>, inv: Seq<int>, ai: int, bi: int) -> bool {
    &&& pts.len() == nodes.len()
    &&& rising(pts)
    &&& forall|i: int| #![trigger l[i]] 0 <= i < ai ==> end_at(l[i].a, i, nodes, pts)
    &&& forall|i: int| #![trigger inv[i]] 0 <= i < l.len() && inv[i] < bi ==> end_at(l[i].b, i, nodes, pts)
    &&& forall|k: int, p: int| #![trigger listed(nodes[k])[p]] 0 <= k < nodes.len() && 0 <= p < listed(nodes[k]).len() ==> {
            let i = listed(nodes[k])[p];
            i < l.len() && (i < ai && l[i as int].a.id == k || inv[i as int] < bi && l[i as int].b.id == k)
        }
    &&& forall|k: int| #![trigger nodes[k]] 0 <= k < nodes.len() ==> listed(nodes[k]).no_duplicates() && listed(nodes[k]).len() > 0 && bridge_ok(nodes[k])
}
// the ends in order, and where the end of each link is among them
pub open spec fn ends_ok(l: Seq<OverlayLink>, ends: Seq<End>, inv: Seq<int>) -> bool {
    &&& ends.len() == l.len() && inv.len() == l.len()
    &&& forall|k: int| #![trigger ends[k]] 0 <= k < ends.len() ==> ends[k].index < l.len() && inv[ends[k].index as int] == k && ends[k].point == l[ends[k].index as int].b.point
    &&& forall|i: int| #![trigger inv[i]] 0 <= i < l.len() ==> 0 <= inv[i] < ends.len() && ends[inv[i]].index == i
    &&& forall|i: int, j: int| 0 <= i < j < ends.len() ==> !pt_lt((#[trigger] ends[j]).point, (#[trigger] ends[i]).point)
}
// how many in a row are at the point, from the index on
pub open spec fn run(pts: Seq<IntPoint>, p: IntPoint, index: int, r: int) -> bool {
    1 <= r <= pts.len() - index && (forall|k: int| index < k < index + r ==> #[trigger] pts[k] == p) && (index + r < pts.len() ==> pts[index + r] != p)
}
pub open spec fn starts(l: Seq<OverlayLink>) -> Seq<IntPoint> { Seq::new(l.len(), |i: int| l[i].a.point) }
pub open spec fn stops(e: Seq<End>) -> Seq<IntPoint> { Seq::new(e.len(), |i: int| e[i].point) }

pub assume_specification<T: Clone> [ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]);

pub trait Size {
    spec fn pts(&self) -> Seq<IntPoint>;
    fn size(&self, point: IntPoint, index: usize) -> (r: usize)
        requires index < self.pts().len(), self.pts().len() < usize::MAX
        ensures run(self.pts(), point, index as int, r as int);
}
impl Size for [OverlayLink] {
    open spec fn pts(&self) -> Seq<IntPoint> { starts(self@) }
//@ fn core/graph.rs Size for [OverlayLink] size
//@ nopub
//@ loop 0
        invariant index < i <= self@.len(), self@.len() < usize::MAX, forall|k: int| index < k < i ==> #[trigger] self.pts()[k] == point
        decreases self@.len() - i
//@ endfn
}
impl Size for Vec<End> {
    open spec fn pts(&self) -> Seq<IntPoint> { stops(self@) }
//@ fn core/graph.rs Size for Vec<End> size
//@ nopub
//@ loop 0
        invariant index < i <= self@.len(), self@.len() < usize::MAX, forall|k: int| index < k < i ==> #[trigger] self.pts()[k] == point
        decreases self@.len() - i
//@ endfn
}
impl OverlayNode {
//@ fn core/node.rs OverlayNode new
//@ spec
        ensures listed(r) =~= indices@, bridge_ok(r)
//@ endfn
}
// the sort of the key-sort crate (or of rayon): the same items, in the order of the given comparison
#[verifier::external_body]
pub fn smart_bin_sort_by<F: Fn(&End, &End) -> Ordering>(v: &mut Vec<End>, solver: &Solver, compare: F)
    requires
        forall|a: &End, b: &End| #[trigger] compare.requires((a, b)),
        forall|a: &End, b: &End, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> o == pt_ord(a.point, b.point),
    ensures
        final(v)@.len() == old(v)@.len(),
        exists|q: Seq<int>, inv: Seq<int>| #[trigger] moved(old(v)@, final(v)@, q, inv),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !pt_lt((#[trigger] final(v)@[j]).point, (#[trigger] final(v)@[i]).point),
{ unimplemented!() }
pub open spec fn moved(o: Seq<End>, n: Seq<End>, q: Seq<int>, inv: Seq<int>) -> bool {
    q.len() == o.len() && inv.len() == o.len() && n.len() == o.len()
    && (forall|k: int| #![trigger n[k]] #![trigger q[k]] 0 <= k < n.len() ==> 0 <= q[k] < o.len() && n[k] == o[q[k]] && inv[q[k]] == k)
    && (forall|i: int| #![trigger inv[i]] 0 <= i < o.len() ==> 0 <= inv[i] < o.len() && q[inv[i]] == i)
}
pub proof fn lemma_end_keep(e: IdPoint, i: int, nodes: Seq<OverlayNode>, pts: Seq<IntPoint>, node: OverlayNode, p: IntPoint)
    requires end_at(e, i, nodes, pts), nodes.len() == pts.len()
    ensures end_at(e, i, nodes.push(node), pts.push(p))
{
    reveal(end_at);
    let q = choose|q: int| 0 <= q < listed(nodes[e.id as int]).len() && #[trigger] listed(nodes[e.id as int])[q] == i;
    assert(nodes.push(node)[e.id as int] == nodes[e.id as int]);
    assert(listed(nodes.push(node)[e.id as int])[q] == i);
}
pub proof fn lemma_end_new(e: IdPoint, i: int, nodes: Seq<OverlayNode>, pts: Seq<IntPoint>, node: OverlayNode, p: IntPoint, q: int)
    requires e.id == nodes.len(), e.point == p, 0 <= q < listed(node).len(), listed(node)[q] == i, nodes.len() == pts.len()
    ensures end_at(e, i, nodes.push(node), pts.push(p))
{
    reveal(end_at);
    assert(listed(nodes.push(node)[e.id as int])[q] == i);
}
// a node added
pub proof fn lemma_node(l0: Seq<OverlayLink>, l: Seq<OverlayLink>, nodes: Seq<OverlayNode>, pts: Seq<IntPoint>, ends: Seq<End>, inv: Seq<int>, ai: int, bi: int,
    aj: int, bj: int, node: OverlayNode, p: IntPoint)
    requires
        ends_ok(l0, ends, inv), forward(l0), same_links(l, l0),
        part(l0, nodes, pts, ends, inv, ai, bi),
        0 <= ai <= aj <= l.len(), 0 <= bi <= bj <= l.len(), ai < aj || bi < bj,
        forall|i: int| 0 <= i < pts.len() ==> pt_lt(#[trigger] pts[i], p),
        forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==>
            (if ai <= i < aj { l[i].a.id == nodes.len() && l0[i].a.point == p } else { l[i].a.id == l0[i].a.id })
            && (if bi <= inv[i] < bj { l[i].b.id == nodes.len() && l0[i].b.point == p } else { l[i].b.id == l0[i].b.id }),
        bridge_ok(node), listed(node) == chosen(ends, ai, bi, aj, bj), l.len() <= usize::MAX, nodes.len() < usize::MAX,
    ensures
        part(l, nodes.push(node), pts.push(p), ends, inv, aj, bj)
{
    reveal(part);
    let (nn, pp, k0) = (nodes.push(node), pts.push(p), nodes.len() as int);
    let c = chosen(ends, ai, bi, aj, bj);
    assert(nn[k0] == node);
    assert(rising(pp));
    assert forall|i: int| #![trigger l[i]] 0 <= i < aj implies end_at(l[i].a, i, nn, pp) by {
        if ai <= i { lemma_end_new(l[i].a, i, nodes, pts, node, p, i - ai); }
        else { assert(l[i].a == l0[i].a); lemma_end_keep(l[i].a, i, nodes, pts, node, p); }
    }
    assert forall|i: int| #![trigger inv[i]] 0 <= i < l.len() && inv[i] < bj implies end_at(l[i].b, i, nn, pp) by {
        if bi <= inv[i] { assert(ends[inv[i]].index == i); lemma_end_new(l[i].b, i, nodes, pts, node, p, aj - ai + inv[i] - bi); }
        else { assert(l[i].b == l0[i].b); lemma_end_keep(l[i].b, i, nodes, pts, node, p); }
    }
    assert forall|k: int, q: int| #![trigger listed(nn[k])[q]] 0 <= k < nn.len() && 0 <= q < listed(nn[k]).len() implies {
        let i = listed(nn[k])[q];
        i < l.len() && (i < aj && l[i as int].a.id == k || inv[i as int] < bj && l[i as int].b.id == k)
    } by {
        if k < k0 {
            assert(nn[k] == nodes[k]);
            let i = listed(nodes[k])[q] as int;
            assert(l[i].a.point == l0[i].a.point);
        } else {
            let i = c[q] as int;
            if q < aj - ai { assert(i == ai + q); } else { assert(ends[bi + q - (aj - ai)].index == i); }
            assert(l[i].a.point == l0[i].a.point);
        }
    }
    assert(c.no_duplicates()) by {
        assert forall|x: int, y: int| 0 <= x < y < c.len() implies c[x] != c[y] by {
            let (m, i, j) = (aj - ai, c[x] as int, c[y] as int);
            if y < m { assert(i == ai + x && j == ai + y); }
            else if x >= m { assert(ends[bi + x - m].index == i && ends[bi + y - m].index == j); }
            else {
                assert(i == ai + x);
                assert(ends[bi + y - m].index == j && inv[j] == bi + y - m);
                assert(l[i].a.id == k0 && l[j].b.id == k0);
                if i == j { assert(pt_lt(l0[i].a.point, l0[i].b.point)); }
            }
        }
    }
}
// the links that start at [ai, aj) followed by those that end at [bi, bj)
pub open spec fn chosen(ends: Seq<End>, ai: int, bi: int, aj: int, bj: int) -> Seq<usize> {
    Seq::new((aj - ai + bj - bi) as nat, |x: int| if x < aj - ai { (ai + x) as usize } else { ends[bi + x - (aj - ai)].index })
}

pub proof fn lemma_same(l: Seq<OverlayLink>, l0: Seq<OverlayLink>, ends: Seq<End>, inv: Seq<int>)
    requires same_links(l, l0), ends_ok(l0, ends, inv), forward(l0), in_order(l0)
    ensures ends_ok(l, ends, inv), forward(l), in_order(l), starts(l) =~= starts(l0)
{
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !pt_lt((#[trigger] l[j]).a.point, (#[trigger] l[i]).a.point) by { assert(!pt_lt(l0[j].a.point, l0[i].a.point)); }
    assert forall|i: int| 0 <= i < l.len() implies pt_lt((#[trigger] l[i]).a.point, l[i].b.point) by { assert(pt_lt(l0[i].a.point, l0[i].b.point)); }
}
// the starts and ends taken next are those at the least point left
pub proof fn lemma_pick(l: Seq<OverlayLink>, nodes: Seq<OverlayNode>, pts: Seq<IntPoint>, ends: Seq<End>, inv: Seq<int>, ai: int, bi: int,
    a: IntPoint, b: IntPoint, na: int, nb: int, ac: int, bc: int, p: IntPoint)
    requires
        ends_ok(l, ends, inv), forward(l), in_order(l), part(l, nodes, pts, ends, inv, ai, bi), 0 <= ai <= l.len(), 0 <= bi <= l.len(),
        na > 0 || nb > 0, (na == 0) == (ai == l.len()), (nb == 0) == (bi == l.len()), na >= 0, nb >= 0,
        ai < l.len() ==> a == l[ai].a.point && run(starts(l), a, ai, na),
        bi < l.len() ==> b == ends[bi].point && run(stops(ends), b, bi, nb),
        forall|i: int| #![trigger pts[i]] 0 <= i < pts.len() ==> (ai < l.len() ==> pt_lt(pts[i], a)) && (bi < l.len() ==> pt_lt(pts[i], b)),
        (ac, bc) == (if a == b { (na, nb) } else if na > 0 && pt_lt(a, b) { (na, 0int) } else { (0int, nb) }),
        p == (if na > 0 && (nb == 0 || pt_lt(a, b) || a == b) { a } else { b }),
    ensures
        ac + bc > 0, ac == 0 || ac == na, bc == 0 || bc == nb, ac <= l.len() - ai, bc <= l.len() - bi,
        forall|i: int| #![trigger l[i]] ai <= i < ai + ac ==> l[i].a.point == p,
        forall|k: int| #![trigger ends[k]] bi <= k < bi + bc ==> ends[k].point == p,
        forall|i: int| 0 <= i < pts.len() ==> pt_lt(#[trigger] pts[i], p),
        ai + ac < l.len() ==> pt_lt(p, l[ai + ac].a.point),
        bi + bc < l.len() ==> pt_lt(p, ends[bi + bc].point),
        forall|i: int| 0 <= i < pts.len() ==> (ai + ac < l.len() ==> pt_lt(#[trigger] pts[i], l[ai + ac].a.point)),
        forall|i: int| 0 <= i < pts.len() ==> (bi + bc < l.len() ==> pt_lt(#[trigger] pts[i], ends[bi + bc].point)),
{
    let n = l.len() as int;
    if ai < n && bi == n {
        reveal(part);
        reveal(end_at);
        assert(inv[ai] < bi);
        assert(end_at(l[ai].b, ai, nodes, pts));
        assert(pt_lt(pts[l[ai].b.id as int], a));
        assert(pt_lt(l[ai].a.point, l[ai].b.point));
        assert(false);
    }
    assert forall|i: int| #![trigger l[i]] ai <= i < ai + ac implies l[i].a.point == p by { assert(starts(l)[i] == l[i].a.point); assert(i > ai ==> starts(l)[i] == a); }
    assert forall|k: int| #![trigger ends[k]] bi <= k < bi + bc implies ends[k].point == p by { assert(stops(ends)[k] == ends[k].point); assert(k > bi ==> stops(ends)[k] == b); }
    if ai + ac < n {
        if ac > 0 { assert(starts(l)[ai + ac] == l[ai + ac].a.point); assert(!pt_lt(l[ai + ac].a.point, l[ai].a.point)); }
    }
    if bi + bc < n {
        if bc > 0 { assert(stops(ends)[bi + bc] == ends[bi + bc].point); assert(!pt_lt(ends[bi + bc].point, ends[bi].point)); }
    }
}

impl OverlayGraph {
//@ fn core/graph.rs OverlayGraph build_nodes_and_connect_links
//@ sub <<<links.iter().enumerate().map(|($I, $L)| $B).collect();>>> <<<{ let mut v: Vec<End> = Vec::new(); for it0 in 0..links.len() { let $I = it0; let $L = &links[it0]; v.push($B); } v };>>>
//@ sub <<<for _ in 0..$N {>>> <<<for vxk in 0..$N {>>>
//@ sub <<<end_bs.smart_bin_sort_by(solver, |$A, $C| $B);>>> <<<smart_bin_sort_by(&mut end_bs, solver, |$A: &End, $C: &End| -> (o: Ordering) ensures o == pt_ord($A.point, $C.point) { $B });>>>
//@ spec
        requires in_order(old(links)@), forward(old(links)@), old(links)@.len() < usize::MAX / 2
        ensures
            same_links(final(links)@, old(links)@),
            exists|pts: Seq<IntPoint>| #[trigger] wired(final(links)@, r@, pts),
//@ loop 0
            invariant links@ == old(links)@, v@.len() == it0, forall|k: int| 0 <= k < it0 ==> #[trigger] v@[k] == (End { index: k as usize, point: links@[k].b.point })
//@ entry
        let ghost l0 = links@;
        assert(l0.len() == 0 ==> wired(l0, Seq::<OverlayNode>::empty(), Seq::<IntPoint>::empty()));
//@ after end_bs
        let ghost e0 = end_bs@;
//@ before nodes
        let ghost (q, inv) = choose|q: Seq<int>, inv: Seq<int>| #[trigger] moved(e0, end_bs@, q, inv);
        let ghost mut pts: Seq<IntPoint> = Seq::empty();
        proof {
            assert forall|k: int| #![trigger end_bs@[k]] 0 <= k < end_bs@.len() implies end_bs@[k].index < l0.len() && inv[end_bs@[k].index as int] == k && end_bs@[k].point == l0[end_bs@[k].index as int].b.point by { assert(0 <= q[k] < l0.len()); }
            assert(ends_ok(l0, end_bs@, inv));
        }
//@ before_loop 1
        proof {
            reveal(part);
            assert(part(links@, nodes@, pts, end_bs@, inv, 0, 0));
        }
//@ loop 1
            invariant
                n == l0.len(), n > 0, n < usize::MAX / 2, links@.len() == n, forward(l0), in_order(l0), ends_ok(l0, end_bs@, inv), same_links(links@, l0),
                ai <= n, bi <= n, nodes@.len() <= ai + bi, indices@.len() == 0,
                part(links@, nodes@, pts, end_bs@, inv, ai as int, bi as int),
                (next_a_cnt == 0) == (ai == n), (next_b_cnt == 0) == (bi == n),
                ai < n ==> a == l0[ai as int].a.point && run(starts(l0), a, ai as int, next_a_cnt as int),
                bi < n ==> b == end_bs@[bi as int].point && run(stops(end_bs@), b, bi as int, next_b_cnt as int),
                forall|i: int| #![trigger pts[i]] 0 <= i < pts.len() ==> (ai < n ==> pt_lt(pts[i], a)) && (bi < n ==> pt_lt(pts[i], b)),
            decreases (n - ai) + (n - bi)
//@ loopbody 1
            let ghost (l1, nodes1, pts1, ai1, bi1) = (links@, nodes@, pts, ai as int, bi as int);
            let ghost p = if next_a_cnt > 0 && (next_b_cnt == 0 || pt_lt(a, b) || a == b) { a } else { b };
            let ghost (a1, b1, na1, nb1) = (a, b, next_a_cnt as int, next_b_cnt as int);
            proof { lemma_same(l1, l0, end_bs@, inv); }
//@ after node_id
            proof { lemma_pick(l1, nodes1, pts1, end_bs@, inv, ai1, bi1, a1, b1, na1, nb1, a_cnt as int, b_cnt as int, p); }
            assert(indices@ =~= chosen(end_bs@, ai1, bi1, ai1, bi1));
//@ loopend 2
                    assert(indices@ =~= chosen(end_bs@, ai1, bi1, ai as int, bi1));
//@ loopend 3
                    assert(indices@ =~= chosen(end_bs@, ai1, bi1, ai2, bi as int));
//@ loop 2
                    invariant
                        n == l0.len(), links@.len() == n, ai == ai1 + vxk, a_cnt <= n - ai1,
                        indices@ == chosen(end_bs@, ai1, bi1, ai as int, bi1), node_id == nodes1.len(),
                        forall|i: int| #![trigger links@[i]] 0 <= i < n ==> links@[i].a.point == l1[i].a.point && links@[i].b == l1[i].b && links@[i].fill == l1[i].fill
                            && links@[i].a.id == (if ai1 <= i < ai { node_id } else { l1[i].a.id }),
//@ after_loop 2
            assert(starts(links@) =~= starts(l0));
//@ before_loop 3
            let ghost l2 = links@;
            let ghost ai2 = ai as int;
//@ loop 3
                    invariant
                        n == l0.len(), links@.len() == n, ends_ok(l0, end_bs@, inv), bi == bi1 + vxk, b_cnt <= n - bi1,
                        ai1 <= ai2 <= n, indices@ == chosen(end_bs@, ai1, bi1, ai2, bi as int), node_id == nodes1.len(),
                        forall|i: int| #![trigger links@[i]] 0 <= i < n ==> links@[i].b.point == l2[i].b.point && links@[i].a == l2[i].a && links@[i].fill == l2[i].fill
                            && links@[i].b.id == (if bi1 <= inv[i] < bi { node_id } else { l2[i].b.id }),
//@ loopend 1
            proof {
                pts = pts.push(p);
                assert(forall|i: int| #![trigger inv[i]] 0 <= i < n && bi1 <= inv[i] < bi ==> end_bs@[inv[i]].index == i && l1[i].b.point == p);
                lemma_node(l1, links@, nodes1, pts1, end_bs@, inv, ai1, bi1, ai as int, bi as int, nodes@.last(), p);
            }
//@ exit
        proof {
            reveal(part);
            assert forall|i: int| #![trigger links@[i]] 0 <= i < links@.len() implies end_at(links@[i].a, i, nodes@, pts) && end_at(links@[i].b, i, nodes@, pts) by { assert(inv[i] < bi); }
            assert(wired(links@, nodes@, pts));
        }
//@ endfn
}
}
fn main() {}
