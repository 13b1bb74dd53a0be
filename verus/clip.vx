// ---- string/graph.rs, string/clip.rs: the kept parts of lines come back as paths ----
//@ import graph.vx
//@ include strung.vx
verus! {
//@ item segm/winding_count.rs const STRING_FORWARD_CLIP
//@ item segm/winding_count.rs const STRING_BACK_CLIP
//@ item string/clip.rs const CLIP_BACK
//@ item string/clip.rs const CLIP_FORWARD
//@ item string/clip.rs const CLIP_ALL
//@ item string/graph.rs struct StringGraph
//@ item i_shape:int/path.rs type IntPath

// a part of a line: the link, and whether the line runs from its lower end to its upper
pub type At = spec_fn(Move) -> Option<(int, int)>;
pub struct Move { pub link: int, pub up: bool }
pub open spec fn mark(fill: SegmentFill, up: bool) -> bool { if up { fill & 4 != 0 } else { fill & 8 != 0 } }
pub open spec fn runs(l: Seq<OverlayLink>, m: Move) -> bool { 0 <= m.link < l.len() && mark(l[m.link].fill, m.up) }
pub open spec fn from(l: Seq<OverlayLink>, m: Move) -> IntPoint { if m.up { l[m.link].a.point } else { l[m.link].b.point } }
pub open spec fn to(l: Seq<OverlayLink>, m: Move) -> IntPoint { if m.up { l[m.link].b.point } else { l[m.link].a.point } }
// the path goes along these parts, one after the other
pub open spec fn along(l: Seq<OverlayLink>, path: Seq<IntPoint>, m: Seq<Move>) -> bool {
    &&& path.len() == m.len() + 1
    &&& forall|i: int| #![trigger m[i]] 0 <= i < m.len() ==> runs(l, m[i]) && path[i] == from(l, m[i]) && path[i + 1] == to(l, m[i])
}
// `at` tells for each part of a line the path and the place in it
pub open spec fn once(mv: Seq<Seq<Move>>, at: At) -> bool {
    &&& forall|p: int, q: int| #![trigger mv[p][q]] 0 <= p < mv.len() && 0 <= q < mv[p].len() ==> at(mv[p][q]) == Some((p, q))
    &&& forall|m: Move| #![trigger at(m)] match at(m) { Some(x) => 0 <= x.0 < mv.len() && 0 <= x.1 < mv[x.0].len() && mv[x.0][x.1] == m, None => true }
}
pub open spec fn by(at: At, m: Move, p: int) -> bool { match at(m) { Some(x) => x.0 <= p, None => false } }
// nothing was left to go on with at one end of the path (paths from 0 to p were made by then)
pub open spec fn stuck(l: Seq<OverlayLink>, path: Seq<IntPoint>, at: At, p: int) -> bool {
    ||| forall|m: Move| #![trigger runs(l, m)] runs(l, m) && from(l, m) == path.last() ==> by(at, m, p)
    ||| forall|m: Move| #![trigger runs(l, m)] runs(l, m) && to(l, m) == path[0] ==> by(at, m, p)
}
pub open spec fn views(v: Seq<Vec<IntPoint>>) -> Seq<Seq<IntPoint>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::opaque]
pub open spec fn cut(l: Seq<OverlayLink>, paths: Seq<Seq<IntPoint>>, mv: Seq<Seq<Move>>, at: At) -> bool {
    &&& mv.len() == paths.len()
    &&& forall|p: int| #![trigger mv[p]] 0 <= p < mv.len() ==> mv[p].len() >= 1 && along(l, paths[p], mv[p]) && stuck(l, paths[p], at, p)
    &&& once(mv, at)
}
// every part of a line that was kept is in exactly one place of one path
pub open spec fn pieces(l: Seq<OverlayLink>, paths: Seq<Seq<IntPoint>>, mv: Seq<Seq<Move>>, at: At) -> bool {
    cut(l, paths, mv, at) && forall|m: Move| #![trigger runs(l, m)] runs(l, m) ==> at(m) is Some
}
// the same links, some of their marks taken off
pub open spec fn same_ends(l: Seq<OverlayLink>, o: Seq<OverlayLink>) -> bool {
    l.len() == o.len() && forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> l[i].a == o[i].a && l[i].b == o[i].b
}
pub open spec fn cleared(l: Seq<OverlayLink>, o: Seq<OverlayLink>, m: Move) -> bool {
    &&& same_ends(l, o)
    &&& runs(o, m)
    &&& forall|n: Move| #![trigger runs(l, n)] runs(l, n) <==> runs(o, n) && n != m
}

pub proof fn lemma_back(f: u8)
    ensures mark((f & !4u8), false) == mark(f, false), !mark((f & !4u8), true), (f & 4 == 4) == mark(f, true),
        mark((f & !8u8), true) == mark(f, true), !mark((f & !8u8), false), (f & 8 == 8) == mark(f, false),
        f & 4 == 0 ==> f & !4u8 == f, f & 8 == 0 ==> f & !8u8 == f, f & 4 == 4 || f & 4 == 0, f & 8 == 8 || f & 8 == 0,
        (f & 12 == 0) == (!mark(f, true) && !mark(f, false)), !mark(0u8, true), !mark(0u8, false),
{
    assert((f & !4u8) & 8 == f & 8 && (f & !4u8) & 4 == 0) by (bit_vector);
    assert((f & !8u8) & 4 == f & 4 && (f & !8u8) & 8 == 0) by (bit_vector);
    assert(f & 4 == 4 || f & 4 == 0) by (bit_vector);
    assert(f & 4 == 0 ==> f & !4u8 == f) by (bit_vector);
    assert(f & 8 == 0 ==> f & !8u8 == f) by (bit_vector);
    assert(f & 8 == 8 || f & 8 == 0) by (bit_vector);
    assert((f & 12 == 0) == (f & 4 == 0 && f & 8 == 0)) by (bit_vector);
    assert(0u8 & 4 == 0 && 0u8 & 8 == 0) by (bit_vector);
}
pub proof fn lemma_consts()
    ensures CLIP_BACK == 4, CLIP_FORWARD == 8, CLIP_ALL == 12
{
    assert(1u8 << 2 == 4u8) by (bit_vector);
    assert(2u8 << 2 == 8u8) by (bit_vector);
    assert(4u8 | 8u8 == 12u8) by (bit_vector);
}

// the link has this end
pub open spec fn ends_in(l: Seq<OverlayLink>, a: IdPoint, i: int) -> bool { 0 <= i < l.len() && (l[i].a == a || l[i].b == a) }
// the part of a line that joins a and b, out of a or into it
pub open spec fn joins(l: Seq<OverlayLink>, m: Move, a: IdPoint, b: IdPoint, out: bool) -> bool {
    &&& ends_in(l, b, m.link)
    &&& from(l, m) == (if out { a.point } else { b.point }) && to(l, m) == (if out { b.point } else { a.point })
}

impl OverlayLink {
//@ fn core/link.rs OverlayLink other
//@ spec
        ensures r == (if self.a.id == node_id { self.b } else { self.a })
//@ endfn
//@ fn string/clip.rs OverlayLink visit_if_possible
//@ spec
        ensures
            final(self).a == old(self).a, final(self).b == old(self).b, r == mark(old(self).fill, !is_forward), !r ==> *final(self) == *old(self),
            mark(final(self).fill, is_forward) == mark(old(self).fill, is_forward), !mark(final(self).fill, !is_forward),
//@ entry
        proof { lemma_consts(); lemma_back(self.fill); }
//@ endfn
//@ fn string/clip.rs OverlayLink visit
//@ spec
        requires mark(old(self).fill, true) || mark(old(self).fill, false)
        ensures
            final(self).a == old(self).a, final(self).b == old(self).b, r == mark(old(self).fill, true),
            !mark(final(self).fill, r), mark(final(self).fill, !r) == (r && mark(old(self).fill, false)),
//@ entry
        proof { lemma_consts(); lemma_back(self.fill); }
//@ endfn
}
// the nodes as plain lists
pub proof fn lemma_strung(l: Seq<OverlayLink>, o: Seq<OverlayNode>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>)
    requires wired(l, o, pts), nodes.len() == o.len(), forall|k: int| #![trigger nodes[k]] 0 <= k < nodes.len() ==> nodes[k]@ == listed(o[k])
    ensures strung(l, nodes, pts)
{
    reveal(end_at);
    reveal(meets);
    assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies meets(l[i].a, i, nodes, pts) && meets(l[i].b, i, nodes, pts) by {
        assert(end_at(l[i].a, i, o, pts) && end_at(l[i].b, i, o, pts));
        let (p, q) = (choose|p: int| 0 <= p < listed(o[l[i].a.id as int]).len() && #[trigger] listed(o[l[i].a.id as int])[p] == i,
            choose|p: int| 0 <= p < listed(o[l[i].b.id as int]).len() && #[trigger] listed(o[l[i].b.id as int])[p] == i);
        assert(nodes[l[i].a.id as int]@[p] == i);
        assert(nodes[l[i].b.id as int]@[q] == i);
    }
    assert forall|k: int, p: int| #![trigger nodes[k]@[p]] 0 <= k < nodes.len() && 0 <= p < nodes[k]@.len() implies
            nodes[k]@[p] < l.len() && (l[nodes[k]@[p] as int].a.id == k || l[nodes[k]@[p] as int].b.id == k) by { assert(listed(o[k])[p] == nodes[k]@[p]); }
}
// the same id: the same point
pub proof fn lemma_id(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>, e: IdPoint, i: int, f: IdPoint, j: int)
    requires strung(l, nodes, pts), meets(e, i, nodes, pts), meets(f, j, nodes, pts)
    ensures (e.id == f.id) == (e.point == f.point)
{
    reveal(meets);
    if e.id < f.id { assert(pt_lt(pts[e.id as int], pts[f.id as int])); }
    if e.id > f.id { assert(pt_lt(pts[f.id as int], pts[e.id as int])); }
}
// no part of a line is left to go on with from this point
#[verifier::opaque]
pub open spec fn ended(l: Seq<OverlayLink>, p: IntPoint, out: bool) -> bool {
    forall|m: Move| #![trigger runs(l, m)] runs(l, m) ==> (if out { from(l, m) } else { to(l, m) }) != p
}
// the link does not go on from here
pub open spec fn passed(l: Seq<OverlayLink>, i: int, a: IdPoint, out: bool) -> bool {
    forall|m: Move| #![trigger runs(l, m)] runs(l, m) && m.link == i ==> (if out { from(l, m) } else { to(l, m) }) != a.point
}
pub proof fn lemma_across(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>, a: IdPoint, ia: int, i: int)
    requires strung(l, nodes, pts), ends_in(l, a, ia), forward(l), 0 <= i < l.len(), l[i].a.id == a.id || l[i].b.id == a.id
    ensures
        l[i].a.id == a.id ==> l[i].a.point == a.point && l[i].b.point != a.point && pt_lt(a.point, l[i].b.point) && !pt_lt(l[i].b.point, a.point),
        l[i].a.id != a.id ==> l[i].b.point == a.point && l[i].a.point != a.point && pt_lt(l[i].a.point, a.point) && !pt_lt(a.point, l[i].a.point),
{
    lemma_id(l, nodes, pts, a, ia, l[i].a, i);
    lemma_id(l, nodes, pts, a, ia, l[i].b, i);
    assert(pt_lt(l[i].a.point, l[i].b.point));
}
pub proof fn lemma_ended(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>, a: IdPoint, ia: int, out: bool)
    requires strung(l, nodes, pts), ends_in(l, a, ia), a.id < nodes.len(), forward(l),
        forall|k: int| #![trigger nodes[a.id as int]@[k]] 0 <= k < nodes[a.id as int]@.len() ==> passed(l, nodes[a.id as int]@[k] as int, a, out),
    ensures ended(l, a.point, out)
{
    reveal(ended);
    assert forall|m: Move| #![trigger runs(l, m)] runs(l, m) implies (if out { from(l, m) } else { to(l, m) }) != a.point by {
        let e = if out == m.up { l[m.link].a } else { l[m.link].b };
        if e.point == a.point {
            lemma_id(l, nodes, pts, a, ia, e, m.link);
            reveal(meets);
            let k = choose|k: int| 0 <= k < nodes[e.id as int]@.len() && #[trigger] nodes[e.id as int]@[k] == m.link;
            assert(passed(l, nodes[a.id as int]@[k] as int, a, out));
        }
    }
}
// a finished path, walked forward or backward, is added
pub open spec fn turned(m: Seq<Move>, out: bool) -> Seq<Move> { if out { m } else { m.reverse() } }
pub open spec fn with(at: At, m: Seq<Move>, p: int) -> At {
    |x: Move| if at(x) is Some { at(x) } else if m.contains(x) { Some((p, m.index_of(x))) } else { None }
}
// what is left of the links: the parts of lines in no path yet
#[verifier::opaque]
pub open spec fn kept(l0: Seq<OverlayLink>, l: Seq<OverlayLink>, at: At) -> bool {
    same_ends(l, l0) && forall|m: Move| #![trigger runs(l, m)] runs(l, m) <==> runs(l0, m) && at(m) is None
}
// the same while a path is made
#[verifier::opaque]
pub open spec fn going(l0: Seq<OverlayLink>, l: Seq<OverlayLink>, at: At, cur: Seq<Move>, path: Seq<IntPoint>, out: bool) -> bool {
    &&& same_ends(l, l0)
    &&& forall|m: Move| #![trigger runs(l, m)] runs(l, m) <==> runs(l0, m) && at(m) is None && !cur.contains(m)
    &&& cur.no_duplicates()
    &&& path.len() == cur.len() + 1
    &&& forall|i: int| #![trigger cur[i]] 0 <= i < cur.len() ==> runs(l0, cur[i]) && at(cur[i]) is None
            && path[i] == (if out { from(l0, cur[i]) } else { to(l0, cur[i]) }) && path[i + 1] == (if out { to(l0, cur[i]) } else { from(l0, cur[i]) })
}
#[verifier::opaque]
pub open spec fn behind(l: Seq<OverlayLink>, k: int) -> bool { forall|m: Move| #![trigger runs(l, m)] runs(l, m) ==> m.link >= k }
pub open spec fn left(l: Seq<OverlayLink>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { left(l, n - 1) + (if runs(l, Move { link: n - 1, up: true }) { 1nat } else { 0 }) + (if runs(l, Move { link: n - 1, up: false }) { 1nat } else { 0 }) }
}
pub proof fn lemma_kept(l0: Seq<OverlayLink>, l: Seq<OverlayLink>, at: At)
    requires kept(l0, l, at)
    ensures same_ends(l, l0)
{
    reveal(kept);
}
pub proof fn lemma_same_strung(l: Seq<OverlayLink>, o: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>)
    requires same_ends(l, o), strung(o, nodes, pts), forward(o)
    ensures strung(l, nodes, pts), forward(l)
{
    assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies meets(l[i].a, i, nodes, pts) && meets(l[i].b, i, nodes, pts) && pt_lt(l[i].a.point, l[i].b.point) by { assert(o[i].a == l[i].a); }
}
pub proof fn lemma_at(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, pts: Seq<IntPoint>, e: IdPoint, i: int)
    requires strung(l, nodes, pts), ends_in(l, e, i)
    ensures e.id < nodes.len()
{
    reveal(meets);
    assert(meets(l[i].a, i, nodes, pts) && meets(l[i].b, i, nodes, pts));
}
pub proof fn lemma_left(l: Seq<OverlayLink>, o: Seq<OverlayLink>, m: Move, n: int)
    requires cleared(l, o, m), 0 <= n <= l.len()
    ensures left(o, n) == left(l, n) + (if m.link < n { 1nat } else { 0 })
    decreases n
{
    if n > 0 {
        lemma_left(l, o, m, n - 1);
        let (u, d) = (Move { link: n - 1, up: true }, Move { link: n - 1, up: false });
        assert(runs(l, u) <==> runs(o, u) && u != m);
        assert(runs(l, d) <==> runs(o, d) && d != m);
        if m.link == n - 1 { assert(m == u || m == d); }
    }
}
pub proof fn lemma_begin(l0: Seq<OverlayLink>, paths: Seq<Seq<IntPoint>>, mv: Seq<Seq<Move>>, at: At)
    requires paths.len() == 0, mv.len() == 0, forall|m: Move| #[trigger] at(m) is None
    ensures kept(l0, l0, at), cut(l0, paths, mv, at), behind(l0, 0)
{
    reveal(kept); reveal(cut); reveal(behind);
}
pub proof fn lemma_behind(l: Seq<OverlayLink>, k: int)
    requires behind(l, k), 0 <= k < l.len()
    ensures !mark(l[k].fill, true) && !mark(l[k].fill, false) ==> behind(l, k + 1)
{
    reveal(behind);
}
pub proof fn lemma_set_off(l0: Seq<OverlayLink>, l1: Seq<OverlayLink>, l: Seq<OverlayLink>, at: At, m: Move, path: Seq<IntPoint>, out: bool, k: int)
    requires kept(l0, l1, at), cleared(l, l1, m), behind(l1, k), m.up == out, path.len() == 2, path[0] == l0[m.link].a.point, path[1] == l0[m.link].b.point
    ensures going(l0, l, at, seq![m], path, out), behind(l, k), left(l, l.len() as int) < left(l1, l1.len() as int), same_ends(l, l0)
{
    reveal(kept); reveal(going); reveal(behind);
    lemma_left(l, l1, m, l.len() as int);
    assert(seq![m].contains(m)) by { assert(seq![m][0] == m); }
    assert(seq![m].no_duplicates());
}
pub proof fn lemma_go_on(l0: Seq<OverlayLink>, l1: Seq<OverlayLink>, l: Seq<OverlayLink>, at: At, cur: Seq<Move>, path: Seq<IntPoint>, out: bool, m: Move, a: IdPoint, b: IdPoint, k: int)
    requires going(l0, l1, at, cur, path, out), cleared(l, l1, m), joins(l, m, a, b, out), behind(l1, k), path.last() == a.point
    ensures going(l0, l, at, cur.push(m), path.push(b.point), out), behind(l, k), left(l, l.len() as int) < left(l1, l1.len() as int), ends_in(l0, b, m.link)
{
    reveal(going); reveal(behind);
    lemma_left(l, l1, m, l.len() as int);
    let c = cur.push(m);
    assert(runs(l1, m));
    assert forall|n: Move| #[trigger] c.contains(n) <==> cur.contains(n) || n == m by {
        if cur.contains(n) { let i = cur.index_of(n); assert(c[i] == n); }
        assert(c[cur.len() as int] == m);
    }
    assert(c.no_duplicates());
}
pub proof fn lemma_arrive(l0: Seq<OverlayLink>, l: Seq<OverlayLink>, paths: Seq<Seq<IntPoint>>, mv: Seq<Seq<Move>>, at: At, cur: Seq<Move>, path: Seq<IntPoint>, out: bool, p: IntPoint, done: Seq<IntPoint>)
    requires
        going(l0, l, at, cur, path, out), cut(l0, paths, mv, at), cur.len() > 0, path.last() == p, ended(l, p, out),
        done == (if out { path } else { path.reverse() }),
    ensures
        kept(l0, l, with(at, turned(cur, out), mv.len() as int)),
        cut(l0, paths.push(done), mv.push(turned(cur, out)), with(at, turned(cur, out), mv.len() as int)),
{
    let (t, k) = (turned(cur, out), mv.len() as int);
    let (mw, aw, pw) = (mv.push(t), with(at, t, k), paths.push(done));
    reveal(going); reveal(kept); reveal(cut); reveal(ended);
    let n = cur.len() as int;
    assert forall|m: Move| #[trigger] t.contains(m) <==> cur.contains(m) by {
        if cur.contains(m) { let i = cur.index_of(m); assert(t[if out { i } else { n - 1 - i }] == m); }
        if t.contains(m) { let i = t.index_of(m); assert(cur[if out { i } else { n - 1 - i }] == m); }
    }
    assert(t.no_duplicates());
    assert forall|i: int| #![trigger t[i]] 0 <= i < n implies runs(l0, t[i]) && at(t[i]) is None && done[i] == from(l0, t[i]) && done[i + 1] == to(l0, t[i]) && t.index_of(t[i]) == i by {
        let j = if out { i } else { n - 1 - i };
        assert(t[i] == cur[j]);
        assert(t.contains(t[i]));
    }
    assert forall|q: int| #![trigger mw[q]] 0 <= q < mw.len() implies mw[q].len() >= 1 && along(l0, pw[q], mw[q]) && stuck(l0, pw[q], aw, q) by {
        if q < k {
            assert(mw[q] == mv[q] && pw[q] == paths[q]);
            assert(along(l0, paths[q], mv[q]) && stuck(l0, paths[q], at, q));
        } else {
            assert forall|m: Move| #![trigger runs(l0, m)] runs(l0, m) && (if out { from(l0, m) == done.last() } else { to(l0, m) == done[0] }) implies by(aw, m, k) by {
                if at(m) is None && !cur.contains(m) { assert(runs(l, m)); assert(from(l, m) == from(l0, m) && to(l, m) == to(l0, m)); }
                if at(m) is Some { lemma_where(mv, at, m); }
            }
        }
    }
    assert forall|x: int, y: int| #![trigger mw[x][y]] 0 <= x < mw.len() && 0 <= y < mw[x].len() implies aw(mw[x][y]) == Some((x, y)) by {
        if x < k { assert(mw[x] == mv[x]); assert(at(mv[x][y]) == Some((x, y))); } else { assert(mw[x] == t); assert(at(t[y]) is None); assert(t.contains(t[y])); }
    }
    assert forall|m: Move| #![trigger aw(m)] match aw(m) { Some(x) => 0 <= x.0 < mw.len() && 0 <= x.1 < mw[x.0].len() && mw[x.0][x.1] == m, None => true } by {
        if at(m) is Some { lemma_where(mv, at, m); assert(mw[at(m)->Some_0.0] == mv[at(m)->Some_0.0]); }
        else if t.contains(m) { assert(mw[k] == t); }
    }
    assert(once(mw, aw));
}
pub proof fn lemma_where(mv: Seq<Seq<Move>>, at: At, m: Move)
    requires once(mv, at), at(m) is Some
    ensures match at(m) { Some(x) => 0 <= x.0 < mv.len() && 0 <= x.1 < mv[x.0].len() && mv[x.0][x.1] == m, None => true }
{}

pub proof fn lemma_all(l0: Seq<OverlayLink>, l: Seq<OverlayLink>, paths: Seq<Seq<IntPoint>>, mv: Seq<Seq<Move>>, at: At)
    requires cut(l0, paths, mv, at), kept(l0, l, at), behind(l, l.len() as int)
    ensures pieces(l0, paths, mv, at)
{
    reveal(kept); reveal(behind);
    assert forall|m: Move| #![trigger runs(l0, m)] runs(l0, m) implies at(m) is Some by { assert(runs(l, m) <==> runs(l0, m) && at(m) is None); }
}
pub assume_specification<T> [ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

impl StringGraph {
//@ fn string/graph.rs StringGraph new
//@ sub <<<old_nodes.into_iter().map(|$N| match $M {$B}).collect();>>> <<<{ let mut v: Vec<Vec<usize>> = Vec::new(); for $N in it0: old_nodes { let x = match $M {$B}; v.push(x); } v };>>>
//@ spec
        requires in_order(links@), forward(links@), links@.len() < usize::MAX / 2
        ensures same_links(r.links@, links@), exists|pts: Seq<IntPoint>| #[trigger] strung(r.links@, r.nodes@, pts)
//@ after old_nodes
        let ghost o = old_nodes@;
//@ loop 0
            invariant it0.seq() == o, v@.len() == it0.index(), forall|k: int| #![trigger v@[k]] 0 <= k < v@.len() ==> v@[k]@ == listed(o[k])
//@ loopbody 0
            let ghost k0 = v@.len();
//@ loopend 0
            assert(v@[k0 as int]@ =~= listed(o[k0 as int]));
//@ exit
        proof {
            let pts = choose|pts: Seq<IntPoint>| #[trigger] wired(m_links@, o, pts);
            assert(nodes@.len() == o.len());
            lemma_strung(m_links@, o, nodes@, pts);
            let g = StringGraph { solver, nodes, links: m_links };
            assert(strung(g.links@, g.nodes@, pts));
        }
//@ endfn
//@ fn string/clip.rs StringGraph find_next_point
//@ index_loops
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] strung(old(links)@, nodes@, pts), a.id < nodes@.len(), forward(old(links)@),
            exists|i: int| #[trigger] ends_in(old(links)@, a, i),
        ensures
            match r {
                Some(b) => exists|m: Move| #[trigger] cleared(final(links)@, old(links)@, m) && joins(final(links)@, m, a, b, is_out_node),
                None => final(links)@ == old(links)@ && ended(old(links)@, a.point, is_out_node),
            }
//@ entry
        let ghost l0 = links@;
        let ghost pts = choose|pts: Seq<IntPoint>| #[trigger] strung(links@, nodes@, pts);
        let ghost ia = choose|i: int| #[trigger] ends_in(links@, a, i);
//@ loop 0
            invariant
                l0 == old(links)@, links@ == l0, strung(l0, nodes@, pts), a.id < nodes@.len(), forward(l0), ends_in(l0, a, ia), *node == nodes@[a.id as int],
                forall|k: int| #![trigger node@[k]] 0 <= k < it0 ==> passed(l0, node@[k] as int, a, is_out_node),
//@ loopbody 0
            let ghost index0 = node@[it0 as int] as int;
            proof {
                assert(nodes@[a.id as int]@[it0 as int] == index0);
                lemma_across(l0, nodes@, pts, a, ia, index0);
            }
//@ loopend 0
            assert(links@ =~= l0);
            assert(passed(l0, index0, a, is_out_node));
//@ after is_move_possible
            proof {
                if is_move_possible {
                    let m = Move { link: index0, up: is_out_node == pt_lt(a.point, b.point) };
                    assert(cleared(links@, l0, m));
                    assert(joins(links@, m, a, b, is_out_node));
                }
            }
//@ exit
        proof { lemma_ended(l0, nodes@, pts, a, ia, is_out_node); }
//@ endfn
//@ fn string/clip.rs StringGraph into_clip_string_lines
//@ spec
        requires exists|pts: Seq<IntPoint>| #[trigger] strung(self.links@, self.nodes@, pts), forward(self.links@)
        ensures exists|mv: Seq<Seq<Move>>, at: At| #[trigger] pieces(self.links@, views(r@), mv, at)
//@ entry
        let ghost l0 = self.links@;
        let ghost pts = choose|pts: Seq<IntPoint>| #[trigger] strung(self.links@, self.nodes@, pts);
        let ghost mut mv: Seq<Seq<Move>> = Seq::empty();
        let ghost mut at: At = |m: Move| None;
//@ before_loop 0
        proof { lemma_begin(l0, views(paths@), mv, at); }
//@ loop 0
            invariant
                strung(l0, nodes@, pts), forward(l0), strung(links@, nodes@, pts), forward(links@), sub_path@.len() == 0, kept(l0, links@, at), cut(l0, views(paths@), mv, at),
                links@.len() == l0.len(), link_index <= links@.len(), behind(links@, link_index as int),
            decreases left(links@, links@.len() as int), links@.len() - link_index
//@ loopbody 0
            let ghost l1 = links@;
            proof { lemma_consts(); lemma_back(links@[link_index as int].fill); lemma_behind(l1, link_index as int); lemma_kept(l0, l1, at); }
//@ before_loop 1
            let ghost out = is_out_node;
            let ghost mut l2 = links@;
            let ghost mut cur: Seq<Move> = seq![Move { link: link_index as int, up: out }];
            proof {
                let m = cur[0];
                assert(cleared(links@, l1, m));
                lemma_same_strung(links@, l1, nodes@, pts);
                lemma_set_off(l0, l1, links@, at, m, sub_path@, out, link_index as int);
                assert(a == links@[link_index as int].b || a == links@[link_index as int].a);
                assert(ends_in(l0, a, m.link));
                assert(ends_in(links@, a, m.link));
                lemma_at(links@, nodes@, pts, a, m.link);
            }
//@ loop 1
                invariant
                    l2 == links@, strung(l0, nodes@, pts), forward(l0), strung(links@, nodes@, pts), forward(links@), out == is_out_node,
                    going(l0, links@, at, cur, sub_path@, out), cur.len() > 0, sub_path@.last() == a.point,
                    exists|i: int| #[trigger] ends_in(l0, a, i), exists|i: int| #[trigger] ends_in(links@, a, i), a.id < nodes@.len(), links@.len() == l0.len(),
                    behind(links@, link_index as int), left(links@, links@.len() as int) < left(l1, l1.len() as int),
                ensures
                    ended(links@, a.point, out),
                decreases left(links@, links@.len() as int)
//@ loopbody 1
                proof {
                    let m = choose|m: Move| #[trigger] cleared(links@, l2, m) && joins(links@, m, a, b, out);
                    lemma_same_strung(links@, l2, nodes@, pts);
                    lemma_go_on(l0, l2, links@, at, cur, sub_path@, out, m, a, b, link_index as int);
                    cur = cur.push(m);
                    lemma_at(links@, nodes@, pts, b, m.link);
                }
//@ loopend 1
                proof { l2 = links@; }
//@ after_loop 1
            let ghost path = sub_path@;
            let ghost end = a.point;
//@ at <<<paths.push>>>
            let ghost done = sub_path@;
            let ghost paths1 = views(paths@);
            proof {
                lemma_arrive(l0, links@, views(paths@), mv, at, cur, path, out, end, done);
                at = with(at, turned(cur, out), mv.len() as int);
                mv = mv.push(turned(cur, out));
            }
//@ atafter <<<paths.push(sub_path.clone());>>>
            assert(views(paths@) =~= paths1.push(done));
//@ at <<<continue;>>>
                assert(links@ =~= l1);
//@ exit
        proof { lemma_all(l0, links@, views(paths@), mv, at); }
//@ endfn
}
}
fn main() {}
