// ---- the nearest vector by rotation: NearestVector and the choice of the next link ----
//@ import base.vx
verus! {
//@ item i_float:fix_float.rs type FixFloat
//@ item i_float:fix_vec.rs struct FixVec
//@ item core/nearest_vector.rs struct NearestVector

pub open spec fn cp(u: FixVec, v: FixVec) -> int { u.x * v.y - u.y * v.x }
pub open spec fn dp(u: FixVec, v: FixVec) -> int { u.x * v.x + u.y * v.y }
pub open spec fn vec_ok(v: FixVec) -> bool { -0x8000_0000 < v.x < 0x8000_0000 && -0x8000_0000 < v.y < 0x8000_0000 && !(v.x == 0 && v.y == 0) }
pub open spec fn turn(c: int, cw: bool) -> int { if cw { -c } else { c } }
// the turn from u to v in the given direction: 0 under a half turn, 1 a half turn, 2 over a half turn, 3 none (the same direction)
pub open spec fn class(u: FixVec, v: FixVec, cw: bool) -> int {
    let c = turn(cp(u, v), cw);
    if c > 0 { 0 } else if c < 0 { 2 } else if dp(u, v) < 0 { 1 } else { 3 }
}
// turning from u, p comes before q
pub open spec fn before(u: FixVec, p: FixVec, q: FixVec, cw: bool) -> bool {
    class(u, p, cw) < class(u, q, cw) || (class(u, p, cw) == class(u, q, cw) && (class(u, p, cw) == 0 || class(u, p, cw) == 2) && turn(cp(p, q), cw) > 0)
}
pub open spec fn diff(a: IntPoint, c: IntPoint) -> FixVec { FixVec { x: (a.x - c.x) as i64, y: (a.y - c.y) as i64 } }
// another direction than the target's, and not the same point
pub open spec fn other_way(n: NearestVector, v: FixVec) -> bool { vec_ok(v) && class(n.va, v, cw_of(n)) != 3 }
pub open spec fn cw_of(n: NearestVector) -> bool { n.rotation_factor == 1 }
pub open spec fn nearest_ok(n: NearestVector) -> bool {
    in_range(n.c) && vec_ok(n.va) && (n.rotation_factor == 1 || n.rotation_factor == -1)
    && other_way(n, n.vb) && n.ab_more_180 == (class(n.va, n.vb, cw_of(n)) != 0)
}

impl FixVec {
//@ fn i_float:fix_vec.rs FixVec new
//@ spec
        ensures r.x == x, r.y == y
//@ endfn
//@ fn i_float:fix_vec.rs FixVec cross_product
//@ spec
        requires -0x8000_0000 < self.x < 0x8000_0000, -0x8000_0000 < self.y < 0x8000_0000, -0x8000_0000 < v.x < 0x8000_0000, -0x8000_0000 < v.y < 0x8000_0000
        ensures r == cp(self, v), -0x7fff_ffff_ffff_ffff <= r
//@ entry
        proof {
            lemma_prod(self.x as int, v.y as int);
            lemma_prod(self.y as int, v.x as int);
        }
//@ endfn
}
pub proof fn lemma_prod(a: int, b: int)
    requires -0x8000_0000 < a < 0x8000_0000, -0x8000_0000 < b < 0x8000_0000
    ensures -0x3fff_ffff_ffff_ffff <= a * b <= 0x3fff_ffff_ffff_ffff
{
    assert(-0x3fff_ffff_ffff_ffff <= a * b <= 0x3fff_ffff_ffff_ffff) by (nonlinear_arith) requires -0x7fff_ffff <= a <= 0x7fff_ffff, -0x7fff_ffff <= b <= 0x7fff_ffff;
}
impl IntPoint {
//@ fn i_float:int/point.rs IntPoint subtract
//@ spec
        requires in_range(self), in_range(other)
        ensures r == diff(self, other)
//@ endfn
}
impl NearestVector {
//@ fn core/nearest_vector.rs NearestVector new
//@ spec
        requires in_range(c), in_range(a), in_range(b), !(a.x == c.x && a.y == c.y), !(b.x == c.x && b.y == c.y), class(diff(a, c), diff(b, c), clockwise) != 3
        ensures nearest_ok(r), r.c == c, r.va == diff(a, c), r.vb == diff(b, c), r.best_id == best_id, cw_of(r) == clockwise
//@ endfn
//@ fn core/nearest_vector.rs NearestVector add
//@ spec
        requires nearest_ok(*old(self)), in_range(p), vec_ok(diff(p, old(self).c))
        ensures nearest_ok(*final(self)), final(self).c == old(self).c, final(self).va == old(self).va, cw_of(*final(self)) == cw_of(*old(self)),
            if before(old(self).va, diff(p, old(self).c), old(self).vb, cw_of(*old(self))) {
                final(self).vb == diff(p, old(self).c) && final(self).best_id == id
            } else {
                final(self).vb == old(self).vb && final(self).best_id == old(self).best_id
            }
//@ entry
        proof {
            let (u, q, v, cw) = (self.va, diff(p, self.c), self.vb, cw_of(*self));
            lemma_sorted(u, q, v, cw);
            assert(cp(u, q) * 1 == cp(u, q) && cp(u, q) * -1 == -cp(u, q) && cp(q, v) * 1 == cp(q, v) && cp(q, v) * -1 == -cp(q, v)) by (nonlinear_arith);
        }
//@ endfn
}
// ---- `before` orders the directions around a point ----
pub proof fn lemma_basis(u: FixVec, p: FixVec, q: FixVec)
    ensures dp(u, u) * cp(p, q) == dp(u, p) * cp(u, q) - cp(u, p) * dp(u, q)
{
    let (a, b, c, d, e, f) = (u.x as int, u.y as int, p.x as int, p.y as int, q.x as int, q.y as int);
    let (aa, bb, ab, cf, de, ce, df) = (a * a, b * b, a * b, c * f, d * e, c * e, d * f);
    assert((aa + bb) * (cf - de) == aa * cf - aa * de + bb * cf - bb * de) by (nonlinear_arith);
    assert((a * c + b * d) * (a * f - b * e) == (a * c) * (a * f) - (a * c) * (b * e) + (b * d) * (a * f) - (b * d) * (b * e)) by (nonlinear_arith);
    assert((a * d - b * c) * (a * e + b * f) == (a * d) * (a * e) + (a * d) * (b * f) - (b * c) * (a * e) - (b * c) * (b * f)) by (nonlinear_arith);
    assert((a * c) * (a * f) == (a * a) * (c * f) && (b * d) * (b * e) == (b * b) * (d * e)) by (nonlinear_arith);
    assert((a * d) * (a * e) == (a * a) * (d * e) && (b * c) * (b * f) == (b * b) * (c * f)) by (nonlinear_arith);
    assert((a * c) * (b * e) == (a * b) * (c * e) && (b * d) * (a * f) == (a * b) * (d * f)) by (nonlinear_arith);
    assert((a * d) * (b * f) == (a * b) * (d * f) && (b * c) * (a * e) == (a * b) * (c * e)) by (nonlinear_arith);
}
pub proof fn lemma_norm(u: FixVec)
    requires vec_ok(u)
    ensures dp(u, u) > 0
{
    let (a, b) = (u.x as int, u.y as int);
    assert(a * a + b * b > 0) by (nonlinear_arith) requires a != 0 || b != 0;
}
// beyond the half turn the sign of the cross product alone tells which comes first, a half turn included
pub proof fn lemma_sorted(u: FixVec, p: FixVec, q: FixVec, cw: bool)
    requires vec_ok(u), vec_ok(p), vec_ok(q), class(u, q, cw) != 3
    ensures (class(u, p, cw) == 0) == (class(u, q, cw) == 0) ==> (before(u, p, q, cw) <==> turn(cp(p, q), cw) > 0)
{
    lemma_basis(u, p, q);
    lemma_norm(u);
    let (n, x) = (dp(u, u), cp(p, q));
    let (pd, pc, qd, qc) = (dp(u, p), cp(u, p), dp(u, q), cp(u, q));
    if pc == 0 && qc == 0 {
        assert(x == 0) by (nonlinear_arith) requires n * x == pd * qc - pc * qd, pc == 0, qc == 0, n > 0;
    } else if pc == 0 {
        assert(qc > 0 && pd < 0 ==> x < 0) by (nonlinear_arith) requires n * x == pd * qc - pc * qd, pc == 0, n > 0;
        assert(qc < 0 && pd < 0 ==> x > 0) by (nonlinear_arith) requires n * x == pd * qc - pc * qd, pc == 0, n > 0;
        assert(qc > 0 && pd >= 0 ==> x >= 0) by (nonlinear_arith) requires n * x == pd * qc - pc * qd, pc == 0, n > 0;
        assert(qc < 0 && pd >= 0 ==> x <= 0) by (nonlinear_arith) requires n * x == pd * qc - pc * qd, pc == 0, n > 0;
    } else if qc == 0 {
        assert(pc > 0 ==> x > 0) by (nonlinear_arith) requires n * x == pd * qc - pc * qd, qc == 0, qd < 0, n > 0;
        assert(pc < 0 ==> x < 0) by (nonlinear_arith) requires n * x == pd * qc - pc * qd, qc == 0, qd < 0, n > 0;
    }
}
// p before q before r: p before r
pub proof fn lemma_before_trans(u: FixVec, p: FixVec, q: FixVec, r: FixVec, cw: bool)
    requires vec_ok(u), before(u, p, q, cw), before(u, q, r, cw)
    ensures before(u, p, r, cw)
{
    lemma_norm(u);
    lemma_basis(u, p, q);
    lemma_basis(u, q, r);
    lemma_basis(u, p, r);
    let n = dp(u, u);
    let (pd, pc, qd, qc, rd, rc) = (dp(u, p), cp(u, p), dp(u, q), cp(u, q), dp(u, r), cp(u, r));
    let (k, pq, qr, pr) = (turn(1, cw), cp(p, q), cp(q, r), cp(p, r));
    if class(u, p, cw) == class(u, r, cw) {
        let (c1, c2, c3) = (turn(pc, cw), turn(qc, cw), turn(rc, cw));
        assert(turn(pq, cw) > 0 && turn(qr, cw) > 0);
        assert(pd * c2 == turn(pd * qc, cw) && c1 * qd == turn(pc * qd, cw) && qd * c3 == turn(qd * rc, cw) && c2 * rd == turn(qc * rd, cw)
            && pd * c3 == turn(pd * rc, cw) && c1 * rd == turn(pc * rd, cw)) by (nonlinear_arith)
            requires c1 == turn(pc, cw), c2 == turn(qc, cw), c3 == turn(rc, cw);
        assert(turn(n * pq, cw) == n * turn(pq, cw) && turn(n * qr, cw) == n * turn(qr, cw) && turn(n * pr, cw) == n * turn(pr, cw)) by (nonlinear_arith);
        assert(pd * c2 > c1 * qd) by (nonlinear_arith) requires n * turn(pq, cw) == pd * c2 - c1 * qd, n > 0, turn(pq, cw) > 0;
        assert(qd * c3 > c2 * rd) by (nonlinear_arith) requires n * turn(qr, cw) == qd * c3 - c2 * rd, n > 0, turn(qr, cw) > 0;
        if c1 > 0 {
            lemma_ratio(pd, c1, qd, c2, rd, c3);
        } else {
            assert(-pd * -c2 == pd * c2 && -c1 * -qd == c1 * qd && -qd * -c3 == qd * c3 && -c2 * -rd == c2 * rd && -pd * -c3 == pd * c3 && -c1 * -rd == c1 * rd) by (nonlinear_arith);
            lemma_ratio(-pd, -c1, -qd, -c2, -rd, -c3);
        }
        assert(turn(pr, cw) > 0) by (nonlinear_arith) requires n * turn(pr, cw) == pd * c3 - c1 * rd, n > 0, pd * c3 > c1 * rd;
    }
}
pub proof fn lemma_ratio(a: int, x: int, b: int, y: int, c: int, z: int)
    requires x > 0, y > 0, z > 0, a * y > x * b, b * z > y * c
    ensures a * z > x * c
{
    assert((a * y) * z > (x * b) * z) by (nonlinear_arith) requires a * y > x * b, z > 0;
    assert(x * (b * z) > x * (y * c)) by (nonlinear_arith) requires b * z > y * c, x > 0;
    assert((a * y) * z == y * (a * z) && (x * b) * z == x * (b * z) && x * (y * c) == y * (x * c)) by (nonlinear_arith);
    assert(a * z > x * c) by (nonlinear_arith) requires y * (a * z) > y * (x * c), y > 0;
}

pub proof fn lemma_keep(u: FixVec, v0: FixVec, v1: FixVec, x: FixVec, cw: bool)
    requires vec_ok(u), v1 == v0 || before(u, v1, v0, cw), !before(u, x, v0, cw) || x == v1
    ensures !before(u, x, v1, cw)
{
    lemma_self(u, v1, cw);
    if before(u, x, v1, cw) && v1 != v0 { lemma_before_trans(u, x, v1, v0, cw); }
}
pub proof fn lemma_self(u: FixVec, v: FixVec, cw: bool)
    ensures !before(u, v, v, cw)
{
    assert(v.x * v.y == v.y * v.x) by (nonlinear_arith);
}
// ---- the choice of the next link at a crossing ----
//@ item core/solver.rs enum Strategy
//@ item core/solver.rs struct Precision
//@ item core/solver.rs struct MultithreadOptions
//@ item core/solver.rs struct Solver
//@ item geom/id_point.rs struct IdPoint
//@ item segm/segment.rs type SegmentFill
//@ item core/link.rs struct OverlayLink
//@ item core/node.rs enum OverlayNode
//@ item core/graph.rs struct OverlayGraph

impl OverlayLink {
    pub open spec fn far(self, node_id: usize) -> IdPoint { if self.a.id == node_id { self.b } else { self.a } }
    pub open spec fn near(self, node_id: usize) -> IdPoint { if self.a.id == node_id { self.a } else { self.b } }
//@ fn core/link.rs OverlayLink other
//@ spec
        ensures r == self.far(node_id)
//@ endfn
}
pub trait Visit {
    spec fn flags(&self) -> Seq<bool>;
    fn is_visited(&self, index: usize) -> (r: bool)
        requires index < self.flags().len()
        ensures r == self.flags()[index as int];
    fn is_not_visited(&self, index: usize) -> (r: bool)
        requires index < self.flags().len()
        ensures r == !self.flags()[index as int];
    fn visit(&mut self, index: usize)
        requires index < old(self).flags().len()
        ensures final(self).flags() == old(self).flags().update(index as int, true);
}
impl Visit for [bool] {
    open spec fn flags(&self) -> Seq<bool> { self@ }
//@ fn core/extract.rs Visit for [bool] is_visited
//@ nopub
//@ endfn
//@ fn core/extract.rs Visit for [bool] is_not_visited
//@ nopub
//@ endfn
//@ fn core/extract.rs Visit for [bool] visit
//@ nopub
//@ endfn
}
// the direction in which link k leaves the node
pub open spec fn way(g: OverlayGraph, k: int, node_id: usize) -> FixVec { diff(g.links@[k].far(node_id).point, g.links@[k].near(node_id).point) }
// link k is a proper edge at the node, whose point is c
pub open spec fn at_node(g: OverlayGraph, k: int, node_id: usize, c: IntPoint) -> bool {
    0 <= k < g.links@.len() && (g.links@[k].a.id == node_id || g.links@[k].b.id == node_id) && g.links@[k].near(node_id).point == c
    && in_range(g.links@[k].far(node_id).point) && !(g.links@[k].far(node_id).point.x == c.x && g.links@[k].far(node_id).point.y == c.y)
}
pub open spec fn candidate(indices: Seq<usize>, visited: Seq<bool>, p: int) -> bool { 0 <= p < indices.len() && !visited[indices[p] as int] }

impl OverlayGraph {
//@ fn core/extract.rs OverlayGraph link
//@ spec
        requires index < self.links@.len()
        ensures *r == self.links@[index as int]
//@ endfn
//@ fn core/extract.rs OverlayGraph node
//@ spec
        requires index < self.nodes@.len()
        ensures *r == self.nodes@[index as int]
//@ endfn
//@ fn core/extract.rs OverlayGraph find_nearest_link_to
//@ index_loops
//@ spec
        requires
            visited@.len() == self.links@.len(), self.links@.len() < usize::MAX,
            at_node(*self, target_index as int, node_id, self.links@[target_index as int].near(node_id).point),
            in_range(self.links@[target_index as int].near(node_id).point),
            forall|p: int| #![trigger indices@[p]] 0 <= p < indices@.len() ==> at_node(*self, indices@[p] as int, node_id, self.links@[target_index as int].near(node_id).point),
            // no link leaves in the direction of the target
            forall|p: int| #![trigger indices@[p]] candidate(indices@, visited@, p) ==> class(way(*self, target_index as int, node_id), way(*self, indices@[p] as int, node_id), clockwise) != 3,
            exists|p: int| #[trigger] candidate(indices@, visited@, p),
        ensures
            exists|p: int| #[trigger] candidate(indices@, visited@, p) && indices@[p] == r,
            forall|p: int| #[trigger] candidate(indices@, visited@, p) ==>
                !before(way(*self, target_index as int, node_id), way(*self, indices@[p] as int, node_id), way(*self, r as int, node_id), clockwise),
//@ entry
        let ghost u = way(*self, target_index as int, node_id);
//@ loop 0
            invariant_except_break
                second_index == usize::MAX,
                forall|p: int| #![trigger candidate(indices@, visited@, p)] candidate(indices@, visited@, p) && p < it0 ==> !is_first && indices@[p] == first_index,
            invariant
                visited@.len() == self.links@.len(), self.links@.len() < usize::MAX,
                forall|p: int| #![trigger indices@[p]] 0 <= p < indices@.len() ==> at_node(*self, indices@[p] as int, node_id, self.links@[target_index as int].near(node_id).point),
                !is_first ==> exists|p: int| #[trigger] candidate(indices@, visited@, p) && indices@[p] == first_index,
            ensures
                second_index == usize::MAX ==> forall|p: int| #![trigger candidate(indices@, visited@, p)] candidate(indices@, visited@, p) ==> !is_first && indices@[p] == first_index,
                second_index != usize::MAX ==> !is_first && candidate(indices@, visited@, pos as int) && indices@[pos as int] == second_index
                    && forall|p: int| #![trigger candidate(indices@, visited@, p)] candidate(indices@, visited@, p) && p <= pos ==> indices@[p] == first_index || indices@[p] == second_index,
//@ loopbody 0
            proof { assert(candidate(indices@, visited@, it0 as int) || visited@[indices@[it0 as int] as int]); }
//@ after b
        let ghost f0 = choose|p: int| #[trigger] candidate(indices@, visited@, p) && indices@[p] == first_index;
//@ before_loop 1
        proof {
            let v = vector_solver.vb;
            let v0 = way(*self, first_index as int, node_id);
            assert forall|p: int| #[trigger] candidate(indices@, visited@, p) && p < pos + 1 implies !before(u, way(*self, indices@[p] as int, node_id), v, clockwise) by {
                lemma_self(u, v0, clockwise);
                lemma_self(u, v, clockwise);
                lemma_keep(u, v0, v, way(*self, indices@[p] as int, node_id), clockwise);
            }
        }
//@ loop 1
            invariant
                visited@.len() == self.links@.len(), self.links@.len() < usize::MAX,
                nearest_ok(vector_solver), cw_of(vector_solver) == clockwise, vector_solver.va == u, u == way(*self, target_index as int, node_id),
                vector_solver.c == self.links@[target_index as int].near(node_id).point,
                vector_solver.vb == way(*self, vector_solver.best_id as int, node_id),
                exists|p: int| #[trigger] candidate(indices@, visited@, p) && indices@[p] == vector_solver.best_id,
                forall|p: int| #![trigger indices@[p]] 0 <= p < indices@.len() ==> at_node(*self, indices@[p] as int, node_id, self.links@[target_index as int].near(node_id).point),
                forall|p: int| #![trigger indices@[p]] candidate(indices@, visited@, p) ==> class(u, way(*self, indices@[p] as int, node_id), clockwise) != 3,
                forall|p: int| #[trigger] candidate(indices@, visited@, p) && p < it1 ==> !before(u, way(*self, indices@[p] as int, node_id), vector_solver.vb, clockwise),
//@ loopbody 1
            let ghost v0 = vector_solver.vb;
            proof { assert(candidate(indices@, visited@, it1 as int) || visited@[indices@[it1 as int] as int]); }
//@ loopend 1
            proof {
                let v1 = vector_solver.vb;
                assert forall|p: int| #[trigger] candidate(indices@, visited@, p) && p < it1 + 1 implies !before(u, way(*self, indices@[p] as int, node_id), v1, clockwise) by {
                    lemma_keep(u, v0, v1, way(*self, indices@[p] as int, node_id), clockwise);
                }
            }
//@ endfn
}
}
fn main() {}
