// ---- from crossings to marks: SplitSolver::cross and cross_fragments ----
//@ import cross.vx
verus! {
//@ item split/line_mark.rs struct LineMark
//@ item split/fragment.rs struct Fragment
//@ item i_float:int/rect.rs struct IntRect
//@ item core/solver.rs enum Strategy
//@ item core/solver.rs struct Precision
//@ item core/solver.rs struct MultithreadOptions
//@ item core/solver.rs struct Solver
//@ item split/solver.rs struct SplitSolver

// every mark in n is one of the four collinear ends lying strictly inside the other segment, and all of those are there
pub open spec fn end_mark(m: LineMark, i: usize, j: usize, t: XSegment, o: XSegment) -> bool {
    ||| (m == LineMark { index: j, point: t.a } && inside(t.a, o))
    ||| (m == LineMark { index: j, point: t.b } && inside(t.b, o))
    ||| (m == LineMark { index: i, point: o.a } && inside(o.a, t))
    ||| (m == LineMark { index: i, point: o.b } && inside(o.b, t))
}
pub open spec fn cross_mark(m: LineMark, i: usize, j: usize, c: CrossResult) -> bool {
    m.point == c.point && (m.index == i && !(c.cross_type is TargetEnd) || m.index == j && !(c.cross_type is OtherEnd))
}
// marks m0 .. m1 appended for the segments t (number i) and o (number j), as far as `keep` admits their points
pub open spec fn marked(n: Seq<LineMark>, round: bool, i: usize, j: usize, t: XSegment, o: XSegment, radius: int, keep: spec_fn(IntPoint) -> bool) -> bool {
    if all_collinear(t, o) {
        !round && forall|m: LineMark| #[trigger] n.contains(m) <==> end_mark(m, i, j, t, o) && keep(m.point)
    } else if touch(t, o) || proper_cross(t, o) {
        exists|c: CrossResult| #[trigger] cross_ok(c, t, o, radius) && round == (c.is_round && keep(c.point))
            && forall|m: LineMark| #[trigger] n.contains(m) <==> cross_mark(m, i, j, c) && keep(m.point)
    } else {
        !round && n.len() == 0
    }
}
pub open spec fn any_point() -> spec_fn(IntPoint) -> bool { |p: IntPoint| true }
pub open spec fn near_rect(r: IntRect, p: IntPoint, k: int) -> bool {
    r.min_x - k <= p.x <= r.max_x + k && r.min_y - k <= p.y <= r.max_y + k
}
pub open spec fn near_both(r0: IntRect, r1: IntRect, k: int) -> spec_fn(IntPoint) -> bool {
    |p: IntPoint| near_rect(r0, p, k) && near_rect(r1, p, k)
}
pub open spec fn rect_in_range(r: IntRect) -> bool {
    -0x4000_0000 < r.min_x <= 0x4000_0000 && -0x4000_0000 < r.max_x < 0x4000_0000
    && -0x4000_0000 < r.min_y < 0x4000_0000 && -0x4000_0000 < r.max_y < 0x4000_0000
}
// the marks appended to s0
pub open spec fn tail(s: Seq<LineMark>, s0: Seq<LineMark>) -> Seq<LineMark> { s.skip(s0.len() as int) }
pub open spec fn extends(s: Seq<LineMark>, s0: Seq<LineMark>) -> bool { s.len() >= s0.len() && s.take(s0.len() as int) == s0 }

// where both are true, the collinear case decides
pub proof fn lemma_rel_disjoint(t: XSegment, o: XSegment)
    ensures all_collinear(t, o) ==> !touch(t, o) && !proper_cross(t, o)
{}

impl IntRect {
//@ fn i_float:int/rect.rs IntRect contains_with_radius
//@ spec
        requires rect_in_range(*self), 0 <= radius <= 0x4000_0000
        ensures r == near_rect(*self, point, radius as int)
//@ endfn
}

impl SplitSolver {
//@ fn split/solver.rs SplitSolver cross
//@ spec
        requires seg_ok(*ei), seg_ok(*ej), radius >= 0
        ensures
            extends(final(marks)@, old(marks)@),
            marked(tail(final(marks)@, old(marks)@), r, i, j, *ei, *ej, radius as int, any_point()),
//@ entry
        let ghost s0 = marks@;
        proof { 
            assert(s0.take(s0.len() as int) =~= s0);
            assert(tail(s0, s0) =~= Seq::empty());
            broadcast use {tail_push, extends_push, push_contains};
            lemma_rel_disjoint(*ei, *ej);
            lemma_mask_consts();
        }
//@ after mask
        proof { assert(mask.bits_are(inside(ei.a, *ej), inside(ei.b, *ej), inside(ej.a, *ei), inside(ej.b, *ei))); }
//@ exit
        proof {
            let n = tail(marks@, s0);
            assert(extends(marks@, s0));
            if all_collinear(*ei, *ej) {
              assert(cross.cross_type is Overlay);
               assert forall|m: LineMark| #[trigger] n.contains(m) <==> end_mark(m, i, j, *ei, *ej) by { }
            } else {
                assert forall|m: LineMark| #[trigger] n.contains(m) <==> cross_mark(m, i, j, cross) by { }
            }
        }
//@ endfn

//@ fn split/solver_fragment.rs SplitSolver is_common
//@ spec
        requires rect_in_range(fi.rect), rect_in_range(fj.rect), 0 <= radius <= 0x4000_0000
        ensures r == near_both(fi.rect, fj.rect, radius as int)(p)
//@ endfn

//@ fn split/solver_fragment.rs SplitSolver cross_fragments
//@ sub <<<?radius.min(1 << 30)>>> <<<min_i64(radius, 1 << 30)>>>
//@ spec
        requires seg_ok(fi.x_segment), seg_ok(fj.x_segment), rect_in_range(fi.rect), rect_in_range(fj.rect), radius >= 0
        ensures
            extends(final(marks)@, old(marks)@),
            marked(tail(final(marks)@, old(marks)@), r, fi.index, fj.index, fi.x_segment, fj.x_segment, radius as int,
                near_both(fi.rect, fj.rect, min2(radius as int, 0x4000_0000))),
//@ entry
        let ghost s0 = marks@;
        let ghost (i, j, ei, ej) = (fi.index, fj.index, fi.x_segment, fj.x_segment);
        proof {
            assert(s0.take(s0.len() as int) =~= s0);
            assert(tail(s0, s0) =~= Seq::empty());
            broadcast use {tail_push, extends_push, push_contains};
            lemma_rel_disjoint(ei, ej);
            lemma_mask_consts();
            assert(1i64 << 30 == 0x4000_0000) by (bit_vector);
        }
//@ after mask
        proof { assert(mask.bits_are(inside(ei.a, ej), inside(ei.b, ej), inside(ej.a, ei), inside(ej.b, ei))); }
//@ exit
        proof {
            let n = tail(marks@, s0);
            let keep = near_both(fi.rect, fj.rect, min2(radius as int, 0x4000_0000));
            assert(extends(marks@, s0));
            if all_collinear(ei, ej) {
                assert forall|m: LineMark| #[trigger] n.contains(m) <==> end_mark(m, i, j, ei, ej) && keep(m.point) by { }
            } else {
                assert forall|m: LineMark| #[trigger] n.contains(m) <==> cross_mark(m, i, j, cross) && keep(m.point) by { }
            }
        }
//@ endfn
}
pub fn min_i64(a: i64, b: i64) -> (r: i64) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

pub broadcast proof fn tail_push(s: Seq<LineMark>, s0: Seq<LineMark>, x: LineMark)
    requires s.len() >= s0.len(),
    ensures #[trigger] tail(s.push(x), s0) == tail(s, s0).push(x)
{ assert(tail(s.push(x), s0) =~= tail(s, s0).push(x)); }
pub broadcast proof fn extends_push(s: Seq<LineMark>, s0: Seq<LineMark>, x: LineMark)
    requires extends(s, s0),
    ensures #[trigger] extends(s.push(x), s0)
{ assert(s.push(x).take(s0.len() as int) =~= s.take(s0.len() as int)); }
pub broadcast proof fn push_contains(t: Seq<LineMark>, x: LineMark, m: LineMark)
    ensures #[trigger] t.push(x).contains(m) <==> t.contains(m) || m == x
{
    let u = t.push(x);
    if t.contains(m) { let k = choose|k: int| 0 <= k < t.len() && t[k] == m; assert(u[k] == m); }
    if m == x { assert(u[t.len() as int] == x); }
    if u.contains(m) { let k = choose|k: int| 0 <= k < u.len() && u[k] == m; if k < t.len() { assert(t[k] == m); } }
}
}
fn main() {}
