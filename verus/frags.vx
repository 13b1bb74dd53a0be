// ---- the pieces of a column against one another, and the ends on its border ----
#![feature(allocator_api)]
//@ import strategy.vx
//@ import grid.vx
verus! {
// the extractor's `.take(n)` of a loop
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub open spec fn int_ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn keep_of(f: Fragment, g: Fragment, radius: int) -> spec_fn(IntPoint) -> bool { near_both(f.rect, g.rect, min2(radius, 0x4000_0000)) }
pub open spec fn boxes_meet(a: IntRect, b: IntRect) -> bool {
    a.min_x <= b.max_x && a.max_x >= b.min_x && a.min_y <= b.max_y && a.max_y >= b.min_y
}
pub open spec fn frag_ok(f: Fragment) -> bool { seg_ok(f.x_segment) && rect_in_range(f.rect) }
pub open spec fn frags_ok(s: Seq<Fragment>) -> bool { forall|i: int| 0 <= i < s.len() ==> frag_ok(#[trigger] s[i]) }
// what one pair of pieces gives
pub open spec fn pair_marks(n: Seq<LineMark>, round: bool, f: Fragment, g: Fragment, radius: int) -> bool {
    marked(n, round, f.index, g.index, f.x_segment, g.x_segment, radius, keep_of(f, g, radius))
}
// the pair was looked at: all its marks are there
pub open spec fn looked(marks: Seq<LineMark>, need: bool, f: Fragment, g: Fragment, radius: int) -> bool {
    exists|n: Seq<LineMark>, round: bool| #[trigger] pair_marks(n, round, f, g, radius) && (round ==> need) && forall|m: LineMark| #[trigger] n.contains(m) ==> marks.contains(m)
}
// the mark comes from a pair of the pieces
pub open spec fn from_pair(s: Seq<Fragment>, need: bool, m: LineMark, f: Fragment, g: Fragment, n: Seq<LineMark>, round: bool, radius: int) -> bool {
    s.contains(f) && s.contains(g) && seg_lt(f.x_segment, g.x_segment) && pair_marks(n, round, f, g, radius) && (round ==> need) && n.contains(m)
}
pub open spec fn comes_from(s: Seq<Fragment>, need: bool, m: LineMark, radius: int) -> bool {
    exists|f: Fragment, g: Fragment, n: Seq<LineMark>, round: bool| #[trigger] from_pair(s, need, m, f, g, n, round, radius)
}
#[verifier::opaque]
pub open spec fn all_from(s: Seq<Fragment>, need: bool, n: Seq<LineMark>, radius: int) -> bool {
    &&& forall|m: LineMark| #[trigger] n.contains(m) ==> comes_from(s, need, m, radius)
    &&& need ==> n.len() > 0
}
// every pair of pieces whose boxes meet was looked at
pub open spec fn all_looked(s: Seq<Fragment>, marks: Seq<LineMark>, need: bool, radius: int) -> bool {
    forall|f: Fragment, g: Fragment| #[trigger] s.contains(f) && #[trigger] s.contains(g) && seg_lt(f.x_segment, g.x_segment) && boxes_meet(f.rect, g.rect) ==> looked(marks, need, f, g, radius)
}
// the pairs (x, y), x < y, before row i or in row i before j
#[verifier::opaque]
pub open spec fn looked_to(s: Seq<Fragment>, marks: Seq<LineMark>, need: bool, radius: int, i: int, j: int) -> bool {
    forall|x: int, y: int| 0 <= x < y < s.len() && (x < i || x == i && y < j) && boxes_meet(s[x].rect, s[y].rect) ==>
        (seg_lt((#[trigger] s[x]).x_segment, (#[trigger] s[y]).x_segment) ==> looked(marks, need, s[x], s[y], radius))
        && (seg_lt(s[y].x_segment, s[x].x_segment) ==> looked(marks, need, s[y], s[x], radius))
}
pub proof fn lemma_looked_more(m0: Seq<LineMark>, m1: Seq<LineMark>, need: bool, more: bool, f: Fragment, g: Fragment, radius: int)
    requires looked(m0, need, f, g, radius), need ==> more, forall|m: LineMark| #[trigger] m0.contains(m) ==> m1.contains(m)
    ensures looked(m1, more, f, g, radius)
{
    let (n, round) = choose|n: Seq<LineMark>, round: bool| #[trigger] pair_marks(n, round, f, g, radius) && (round ==> need) && forall|m: LineMark| #[trigger] n.contains(m) ==> m0.contains(m);
    assert(pair_marks(n, round, f, g, radius));
}
pub proof fn lemma_extends_contains(m0: Seq<LineMark>, m1: Seq<LineMark>)
    requires extends(m1, m0)
    ensures forall|m: LineMark| #[trigger] m1.contains(m) <==> m0.contains(m) || tail(m1, m0).contains(m)
{
    assert forall|m: LineMark| #[trigger] m1.contains(m) <==> m0.contains(m) || tail(m1, m0).contains(m) by {
        if m1.contains(m) {
            let q = choose|q: int| 0 <= q < m1.len() && m1[q] == m;
            if q < m0.len() { assert(m1.take(m0.len() as int)[q] == m); } else { assert(tail(m1, m0)[q - m0.len()] == m); }
        }
        if m0.contains(m) {
            let q = choose|q: int| 0 <= q < m0.len() && m0[q] == m;
            assert(m1.take(m0.len() as int)[q] == m);
            assert(m1[q] == m);
        }
        if tail(m1, m0).contains(m) {
            let q = choose|q: int| 0 <= q < tail(m1, m0).len() && tail(m1, m0)[q] == m;
            assert(m1[q + m0.len()] == m);
        }
    }
}
// an edge has no marks on itself
pub proof fn lemma_self_unmarked(n: Seq<LineMark>, round: bool, f: Fragment, g: Fragment, radius: int)
    requires pair_marks(n, round, f, g, radius), f.x_segment == g.x_segment
    ensures n.len() == 0, !round
{
    let t = f.x_segment;
    let (x, y) = (t.b.x - t.a.x, t.b.y - t.a.y);
    assert(all_collinear(t, t)) by {
        assert(x * 0 - y * 0 == 0 && x * y - y * x == 0) by (nonlinear_arith);
    }
    if n.len() > 0 { assert(n.contains(n[0])); }
}
pub proof fn lemma_round_pair(n: Seq<LineMark>, f: Fragment, g: Fragment, radius: int)
    requires pair_marks(n, true, f, g, radius)
    ensures n.len() > 0
{
    let (i, j, t, o, keep) = (f.index, g.index, f.x_segment, g.x_segment, keep_of(f, g, radius));
    let c = choose|c: CrossResult| #[trigger] cross_ok(c, t, o, radius) && true == (c.is_round && keep(c.point))
        && forall|m: LineMark| #[trigger] n.contains(m) <==> cross_mark(m, i, j, c) && keep(m.point);
    let (a, b) = (LineMark { index: i, point: c.point }, LineMark { index: j, point: c.point });
    assert(cross_mark(a, i, j, c) || cross_mark(b, i, j, c));
    assert(n.contains(a) || n.contains(b));
}
// one pair more
pub proof fn lemma_pair_step(s: Seq<Fragment>, b0: Seq<LineMark>, m0: Seq<LineMark>, m1: Seq<LineMark>, need: bool, round: bool, i: int, j: int, radius: int)
    requires
        0 <= i < j < s.len(), extends(m0, b0), extends(m1, m0), all_from(s, need, tail(m0, b0), radius), looked_to(s, tail(m0, b0), need, radius, i, j),
        seg_lt(s[i].x_segment, s[j].x_segment) ==> pair_marks(tail(m1, m0), round, s[i], s[j], radius),
        !seg_lt(s[i].x_segment, s[j].x_segment) ==> pair_marks(tail(m1, m0), round, s[j], s[i], radius),
    ensures extends(m1, b0), all_from(s, need || round, tail(m1, b0), radius), looked_to(s, tail(m1, b0), need || round, radius, i, j + 1)
{
    reveal(all_from);
    reveal(looked_to);
    let (n, all0, all1) = (tail(m1, m0), tail(m0, b0), tail(m1, b0));
    assert(m1.take(b0.len() as int) =~= m1.take(m0.len() as int).take(b0.len() as int));
    assert(all1 =~= all0 + n);
    assert(s[i].x_segment == s[j].x_segment || seg_lt(s[i].x_segment, s[j].x_segment) || seg_lt(s[j].x_segment, s[i].x_segment));
    let (f, g) = if seg_lt(s[i].x_segment, s[j].x_segment) { (s[i], s[j]) } else { (s[j], s[i]) };
    if f.x_segment == g.x_segment { lemma_self_unmarked(n, round, f, g, radius); }
    if round { lemma_round_pair(n, f, g, radius); }
    assert forall|m: LineMark| #[trigger] all1.contains(m) <==> all0.contains(m) || n.contains(m) by {
        if all1.contains(m) { let q = choose|q: int| 0 <= q < all1.len() && all1[q] == m; if q < all0.len() { assert(all0[q] == m); } else { assert(n[q - all0.len()] == m); } }
        if all0.contains(m) { let q = choose|q: int| 0 <= q < all0.len() && all0[q] == m; assert(all1[q] == m); }
        if n.contains(m) { let q = choose|q: int| 0 <= q < n.len() && n[q] == m; assert(all1[q + all0.len()] == m); }
    }
    assert(s.contains(s[i]) && s.contains(s[j]));
    assert forall|m: LineMark| #[trigger] all1.contains(m) implies comes_from(s, need || round, m, radius) by {
        if all0.contains(m) {
            assert(comes_from(s, need, m, radius));
            let (f1, g1, n1, r1) = choose|f: Fragment, g: Fragment, n: Seq<LineMark>, round: bool| #[trigger] from_pair(s, need, m, f, g, n, round, radius);
            assert(from_pair(s, need || round, m, f1, g1, n1, r1, radius));
        } else { assert(from_pair(s, need || round, m, f, g, n, round, radius)); }
    }
    assert forall|x: int, y: int| 0 <= x < y < s.len() && (x < i || x == i && y < j + 1) && boxes_meet(s[x].rect, s[y].rect) implies
        (seg_lt((#[trigger] s[x]).x_segment, (#[trigger] s[y]).x_segment) ==> looked(all1, need || round, s[x], s[y], radius))
        && (seg_lt(s[y].x_segment, s[x].x_segment) ==> looked(all1, need || round, s[y], s[x], radius)) by {
        if x == i && y == j { if f.x_segment != g.x_segment { assert(pair_marks(n, round, f, g, radius)); assert(looked(all1, need || round, f, g, radius)); } }
        else {
            if seg_lt(s[x].x_segment, s[y].x_segment) { lemma_looked_more(all0, all1, need, need || round, s[x], s[y], radius); }
            if seg_lt(s[y].x_segment, s[x].x_segment) { lemma_looked_more(all0, all1, need, need || round, s[y], s[x], radius); }
        }
    }
}
pub open spec fn by_min_y(s: Seq<Fragment>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).rect.min_y <= (#[trigger] s[j]).rect.min_y }
// pairs whose boxes do not meet need no look
pub proof fn lemma_looked_apart(s: Seq<Fragment>, n: Seq<LineMark>, need: bool, radius: int, i: int, j: int)
    requires 0 <= i < j < s.len(), looked_to(s, n, need, radius, i, j), !boxes_meet(s[i].rect, s[j].rect)
    ensures looked_to(s, n, need, radius, i, j + 1)
{
    reveal(looked_to);
}
pub proof fn lemma_looked_beyond(s: Seq<Fragment>, n: Seq<LineMark>, need: bool, radius: int, i: int, j: int)
    requires 0 <= i < j < s.len(), looked_to(s, n, need, radius, i, j), by_min_y(s), s[i].rect.max_y < s[j].rect.min_y
    ensures looked_to(s, n, need, radius, i, s.len() as int)
{
    reveal(looked_to);
}
pub proof fn lemma_looked_row(s: Seq<Fragment>, n: Seq<LineMark>, need: bool, radius: int, i: int)
    requires 0 <= i
    ensures
        looked_to(s, n, need, radius, i, i) ==> looked_to(s, n, need, radius, i, i + 1),
        i < s.len() && looked_to(s, n, need, radius, i, s.len() as int) ==> looked_to(s, n, need, radius, i + 1, i + 1)
{
    reveal(looked_to);
}
pub proof fn lemma_looked_start(s: Seq<Fragment>, m0: Seq<LineMark>, radius: int)
    ensures extends(m0, m0), tail(m0, m0).len() == 0, looked_to(s, tail(m0, m0), false, radius, 0, 0), all_from(s, false, tail(m0, m0), radius), s.len() < 2 ==> looked_to(s, tail(m0, m0), false, radius, s.len() - 1, s.len() - 1)
{
    reveal(all_from);
    reveal(looked_to);
    assert(m0.take(m0.len() as int) =~= m0);
    assert(tail(m0, m0) =~= Seq::empty());
}
// the order of the pieces does not matter
pub proof fn lemma_looked_end(s0: Seq<Fragment>, s: Seq<Fragment>, n: Seq<LineMark>, need: bool, radius: int)
    requires looked_to(s, n, need, radius, s.len() - 1, s.len() - 1), all_from(s, need, n, radius), s.to_multiset() == s0.to_multiset()
    ensures all_looked(s0, n, need, radius), all_from(s0, need, n, radius)
{
    reveal(looked_to);
    reveal(all_from);
    s.to_multiset_ensures();
    s0.to_multiset_ensures();
    assert forall|f: Fragment| #[trigger] s0.contains(f) <==> s.contains(f) by {
        assert(s.to_multiset().count(f) > 0 <==> s.contains(f));
        assert(s0.to_multiset().count(f) > 0 <==> s0.contains(f));
    }
    assert forall|f: Fragment, g: Fragment| #[trigger] s0.contains(f) && #[trigger] s0.contains(g) && seg_lt(f.x_segment, g.x_segment) && boxes_meet(f.rect, g.rect) implies looked(n, need, f, g, radius) by {
        assert(s.contains(f) && s.contains(g));
        let x = choose|x: int| 0 <= x < s.len() && s[x] == f;
        let y = choose|y: int| 0 <= y < s.len() && s[y] == g;
        assert(x != y);
        assert(boxes_meet(s[y].rect, s[x].rect));
        if x < y { assert(looked(n, need, s[x], s[y], radius)); } else { assert(looked(n, need, s[x], s[y], radius)); }
    }
    assert forall|m: LineMark| #[trigger] n.contains(m) implies comes_from(s0, need, m, radius) by {
        let (f1, g1, n1, r1) = choose|f: Fragment, g: Fragment, n: Seq<LineMark>, round: bool| #[trigger] from_pair(s, need, m, f, g, n, round, radius);
        assert(from_pair(s0, need, m, f1, g1, n1, r1, radius));
    }
}
// std: an unstable sort by the given comparison
#[verifier::external_body]
pub fn sort_frags<F: Fn(&Fragment, &Fragment) -> Ordering>(v: &mut [Fragment], compare: F)
    requires
        forall|a: &Fragment, b: &Fragment| #[trigger] compare.requires((a, b)),
        forall|a: &Fragment, b: &Fragment, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> o == int_ord(a.rect.min_y as int, b.rect.min_y as int)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), by_min_y(final(v)@)
{ unimplemented!() }

impl IntRect {
//@ fn i_float:int/rect.rs IntRect is_intersect_border_include
//@ spec
        ensures r == boxes_meet(*self, *other)
//@ endfn
}
impl SplitSolver {
//@ fn split/solver_fragment.rs SplitSolver bin_split
//@ index_loops
//@ attr #[verifier::loop_isolation(false)]
//@ sub <<<fragments.sort_unstable_by(|$A, $B| $C);>>> <<<sort_frags(fragments, |$A: &Fragment, $B: &Fragment| -> (o: Ordering) ensures o == int_ord($A.rect.min_y as int, $B.rect.min_y as int) { $C }); proof { lemma_perm_ok(o0, fragments@); lemma_looked_start(fragments@, b0, radius as int); }>>>
//@ spec
        requires frags_ok(old(fragments)@), radius >= 0
        ensures
            extends(final(marks)@, old(marks)@), final(fragments)@.to_multiset() == old(fragments)@.to_multiset(),
            all_looked(old(fragments)@, tail(final(marks)@, old(marks)@), r, radius as int),
            all_from(old(fragments)@, r, tail(final(marks)@, old(marks)@), radius as int)
//@ entry
        let ghost (o0, b0) = (fragments@, marks@);
        proof { lemma_looked_start(o0, b0, radius as int); if o0.len() < 2 { lemma_looked_end(o0, o0, tail(b0, b0), false, radius as int); } }
//@ loop 0
            invariant
                extends(marks@, b0), all_from(fragments@, any_round, tail(marks@, b0), radius as int), looked_to(fragments@, tail(marks@, b0), any_round, radius as int, it0 as int, it0 as int)
//@ loopbody 0
            proof { lemma_looked_row(fragments@, tail(marks@, b0), any_round, radius as int, it0 as int); }
//@ loop 1
                invariant_except_break
                    looked_to(fragments@, tail(marks@, b0), any_round, radius as int, i as int, it1 as int)
                invariant
                    extends(marks@, b0), it1 > i, all_from(fragments@, any_round, tail(marks@, b0), radius as int)
                ensures
                    looked_to(fragments@, tail(marks@, b0), any_round, radius as int, i as int, fragments@.len() as int)
//@ loopbody 1
                let ghost m0 = marks@;
                proof {
                    let (x, y) = (fragments@[i as int], fragments@[it1 as int]);
                    if x.rect.max_y < y.rect.min_y { lemma_looked_beyond(fragments@, tail(marks@, b0), any_round, radius as int, i as int, it1 as int); }
                    if !boxes_meet(x.rect, y.rect) { lemma_looked_apart(fragments@, tail(marks@, b0), any_round, radius as int, i as int, it1 as int); }
                }
//@ after is_round
                    proof { lemma_pair_step(fragments@, b0, m0, marks@, any_round, is_round, i as int, it1 as int, radius as int); }
//@ after_loop 1
            proof { lemma_looked_row(fragments@, tail(marks@, b0), any_round, radius as int, i as int); }
//@ exit
        proof { lemma_looked_end(o0, fragments@, tail(marks@, b0), any_round, radius as int); }
//@ endfn
}
pub proof fn lemma_perm_ok(a: Seq<Fragment>, b: Seq<Fragment>)
    requires a.to_multiset() == b.to_multiset(), frags_ok(a)
    ensures frags_ok(b)
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < b.len() implies frag_ok(#[trigger] b[i]) by {
        assert(b.contains(b[i]));
        assert(b.to_multiset().count(b[i]) > 0);
        assert(a.contains(b[i]));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
        assert(frag_ok(a[j]));
    }
}

// ---- all the columns ----
pub open spec fn lists_ok(g: Seq<Vec<Fragment>>) -> bool { forall|c: int| 0 <= c < g.len() ==> frags_ok(#[trigger] g[c]@) }
pub open spec fn same_lists(a: Seq<Vec<Fragment>>, b: Seq<Vec<Fragment>>) -> bool {
    a.len() == b.len() && forall|c: int| 0 <= c < a.len() ==> (#[trigger] b[c])@.to_multiset() == a[c]@.to_multiset()
}
pub open spec fn lists_looked(g: Seq<Vec<Fragment>>, marks: Seq<LineMark>, need: bool, radius: int, n: int) -> bool {
    forall|c: int| 0 <= c < n ==> all_looked(#[trigger] g[c]@, marks, need, radius)
}
pub open spec fn from_some(g: Seq<Vec<Fragment>>, need: bool, m: LineMark, radius: int) -> bool { exists|c: int| 0 <= c < g.len() && #[trigger] comes_from(g[c]@, need, m, radius) }
pub open spec fn lists_from(g: Seq<Vec<Fragment>>, need: bool, n: Seq<LineMark>, radius: int) -> bool {
    &&& forall|m: LineMark| #[trigger] n.contains(m) ==> from_some(g, need, m, radius)
    &&& need ==> n.len() > 0
}
// one column more
pub proof fn lemma_lists_step(g: Seq<Vec<Fragment>>, n0: Seq<LineMark>, n: Seq<LineMark>, n1: Seq<LineMark>, need: bool, any: bool, k: int, radius: int)
    requires
        0 <= k < g.len(), lists_looked(g, n0, need, radius, k), lists_from(g, need, n0, radius), all_looked(g[k]@, n, any, radius), all_from(g[k]@, any, n, radius),
        forall|m: LineMark| #[trigger] n1.contains(m) <==> n0.contains(m) || n.contains(m), n1.len() == n0.len() + n.len()
    ensures lists_looked(g, n1, need || any, radius, k + 1), lists_from(g, need || any, n1, radius)
{
    reveal(all_from);
    assert forall|c: int| 0 <= c < k + 1 implies all_looked(#[trigger] g[c]@, n1, need || any, radius) by {
        assert forall|f: Fragment, h: Fragment| #[trigger] g[c]@.contains(f) && #[trigger] g[c]@.contains(h) && seg_lt(f.x_segment, h.x_segment) && boxes_meet(f.rect, h.rect) implies looked(n1, need || any, f, h, radius) by {
            if c == k { lemma_looked_more(n, n1, any, need || any, f, h, radius); } else { lemma_looked_more(n0, n1, need, need || any, f, h, radius); }
        }
    }
    assert forall|m: LineMark| #[trigger] n1.contains(m) implies from_some(g, need || any, m, radius) by {
        if n0.contains(m) {
            let c = choose|c: int| 0 <= c < g.len() && #[trigger] comes_from(g[c]@, need, m, radius);
            lemma_from_more(g[c]@, need, need || any, m, radius);
        } else {
            lemma_from_more(g[k]@, any, need || any, m, radius);
            assert(comes_from(g[k]@, need || any, m, radius));
        }
    }
}
pub proof fn lemma_from_more(s: Seq<Fragment>, need: bool, more: bool, m: LineMark, radius: int)
    requires comes_from(s, need, m, radius), need ==> more
    ensures comes_from(s, more, m, radius)
{
    let (f1, g1, n1, r1) = choose|f: Fragment, g: Fragment, n: Seq<LineMark>, round: bool| #[trigger] from_pair(s, need, m, f, g, n, round, radius);
    assert(from_pair(s, more, m, f1, g1, n1, r1, radius));
}
// a list without pieces has nothing to look at
pub proof fn lemma_lists_empty(g: Seq<Vec<Fragment>>, n: Seq<LineMark>, need: bool, k: int, radius: int)
    requires 0 <= k < g.len(), lists_looked(g, n, need, radius, k), g[k]@.len() == 0
    ensures lists_looked(g, n, need, radius, k + 1)
{
    assert(all_looked(g[k]@, n, need, radius));
}
pub proof fn lemma_tail_step(b0: Seq<LineMark>, m0: Seq<LineMark>, m1: Seq<LineMark>)
    requires extends(m0, b0), extends(m1, m0)
    ensures extends(m1, b0), tail(m1, b0) == tail(m0, b0) + tail(m1, m0),
        forall|m: LineMark| #[trigger] tail(m1, b0).contains(m) <==> tail(m0, b0).contains(m) || tail(m1, m0).contains(m)
{
    let (n0, n, n1) = (tail(m0, b0), tail(m1, m0), tail(m1, b0));
    assert(m1.take(b0.len() as int) =~= m1.take(m0.len() as int).take(b0.len() as int));
    assert(n1 =~= n0 + n);
    lemma_sum_contains(n0, n);
}
pub proof fn lemma_sum_contains(a: Seq<LineMark>, b: Seq<LineMark>)
    ensures forall|m: LineMark| #[trigger] (a + b).contains(m) <==> a.contains(m) || b.contains(m)
{
    let s = a + b;
    assert forall|m: LineMark| #[trigger] s.contains(m) <==> a.contains(m) || b.contains(m) by {
        if s.contains(m) { let q = choose|q: int| 0 <= q < s.len() && s[q] == m; if q < a.len() { assert(a[q] == m); } else { assert(b[q - a.len()] == m); } }
        if a.contains(m) { let q = choose|q: int| 0 <= q < a.len() && a[q] == m; assert(s[q] == m); }
        if b.contains(m) { let q = choose|q: int| 0 <= q < b.len() && b[q] == m; assert(s[q + a.len()] == m); }
    }
}
#[verifier::external_body]
pub fn as_mut_frags(v: &mut Vec<Fragment>) -> (r: &mut [Fragment])
    ensures r@ == old(v)@, final(r)@ == final(v)@
{ v.as_mut_slice() }
impl SplitSolver {
//@ fn split/solver_fragment.rs SplitSolver serial_split
//@ index_loops
//@ sub <<<for group in buffer.groups.iter_mut() {>>> <<<let ghost (g0, b0) = (buffer.groups@, marks@); proof { lemma_looked_start(Seq::empty(), b0, radius as int); reveal(all_from); } for k in 0..buffer.groups.len() { let ghost m0 = marks@; let ghost g1 = buffer.groups@; let group = &mut buffer.groups[k];>>>
//@ sub <<<SplitSolver::bin_split(radius, group, marks);>>> <<<SplitSolver::bin_split(radius, as_mut_frags(group), marks); proof { lemma_tail_step(b0, m0, marks@); lemma_lists_step(g0, tail(m0, b0), tail(marks@, m0), tail(marks@, b0), is_any_round, any_round, k as int, radius as int); }>>>
//@ spec
        requires lists_ok(old(buffer).groups@), radius >= 0
        ensures
            final(buffer).layout == old(buffer).layout, final(buffer).on_border == old(buffer).on_border, same_lists(old(buffer).groups@, final(buffer).groups@),
            extends(final(marks)@, old(marks)@),
            lists_looked(old(buffer).groups@, tail(final(marks)@, old(marks)@), r, radius as int, old(buffer).groups@.len() as int),
            lists_from(old(buffer).groups@, r, tail(final(marks)@, old(marks)@), radius as int)
//@ loop 0
            invariant
                lists_ok(g0), radius >= 0, g0 == old(buffer).groups@, b0 == old(marks)@,
                buffer.layout == old(buffer).layout, buffer.on_border == old(buffer).on_border, same_lists(g0, buffer.groups@), forall|c: int| k <= c < g0.len() ==> #[trigger] buffer.groups@[c] == g0[c],
                extends(marks@, b0), lists_looked(g0, tail(marks@, b0), is_any_round, radius as int, k as int), lists_from(g0, is_any_round, tail(marks@, b0), radius as int)
//@ loopbody 0
            proof { if g0[k as int]@.len() == 0 { lemma_lists_empty(g0, tail(marks@, b0), is_any_round, k as int, radius as int); } }
//@ endfn
}

// ---- the columns in parallel: rayon's par_iter_mut().map().collect() gives the results in the order of the columns ----
pub struct TaskResult { pub any_round: bool, pub marks: Vec<LineMark> }
pub open spec fn task_done(g: Seq<Fragment>, t: TaskResult, radius: int) -> bool { all_looked(g, t.marks@, t.any_round, radius) && all_from(g, t.any_round, t.marks@, radius) }
pub open spec fn any_before(r: Seq<TaskResult>, n: int) -> bool decreases n { n > 0 && (any_before(r, n - 1) || r[n - 1].any_round) }
pub open spec fn tasks_done(g: Seq<Vec<Fragment>>, r: Seq<TaskResult>, n: int, radius: int) -> bool { forall|c: int| 0 <= c < n ==> task_done(#[trigger] g[c]@, r[c], radius) }
pub uninterp spec fn capacity_of(v: Vec<LineMark>) -> usize;
#[verifier::external_body]
pub fn vec_capacity(v: &Vec<LineMark>) -> (r: usize) ensures r == capacity_of(*v) { v.capacity() }
pub proof fn lemma_tail_start(b0: Seq<LineMark>, g: Seq<Vec<Fragment>>, radius: int)
    ensures extends(b0, b0), tail(b0, b0) == Seq::<LineMark>::empty(), lists_looked(g, tail(b0, b0), false, radius, 0), lists_from(g, false, tail(b0, b0), radius)
{
    assert(b0.take(b0.len() as int) =~= b0);
    assert(tail(b0, b0) =~= Seq::empty());
}
pub proof fn lemma_tail_all(m: Seq<LineMark>)
    ensures tail(m, Seq::empty()) == m
{
    assert(tail(m, Seq::empty()) =~= m);
}
pub proof fn lemma_no_tasks(g: Seq<Vec<Fragment>>, r: Seq<TaskResult>, n: int, radius: int)
    requires 0 <= n <= g.len(), n <= r.len(), tasks_done(g, r, n, radius), forall|c: int| 0 <= c < n ==> (#[trigger] r[c]).marks@.len() == 0
    ensures lists_looked(g, Seq::empty(), false, radius, n), !any_before(r, n)
    decreases n
{
    reveal(all_from);
    if n > 0 { lemma_no_tasks(g, r, n - 1, radius); assert(task_done(g[n - 1]@, r[n - 1], radius)); assert(!r[n - 1].any_round); }
    assert forall|c: int| 0 <= c < n implies all_looked(#[trigger] g[c]@, Seq::empty(), false, radius) by {
        assert(task_done(g[c]@, r[c], radius));
        assert(r[c].marks@ =~= Seq::empty());
    }
}
impl SplitSolver {
//@ fn split/solver_fragment.rs SplitSolver parallel_split
//@ index_loops
//@ attr #[verifier::loop_isolation(false)]
//@ sub <<<use rayon::iter::IntoParallelRefMutIterator; use rayon::iter::ParallelIterator; struct TaskResult { $A }>>> <<< >>>
//@ sub <<<let results: Vec<TaskResult> = buffer.groups.par_iter_mut().map(|$G| { $B; $C; $D }).collect();>>> <<<let ghost (g0, b0) = (buffer.groups@, marks@); let mut results: Vec<TaskResult> = Vec::new(); for k in 0..buffer.groups.len() { let ghost r9 = results@; let $G = as_mut_frags(&mut buffer.groups[k]); $B; $C; let task = $D; proof { lemma_tail_all(task.marks@); } results.push(task); proof { assert forall|c: int| 0 <= c < k + 1 implies task_done(#[trigger] g0[c]@, results@[c], radius as int) by { if c < k { assert(results@[c] == r9[c]); } } } }>>>
//@ sub <<<let mut size = 0;>>> <<<let mut size: usize = 0;>>>
//@ sub <<<size += $A;>>> <<<let more = $A; proof { /* room: the marks of one pass fit in memory */ assume(size + more <= usize::MAX); } size += more;>>>
//@ sub <<<if size == 0 {>>> <<<proof { lemma_tail_start(b0, g0, radius as int); if size == 0 { lemma_no_tasks(g0, results@, g0.len() as int, radius as int); } } if size == 0 {>>>
//@ sub <<<marks.capacity()>>> <<<vec_capacity(marks)>>>
//@ sub <<<for mut result in results.into_iter() {>>> <<<let ghost r0 = results@; let ghost mut any = false; for q in 0..results.len() { let ghost m0 = marks@; let result = &mut results[q];>>>
//@ sub <<<marks.append(&mut result.marks);>>> <<<marks.append(&mut result.marks); proof { let n = r0[q as int].marks@; assert(marks@ =~= m0 + n); assert(marks@.take(m0.len() as int) =~= m0); assert(tail(marks@, m0) =~= n); assert(task_done(g0[q as int]@, r0[q as int], radius as int)); lemma_tail_step(b0, m0, marks@); lemma_lists_step(g0, tail(m0, b0), n, tail(marks@, b0), any, r0[q as int].any_round, q as int, radius as int); any = any || r0[q as int].any_round; }>>>
//@ spec
        requires lists_ok(old(buffer).groups@), radius >= 0, old(buffer).groups@.len() > 0
        ensures
            final(buffer).layout == old(buffer).layout, final(buffer).on_border == old(buffer).on_border, same_lists(old(buffer).groups@, final(buffer).groups@),
            extends(final(marks)@, old(marks)@),
            lists_looked(old(buffer).groups@, tail(final(marks)@, old(marks)@), r, radius as int, old(buffer).groups@.len() as int),
            lists_from(old(buffer).groups@, r, tail(final(marks)@, old(marks)@), radius as int)
//@ loop 0
            invariant
                g0 == old(buffer).groups@, b0 == old(marks)@, marks@ == b0, lists_ok(g0),
                buffer.layout == old(buffer).layout, buffer.on_border == old(buffer).on_border, same_lists(g0, buffer.groups@), forall|c: int| k <= c < g0.len() ==> #[trigger] buffer.groups@[c] == g0[c],
                results@.len() == k, tasks_done(g0, results@, k as int, radius as int)
//@ loop 1
            invariant
                is_any_round == any_before(results@, it1 as int), marks@ == b0,
                size == 0 ==> forall|c: int| 0 <= c < it1 ==> (#[trigger] results@[c]).marks@.len() == 0
//@ loop 2
            invariant
                g0 == old(buffer).groups@, b0 == old(marks)@, any == any_before(r0, q as int), r0.len() == g0.len(), tasks_done(g0, r0, g0.len() as int, radius as int),
                results@.len() == r0.len(), forall|c: int| q <= c < r0.len() ==> #[trigger] results@[c] == r0[c],
                extends(marks@, b0), lists_looked(g0, tail(marks@, b0), any, radius as int, q as int), lists_from(g0, any, tail(marks@, b0), radius as int)
//@ endfn
//@ fn split/solver_fragment.rs SplitSolver process
//@ sub <<<#[cfg(feature = "allow_multithreading")]>>> <<< >>>
//@ spec
        requires lists_ok(old(buffer).groups@), radius >= 0, old(buffer).groups@.len() > 0
        ensures
            final(buffer).layout == old(buffer).layout, final(buffer).on_border == old(buffer).on_border, same_lists(old(buffer).groups@, final(buffer).groups@),
            extends(final(marks)@, old(marks)@),
            lists_looked(old(buffer).groups@, tail(final(marks)@, old(marks)@), r, radius as int, old(buffer).groups@.len() as int),
            lists_from(old(buffer).groups@, r, tail(final(marks)@, old(marks)@), radius as int)
//@ endfn
}
}
fn main() {}
