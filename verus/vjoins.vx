// ---- vector/: holes into vector shapes ----
#![feature(allocator_api)]
//@ import joins.vx
verus! {
//@ item vector/edge.rs type SideFill
//@ item vector/edge.rs struct VectorEdge
//@ item vector/edge.rs type VectorPath
//@ item vector/edge.rs type VectorShape
pub open spec fn starts(path: Seq<VectorEdge>) -> Seq<IntPoint> { Seq::new(path.len(), |i: int| path[i].a) }
// every edge ends where the next one starts
pub open spec fn chain(path: Seq<VectorEdge>) -> bool { forall|i: int| 0 <= i < path.len() ==> #[trigger] meets(path, i) }
pub open spec fn meets(path: Seq<VectorEdge>, i: int) -> bool { path[i].b == path[next_of(path.len() as int, i)].a }
impl IdSegments for VectorPath {
    open spec fn line(&self) -> Seq<IntPoint> { starts(self@) }
    open spec fn chained(&self) -> bool { chain(self@) }
//@ fn bind/segment.rs IdSegments for VectorPath append_id_segments
//@ index_loops
//@ nopub
//@ entry
        hide(some_vectors);
        hide(added);
        hide(of_contour);
        let ghost b0 = buffer@;
        proof { lemma_no_vectors(b0, self@, clockwise, id_data, x_min, x_max); }
//@ loop 0
            invariant chain(self@), self@.len() > 0, some_vectors(b0, buffer@, self@, it0 as int, clockwise, id_data, x_min, x_max),
//@ loopbody 0
            let ghost c = buffer@;
//@ loopend 0
            proof { lemma_vector(b0, c, buffer@, self@, it0 as int, clockwise, id_data, x_min, x_max); }
//@ after_loop 0
        proof { lemma_vectors(b0, buffer@, self@, clockwise, id_data, x_min, x_max); }
//@ endfn
}
pub open spec fn vector_seg(path: Seq<VectorEdge>, i: int, cw: bool, id: ContourIndex) -> IdSegment {
    IdSegment { contour_index: id, v_segment: if cw { VSegment { a: path[i].b, b: path[i].a } } else { VSegment { a: path[i].a, b: path[i].b } } }
}
pub open spec fn some_vectors(b0: Seq<IdSegment>, b1: Seq<IdSegment>, path: Seq<VectorEdge>, n: int, cw: bool, id: ContourIndex, x0: i32, x1: i32) -> bool {
    forall|g: IdSegment| #[trigger] b1.contains(g) <==> b0.contains(g) || (level_off(g) && within(g, x0, x1) && exists|i: int| 0 <= i < n && g == #[trigger] vector_seg(path, i, cw, id))
}
pub proof fn lemma_no_vectors(b0: Seq<IdSegment>, path: Seq<VectorEdge>, cw: bool, id: ContourIndex, x0: i32, x1: i32)
    ensures some_vectors(b0, b0, path, 0, cw, id, x0, x1)
{}
pub proof fn lemma_vector(b0: Seq<IdSegment>, c: Seq<IdSegment>, b1: Seq<IdSegment>, path: Seq<VectorEdge>, n: int, cw: bool, id: ContourIndex, x0: i32, x1: i32)
    requires some_vectors(b0, c, path, n, cw, id, x0, x1), 0 <= n < path.len(), ({ let g = vector_seg(path, n, cw, id); b1 == if level_off(g) && within(g, x0, x1) { c.push(g) } else { c } })
    ensures some_vectors(b0, b1, path, n + 1, cw, id, x0, x1)
{
    let t = vector_seg(path, n, cw, id);
    lemma_push_has(c, t);
    assert forall|g: IdSegment| #[trigger] b1.contains(g) <==> b0.contains(g) || (level_off(g) && within(g, x0, x1) && exists|i: int| 0 <= i < n + 1 && g == #[trigger] vector_seg(path, i, cw, id)) by {
        if level_off(g) && within(g, x0, x1) && exists|i: int| 0 <= i < n + 1 && g == #[trigger] vector_seg(path, i, cw, id) {
            let i = choose|i: int| 0 <= i < n + 1 && g == #[trigger] vector_seg(path, i, cw, id);
            if i == n { assert(g == t); }
        }
        assert(c.contains(g) ==> b1.contains(g));
    }
}
pub proof fn lemma_vectors(b0: Seq<IdSegment>, b1: Seq<IdSegment>, path: Seq<VectorEdge>, cw: bool, id: ContourIndex, x0: i32, x1: i32)
    requires some_vectors(b0, b1, path, path.len() as int, cw, id, x0, x1), chain(path), path.len() > 0
    ensures added(b0, b1, of_contour(starts(path), cw, id), x0, x1)
{
    let s = starts(path);
    let n = path.len() as int;
    assert forall|g: IdSegment| #[trigger] b1.contains(g) <==> b0.contains(g) || (of_contour(s, cw, id)(g) && within(g, x0, x1)) by {
        if edge_in(s, cw, id, g) && within(g, x0, x1) {
            let i = choose|i: int| 0 <= i < n && g == #[trigger] seg_at(s, i, cw, id);
            let j = if cw { prev_of(n, i) } else { i };
            assert(meets(path, j));
            assert(g == vector_seg(path, j, cw, id));
        }
        if b1.contains(g) && !b0.contains(g) {
            let j = choose|j: int| 0 <= j < n && g == #[trigger] vector_seg(path, j, cw, id);
            let i = if cw { next_of(n, j) } else { j };
            assert(meets(path, j));
            assert(g == seg_at(s, i, cw, id));
        }
    }
}
// ---- the lowest edge at the most left point ----
pub open spec fn lower(s: VSegment, o: VSegment) -> bool { pt_lt(s.a, o.a) || (s.a == o.a && under(s, o)) }
pub open spec fn out_edge(s: Seq<IntPoint>, i: int) -> VSegment { VSegment { a: s[i], b: s[next_of(s.len() as int, i)] } }
pub open spec fn in_edge(s: Seq<IntPoint>, i: int) -> VSegment { VSegment { a: s[next_of(s.len() as int, i)], b: s[i] } }
pub open spec fn none_lower(s: Seq<IntPoint>, o: VSegment, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] not_below(s, o, i)
}
pub open spec fn not_below(s: Seq<IntPoint>, o: VSegment, i: int) -> bool { !lower(out_edge(s, i), o) && !lower(in_edge(s, i), o) }
// none of the first n edges starts further left, and if nothing does, none of them is lower
pub open spec fn so_far(s: Seq<IntPoint>, o: VSegment, n: int) -> bool {
    is_edge(s, o) && (forall|i: int| 0 <= i < n ==> !pt_lt((#[trigger] out_edge(s, i)).a, o.a) && !pt_lt(out_edge(s, i).b, o.a)) && (most_left(s, o.a) ==> none_lower(s, o, n))
}
pub proof fn lemma_take(s: Seq<IntPoint>, o: VSegment, m: VSegment, g: VSegment, i: int)
    requires contour_ok(s), 0 <= i < s.len(), so_far(s, o, i), m == (if lower(out_edge(s, i), o) { out_edge(s, i) } else { o }), g == (if lower(in_edge(s, i), m) { in_edge(s, i) } else { m })
    ensures so_far(s, g, i + 1)
{
    let n = s.len() as int;
    let (e0, e1) = (out_edge(s, i), in_edge(s, i));
    let j = next_of(n, i);
    assert(prev_of(n, j) == i && corner(s, i) == s[i] && corner(s, j) == s[j]);
    assert(is_edge(s, e0) && is_edge(s, e1));
    assert(is_edge(s, g));
    assert(!pt_lt(o.a, g.a) && !pt_lt(e0.a, g.a) && !pt_lt(e0.b, g.a));
    assert forall|k: int| 0 <= k < i + 1 implies !pt_lt((#[trigger] out_edge(s, k)).a, g.a) && !pt_lt(out_edge(s, k).b, g.a) by { if k < i { assert(!pt_lt(out_edge(s, k).a, o.a) && !pt_lt(out_edge(s, k).b, o.a)); } }
    if most_left(s, g.a) {
        lemma_edge_right(s, o);
        lemma_edge_right(s, e0);
        lemma_edge_right(s, e1);
        assert(!pt_lt(s[i], g.a) && !pt_lt(s[j], g.a));
        let z = choose|z: int| 0 <= z < s.len() && #[trigger] corner(s, z) == o.a;
        assert(!pt_lt(s[z], g.a));
        if o.a == g.a { assert(most_left(s, o.a)); assert(m.a == g.a); }
        if m.a == g.a { assert(most_left(s, m.a)); }
        assert(is_edge(s, g));
        assert forall|k: int| 0 <= k < i + 1 implies #[trigger] not_below(s, g, k) by {
            let (c0, c1) = (out_edge(s, k), in_edge(s, k));
            let l = next_of(n, k);
            assert(prev_of(n, l) == k && corner(s, k) == s[k] && corner(s, l) == s[l]);
            assert(is_edge(s, c0) && is_edge(s, c1));
            lemma_edge_right(s, c0);
            lemma_edge_right(s, c1);
            assert(!pt_lt(s[k], g.a) && !pt_lt(s[l], g.a));
            if k < i { assert(!pt_lt(out_edge(s, k).a, o.a) && !pt_lt(out_edge(s, k).b, o.a)); if o.a == g.a { assert(not_below(s, o, k)); } }
            if c0.a == g.a {
                assert(most_left(s, c0.a));
                lemma_down(c0, o, m, g);
            }
            if c1.a == g.a {
                assert(most_left(s, c1.a));
                lemma_down(c1, o, m, g);
            }
        }
        assert(none_lower(s, g, i + 1));
    }
}
pub proof fn lemma_down(c: VSegment, o: VSegment, m: VSegment, g: VSegment)
    requires c.a == g.a, in_range(c.a), in_range(c.b), in_range(g.b), pt_lt(c.a, c.b), pt_lt(g.a, g.b),
        m.a == g.a ==> in_range(m.b) && pt_lt(m.a, m.b), o.a == g.a ==> in_range(o.b) && pt_lt(o.a, o.b),
    ensures
        !under(c, c),
        m.a == g.a && under(g, m) && !under(c, m) ==> !under(c, g),
        m.a == g.a && o.a == g.a && under(m, o) && !under(c, o) ==> !under(c, m),
        under(g, c) ==> !under(c, g),
{
    lemma_under_trans(g.a, c.b, c.b, c.b);
    lemma_under_trans(g.a, g.b, c.b, c.b);
    lemma_under_trans(g.a, c.b, g.b, c.b);
    if m.a == g.a {
        lemma_under_trans(g.a, c.b, g.b, m.b);
        if o.a == g.a { lemma_under_trans(g.a, c.b, m.b, o.b); }
    }
}
pub proof fn lemma_taken(s: Seq<IntPoint>, g: VSegment)
    requires contour_ok(s), so_far(s, g, s.len() as int)
    ensures lowest(s, g)
{
    let n = s.len() as int;
    assert(most_left(s, g.a)) by {
        assert forall|i: int| 0 <= i < n implies !pt_lt(#[trigger] s[i], g.a) by { assert(out_edge(s, i).a == s[i]); }
    }
    assert forall|i: int| #![trigger corner(s, i)] 0 <= i < n && corner(s, i) == g.a implies not_lower(s[i], s[next_of(n, i)], g) && not_lower(s[i], s[prev_of(n, i)], g) by {
        assert(not_below(s, g, i));
        let j = prev_of(n, i);
        assert(next_of(n, j) == i);
        assert(not_below(s, g, j));
    }
}
//@ fn vector/extract_vectors.rs - most_left_bottom
//@ index_loops
//@ sub <<<for s in [$X, $Y] { if $C { best = s; } }>>> <<<{ let s = $X; if $C { best = s; } } let ghost m = best; { let s = $Y; if $C { best = s; } } proof { lemma_take(starts(path@), o, m, best, it0 as int); }>>>
//@ spec
        requires contour_ok(starts(path@)), chain(path@)
        ensures lowest(starts(path@), r)
//@ after best
        proof {
            let s = starts(path@);
            assert(corner(s, 0) == s[0] && meets(path@, 0));
            assert(is_edge(s, best));
        }
//@ loop 0
            invariant contour_ok(starts(path@)), chain(path@), so_far(starts(path@), best, it0 as int)
//@ loopbody 0
            let ghost o = best;
            proof {
                let s = starts(path@);
                let n = s.len() as int;
                let i = it0 as int;
                assert(meets(path@, i));
                assert(path@[i].a == s[i] && path@[i].b == s[next_of(n, i)]);
                assert(in_range(s[i]) && in_range(s[next_of(n, i)]));
                lemma_edge_right(s, best);
            }
//@ loopend 0
//@ exit
        proof { lemma_taken(starts(path@), best); }
//@ endfn
// ---- holes into vector shapes ----
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::reserve_exact] (v: &mut Vec<T, A>, additional: usize)
    ensures final(v)@ == old(v)@;
pub open spec fn lines(c: Seq<Seq<VectorEdge>>) -> Seq<Seq<IntPoint>> { Seq::new(c.len(), |i: int| starts(c[i])) }
pub open spec fn chains(c: Seq<Seq<VectorEdge>>) -> bool { forall|i: int| 0 <= i < c.len() ==> chain(#[trigger] c[i]) }
pub open spec fn fit(s: Seq<VectorShape>, h: Seq<VectorPath>, cw: bool) -> bool {
    flat(s) && chains(outers(s)) && chains(points(h)) && contours_ok(lines(outers(s))) && contours_ok(lines(points(h))) && well_nested(lines(outers(s)), lines(points(h)), cw)
}
// every hole in one shape, and with several shapes in that of the edge below its anchor
pub open spec fn settled_in(shapes: Seq<Seq<VectorEdge>>, holes: Seq<Seq<VectorEdge>>, cw: bool, out: Seq<VectorShape>) -> bool {
    joined(shapes, holes, out) && (shapes.len() > 1 && holes.len() > 0 ==> homes(shapes, holes, cw, out))
}
pub open spec fn homes(shapes: Seq<Seq<VectorEdge>>, holes: Seq<Seq<VectorEdge>>, cw: bool, out: Seq<VectorShape>) -> bool {
    exists|hs: Seq<IdSegment>| #[trigger] anchors_of(hs, lines(holes)) && homed(edges(lines(shapes), lines(holes), cw), hs, shapes, holes, out)
}
pub open spec fn alike_to(s0: Seq<VectorShape>, s1: Seq<VectorShape>) -> bool { s1.len() == s0.len() && forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s1[i])@ == s0[i]@ }
pub trait JoinVectors {
    spec fn list(&self) -> Seq<VectorShape>;
    fn join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool)
        requires fit(old(self).list(), holes@, clockwise)
        ensures settled_in(outers(old(self).list()), points(holes@), clockwise, final(self).list());
    fn scan_join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool)
        requires fit(old(self).list(), holes@, clockwise), holes@.len() > 0
        ensures homes(outers(old(self).list()), points(holes@), clockwise, final(self).list());
}
impl JoinVectors for Vec<VectorShape> {
    open spec fn list(&self) -> Seq<VectorShape> { self@ }
//@ fn vector/extract_vectors.rs JoinHoles for Vec<VectorShape> join
//@ nopub
//@ entry
        let ghost (s0, h0) = (self@, holes@);
        proof {
            if h0.len() == 0 { lemma_no_holes(s0); assert(points(h0) =~= Seq::<Seq<VectorEdge>>::empty()); }
            if s0.len() == 1 {
                assert forall|out: Seq<VectorShape>| out.len() == 1 && out[0]@ == s0[0]@ + h0 implies #[trigger] joined(outers(s0), points(h0), out) by { lemma_single(s0, out, h0); }
            }
        }
//@ endfn
//@ fn vector/extract_vectors.rs JoinHoles for Vec<VectorShape> scan_join
//@ index_loops
//@ sub <<<let mut hole_segments: Vec<_> = holes.iter().enumerate().map(|($I, $P)| $B).collect();>>> <<<let mut hole_segments: Vec<IdSegment> = Vec::new(); for it0 in 0..holes.len() { let $I = it0; let $P = &holes[it0]; hole_segments.push($B); }>>>
//@ sub <<<let mut segments = Vec::new();>>> <<<let mut segments: Vec<IdSegment> = Vec::new();>>>
//@ sub <<<for ($I, $H) in holes.into_iter().enumerate() $B>>> <<<let mut $I: usize = 0; for $H in it4: holes { $B $I = $I + 1; }>>>
//@ nopub
//@ entry
        let ghost (s0, h0) = (self@, holes@);
        let ghost (oc, od) = (outers(s0), points(h0));
        let ghost (c, d, cw) = (lines(oc), lines(od), clockwise);
        let ghost n = s0.len() as int;
//@ loop 0
            invariant
                h0 == holes@, od == points(h0), d == lines(od), contours_ok(d), chains(od), hole_segments@.len() == it0,
                forall|k: int| 0 <= k < it0 ==> anchor_ok(#[trigger] hole_segments@[k], d) && hole_segments@[k].contour_index.id() == k,
//@ loopbody 0
            proof { assert(contour_ok(d[it0 as int]) && chain(od[it0 as int])); }
//@ after_loop 0
        let ghost a0 = hole_segments@;
        proof {
            assert(anchors_of(a0, d));
            lemma_anchors_ok(a0, d);
            assert forall|n: Seq<IdSegment>| #[trigger] same_items(a0, n) implies anchors_of(n, d) by { lemma_anchors(a0, n, d); }
        }
//@ before x_min
        let ghost hs = hole_segments@;
        proof { lemma_anchors_ok(hs, d); }
//@ before_loop 1
        proof { lemma_none(c, d, cw, x_min, x_max); assert(segments@ =~= seq![]); }
//@ loop 1
            invariant
                self@ == s0, oc == outers(s0), od == points(h0), c == lines(oc), d == lines(od), h0 == holes@, chains(oc), chains(od), contours_ok(c), contours_ok(d), flat(s0), cw == clockwise, n == s0.len(),
                has(segments@, upto(c, it1 as int, d, 0, cw), x_min, x_max),
//@ loopbody 1
            let ghost g0 = segments@;
            proof { assert(contour_ok(c[it1 as int]) && c[it1 as int] == starts(s0[it1 as int]@[0]@) && chain(oc[it1 as int])); assert(s0[it1 as int]@.len() == 1); }
//@ loopend 1
            proof {
                let id = choose|id: ContourIndex| !id.hole() && id.id() == it1 && #[trigger] added(g0, segments@, of_contour(c[it1 as int], cw, id), x_min, x_max);
                lemma_one(g0, segments@, c, it1 as int, d, 0, cw, x_min, x_max, id);
            }
//@ loop 2
            invariant
                self@ == s0, oc == outers(s0), od == points(h0), c == lines(oc), d == lines(od), h0 == holes@, chains(oc), chains(od), contours_ok(c), contours_ok(d), flat(s0), cw == clockwise, n == s0.len(),
                has(segments@, upto(c, n, d, it2 as int, cw), x_min, x_max),
//@ loopbody 2
            let ghost g0 = segments@;
            proof { assert(contour_ok(d[it2 as int]) && d[it2 as int] == starts(h0[it2 as int]@) && chain(od[it2 as int])); }
//@ loopend 2
            proof {
                let id = choose|id: ContourIndex| id.hole() && id.id() == it2 && #[trigger] added(g0, segments@, of_contour(d[it2 as int], cw, id), x_min, x_max);
                lemma_one(g0, segments@, c, n, d, it2 as int, cw, x_min, x_max, id);
            }
//@ after_loop 2
        let ghost g1 = segments@;
        let ghost e = edges(c, d, cw);
        proof {
            assert(has(g1, e, x_min, x_max));
            assert(nest(e, hs, n));
            assert forall|i: int| 0 <= i < g1.len() implies vs_ok((#[trigger] g1[i]).v_segment) by { assert(g1.contains(g1[i])); assert(e(g1[i])); }
        }
//@ before solution
        proof {
            lemma_reordered(g1, segments@, e, x_min, x_max);
            lemma_nested(segments@, e, x_min, x_max, hs, n);
        }
        let ghost gs = segments@;
//@ after solution
        let ghost own = Seq::new(d.len(), |i: int| solution.parent_for_child@[i] as int);
        proof {
            lemma_grounded(gs, e, hs, solution.parent_for_child@, own, n);
            assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] own[i] < n by {
                let m = lemma_every(hs, i);
                assert(bound(gs, hs[m], solution.parent_for_child@) && solution.parent_for_child@[hs[m].contour_index.id()] < n);
            }
        }
//@ loop 3
            invariant
                n == s0.len(), n == solution.children_count_for_parent@.len(), alike_to(s0, self@),
//@ before_loop 4
        let ghost mut place: Seq<int> = seq![];
        proof {
            assert(flat(self@));
            lemma_no_holes(self@);
            assert(od.take(0) =~= Seq::<Seq<VectorEdge>>::empty());
            assert(own.take(0) =~= Seq::<int>::empty());
            assert(outers(self@) =~= oc);
        }
//@ loop 4
            invariant
                it4.seq() == h0, hole_index == it4.index(), self@.len() == n, h0.len() == od.len(), od == points(h0), own.len() == d.len(), solution.parent_for_child@.len() == d.len(),
                outers(self@) =~= oc, d.len() == od.len(), forall|i: int| 0 <= i < n ==> (#[trigger] self@[i])@.len() > 0,
                forall|i: int| 0 <= i < d.len() ==> 0 <= #[trigger] own[i] < n && own[i] == solution.parent_for_child@[i],
                placed(od.take(hole_index as int), self@, own.take(hole_index as int), place),
                d.len() < 0x8000_0000_0000_0000,
//@ loopbody 4
            let ghost (p0, k) = (self@, it4.index());
            let ghost x = hole;
            proof { assert(own[k] == solution.parent_for_child@[k]); assert(x@ == od[k]); }
//@ loopend 4
            proof {
                lemma_place(od.take(k), p0, self@, own.take(k), place, own[k], x);
                place = place.push(p0[own[k]]@.len() as int);
                assert(od.take(k + 1) =~= od.take(k).push(od[k]));
                assert(own.take(k + 1) =~= own.take(k).push(own[k]));
            }
//@ exit
        proof {
            assert(od.take(d.len() as int) =~= od);
            assert(own.take(d.len() as int) =~= own);
        }
//@ endfn
}
}
fn main() {}
