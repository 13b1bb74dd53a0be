// ---- bind/: holes into shapes ----
//@ import bind.vx
//@ include nest.vx
verus! {
//@ item i_shape:int/path.rs type IntPath
// the edge at point i that has the inside above it, if it goes to the right
pub open spec fn seg_at(s: Seq<IntPoint>, i: int, cw: bool, id: ContourIndex) -> IdSegment {
    IdSegment { contour_index: id, v_segment: VSegment { a: s[i], b: if cw { s[prev_of(s.len() as int, i)] } else { s[next_of(s.len() as int, i)] } } }
}
pub open spec fn level_off(g: IdSegment) -> bool { g.v_segment.a.x < g.v_segment.b.x }
pub open spec fn edge_in(s: Seq<IntPoint>, cw: bool, id: ContourIndex, g: IdSegment) -> bool {
    level_off(g) && exists|i: int| 0 <= i < s.len() && g == #[trigger] seg_at(s, i, cw, id)
}
pub open spec fn of_contour(s: Seq<IntPoint>, cw: bool, id: ContourIndex) -> spec_fn(IdSegment) -> bool { |g: IdSegment| edge_in(s, cw, id, g) }
// the edges of the first n contours
pub open spec fn edges_in(c: Seq<Seq<IntPoint>>, n: int, hole: bool, cw: bool, g: IdSegment) -> bool {
    g.contour_index.hole() == hole && 0 <= g.contour_index.id() < n && edge_in(c[g.contour_index.id()], cw, g.contour_index, g)
}
pub open spec fn edges(shapes: Seq<Seq<IntPoint>>, holes: Seq<Seq<IntPoint>>, cw: bool) -> spec_fn(IdSegment) -> bool {
    |g: IdSegment| edges_in(shapes, shapes.len() as int, false, cw, g) || edges_in(holes, holes.len() as int, true, cw, g)
}
pub open spec fn added(b0: Seq<IdSegment>, b1: Seq<IdSegment>, e: spec_fn(IdSegment) -> bool, x0: i32, x1: i32) -> bool {
    forall|g: IdSegment| #[trigger] b1.contains(g) <==> b0.contains(g) || (e(g) && within(g, x0, x1))
}
// the points in the order they are gone through
pub open spec fn way_round(s: Seq<IntPoint>, cw: bool) -> Seq<IntPoint> { if cw { s } else { s.reverse() } }
#[verifier::external_body]
pub fn forwards(s: &IntPath) -> (r: Vec<IntPoint>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn backwards(s: &IntPath) -> (r: Vec<IntPoint>) ensures r@ == s@.reverse() { unimplemented!() }
pub trait IdSegments {
    spec fn line(&self) -> Seq<IntPoint>;
    spec fn chained(&self) -> bool;
    fn append_id_segments(&self, buffer: &mut Vec<IdSegment>, id_data: ContourIndex, x_min: i32, x_max: i32, clockwise: bool)
        requires self.line().len() > 0, self.chained()
        ensures added(old(buffer)@, final(buffer)@, of_contour(self.line(), clockwise, id_data), x_min, x_max);
}
impl IdSegments for IntPath {
    open spec fn line(&self) -> Seq<IntPoint> { self@ }
    open spec fn chained(&self) -> bool { true }
//@ fn bind/segment.rs IdSegments for IntPath append_id_segments
//@ sub <<<fn inner<I: Iterator<Item = IntPoint>>(mut iter: I, buffer: &mut Vec<IdSegment>, id_data: ContourIndex, x_min: i32, x_max: i32,) $B if clockwise { inner($F, buffer, id_data, x_min, x_max); } else { inner($R, buffer, id_data, x_min, x_max); }>>> <<<let iter: Vec<IntPoint> = if clockwise { $F } else { $R }; let ghost b0 = buffer@; let ghost w = iter@; let ghost mut c = buffer@; proof { assert(w == way_round(self@, clockwise)); } $B proof { lemma_all(b0, c, buffer@, w, self@, clockwise, id_data, x_min, x_max); }>>>
//@ sub <<<self.iter().copied()>>> <<<forwards(self)>>>
//@ sub <<<self.iter().rev().copied()>>> <<<backwards(self)>>>
//@ sub <<<let first = iter.next().unwrap();>>> <<<let first = iter[0];>>>
//@ sub <<<for a in iter {>>> <<<for at in 1..iter.len() { let a = iter[at];>>>
//@ nopub
//@ loop 0
            invariant
                w == iter@, w == way_round(self@, clockwise), w.len() == self@.len(), w.len() > 0, first == w[0], b == w[at - 1],
                some_added(b0, buffer@, w, at as int, id_data, x_min, x_max),
//@ loopbody 0
            let ghost c0 = buffer@;
//@ loopend 0
            proof { lemma_more(b0, c0, buffer@, w, at as int, id_data, x_min, x_max); }
//@ after_loop 0
        proof { c = buffer@; assert(w.len() - 1 == prev_of(w.len() as int, 0)); }
//@ endfn
}
pub open spec fn seg_to(w: Seq<IntPoint>, i: int, id: ContourIndex) -> IdSegment { IdSegment { contour_index: id, v_segment: VSegment { a: w[i], b: w[prev_of(w.len() as int, i)] } } }
// the edges to the points 1..n, and with `0` that to the first
pub open spec fn some_added(b0: Seq<IdSegment>, b1: Seq<IdSegment>, w: Seq<IntPoint>, n: int, id: ContourIndex, x0: i32, x1: i32) -> bool {
    forall|g: IdSegment| #[trigger] b1.contains(g) <==> b0.contains(g) || (level_off(g) && within(g, x0, x1) && exists|i: int| 1 <= i < n && g == #[trigger] seg_to(w, i, id))
}
pub proof fn lemma_more(b0: Seq<IdSegment>, c: Seq<IdSegment>, b1: Seq<IdSegment>, w: Seq<IntPoint>, n: int, id: ContourIndex, x0: i32, x1: i32)
    requires some_added(b0, c, w, n, id, x0, x1), 1 <= n < w.len(), ({ let g = seg_to(w, n, id); b1 == if level_off(g) && within(g, x0, x1) { c.push(g) } else { c } })
    ensures some_added(b0, b1, w, n + 1, id, x0, x1)
{
    let t = seg_to(w, n, id);
    lemma_push_has(c, t);
    assert forall|g: IdSegment| #[trigger] b1.contains(g) <==> b0.contains(g) || (level_off(g) && within(g, x0, x1) && exists|i: int| 1 <= i < n + 1 && g == #[trigger] seg_to(w, i, id)) by {
        if level_off(g) && within(g, x0, x1) && exists|i: int| 1 <= i < n + 1 && g == #[trigger] seg_to(w, i, id) {
            let i = choose|i: int| 1 <= i < n + 1 && g == #[trigger] seg_to(w, i, id);
            if i == n { assert(g == t); }
        }
        assert(c.contains(g) ==> b1.contains(g));
    }
}
pub proof fn lemma_all(b0: Seq<IdSegment>, c: Seq<IdSegment>, b1: Seq<IdSegment>, w: Seq<IntPoint>, s: Seq<IntPoint>, cw: bool, id: ContourIndex, x0: i32, x1: i32)
    requires w == way_round(s, cw), s.len() > 0, some_added(b0, c, w, w.len() as int, id, x0, x1), ({ let g = seg_to(w, 0, id); b1 == if level_off(g) && within(g, x0, x1) { c.push(g) } else { c } })
    ensures added(b0, b1, of_contour(s, cw, id), x0, x1)
{
    let t = seg_to(w, 0, id);
    let n = s.len() as int;
    lemma_push_has(c, t);
    assert forall|g: IdSegment| #[trigger] b1.contains(g) <==> b0.contains(g) || (edge_in(s, cw, id, g) && within(g, x0, x1)) by {
        if edge_in(s, cw, id, g) && within(g, x0, x1) {
            let i = choose|i: int| 0 <= i < s.len() && g == #[trigger] seg_at(s, i, cw, id);
            let j = if cw { i } else { n - 1 - i };
            assert(g == seg_to(w, j, id));
            if j == 0 { assert(g == t); }
            assert(c.contains(g) || g == t);
        }
        if c.contains(g) && !b0.contains(g) {
            let j = choose|i: int| 1 <= i < n && g == #[trigger] seg_to(w, i, id);
            let i = if cw { j } else { n - 1 - j };
            assert(g == seg_at(s, i, cw, id));
        }
        if g == t && level_off(t) {
            let i = if cw { 0 } else { n - 1 };
            assert(g == seg_at(s, i, cw, id));
        }
    }
}
// ---- the sweep and its result ----
pub struct KeyExpList { pub k: usize }
pub struct KeyExpTree { pub k: usize }
impl KeyExpCollection for KeyExpList {
    uninterp spec fn items(&self) -> Seq<IdSegment>;
    #[verifier::external_body] fn insert(&mut self, key: VSegment, val: ContourIndex, time: i32) { unimplemented!() }
    #[verifier::external_body] fn first_less(&mut self, time: i32, default: ContourIndex, key: VSegment) -> (r: ContourIndex) { unimplemented!() }
}
impl KeyExpCollection for KeyExpTree {
    uninterp spec fn items(&self) -> Seq<IdSegment>;
    #[verifier::external_body] fn insert(&mut self, key: VSegment, val: ContourIndex, time: i32) { unimplemented!() }
    #[verifier::external_body] fn first_less(&mut self, time: i32, default: ContourIndex, key: VSegment) -> (r: ContourIndex) { unimplemented!() }
}
impl KeyExpList { #[verifier::external_body] pub fn new(capacity: usize) -> (r: Self) ensures r.items().len() == 0 { unimplemented!() } }
impl KeyExpTree { #[verifier::external_body] pub fn new(capacity: usize) -> (r: Self) ensures r.items().len() == 0 { unimplemented!() } }
// room to reserve, not more than a number of bits
pub trait Int { fn log2_sqrt(self) -> (r: usize) ensures r < 100; }
impl Int for usize { #[verifier::external_body] fn log2_sqrt(self) -> (r: usize) { unimplemented!() } }
impl ShapeBinder {
//@ fn bind/solver.rs ShapeBinder bind
//@ sub <<<Self::private_solve::<KeyExpList<VSegment, i32, ContourIndex>>($A)>>> <<<Self::private_solve::<KeyExpList>($A)>>>
//@ sub <<<Self::private_solve::<KeyExpTree<VSegment, i32, ContourIndex>>($A)>>> <<<Self::private_solve::<KeyExpTree>($A)>>>
//@ spec
        requires nested(segments@, hole_segments@, shape_count as int)
        ensures
            r.parent_for_child@.len() == hole_segments@.len(), r.children_count_for_parent@.len() == shape_count,
            settled(segments@, hole_segments@, r.parent_for_child@, hole_segments@.len() as int, shape_count as int),
//@ endfn
}
pub proof fn lemma_edges(id: ContourIndex, other: ContourIndex)
    requires id.hole() == other.hole(), id.id() == other.id()
    ensures id == other
{}
// the contours given so far
pub open spec fn upto(shapes: Seq<Seq<IntPoint>>, n: int, holes: Seq<Seq<IntPoint>>, m: int, cw: bool) -> spec_fn(IdSegment) -> bool {
    |g: IdSegment| edges_in(shapes, n, false, cw, g) || edges_in(holes, m, true, cw, g)
}
pub proof fn lemma_none(shapes: Seq<Seq<IntPoint>>, holes: Seq<Seq<IntPoint>>, cw: bool, x0: i32, x1: i32)
    ensures has(seq![], upto(shapes, 0, holes, 0, cw), x0, x1)
{}
pub proof fn lemma_one(b0: Seq<IdSegment>, b1: Seq<IdSegment>, shapes: Seq<Seq<IntPoint>>, n: int, holes: Seq<Seq<IntPoint>>, m: int, cw: bool, x0: i32, x1: i32, id: ContourIndex)
    requires
        has(b0, upto(shapes, n, holes, m, cw), x0, x1), 0 <= n <= shapes.len(), 0 <= m <= holes.len(),
        if id.hole() { id.id() == m && m < holes.len() && added(b0, b1, of_contour(holes[m], cw, id), x0, x1) }
        else { id.id() == n && n < shapes.len() && added(b0, b1, of_contour(shapes[n], cw, id), x0, x1) },
    ensures has(b1, if id.hole() { upto(shapes, n, holes, m + 1, cw) } else { upto(shapes, n + 1, holes, m, cw) }, x0, x1)
{
    hide(edge_in);
    let c = if id.hole() { holes[m] } else { shapes[n] };
    let e0 = upto(shapes, n, holes, m, cw);
    let e1 = if id.hole() { upto(shapes, n, holes, m + 1, cw) } else { upto(shapes, n + 1, holes, m, cw) };
    assert forall|g: IdSegment| #[trigger] b1.contains(g) <==> e1(g) && within(g, x0, x1) by {
        assert(b0.contains(g) <==> e0(g) && within(g, x0, x1));
        assert(b1.contains(g) <==> b0.contains(g) || (edge_in(c, cw, id, g) && within(g, x0, x1)));
        lemma_its_contour(c, cw, id, g);
        if g.contour_index.hole() == id.hole() && g.contour_index.id() == id.id() { lemma_edges(g.contour_index, id); }
    }
}
pub proof fn lemma_its_contour(s: Seq<IntPoint>, cw: bool, id: ContourIndex, g: IdSegment)
    ensures edge_in(s, cw, id, g) ==> g.contour_index == id
{}
pub proof fn lemma_reordered(b0: Seq<IdSegment>, b1: Seq<IdSegment>, e: spec_fn(IdSegment) -> bool, x0: i32, x1: i32)
    requires has(b0, e, x0, x1), same_items(b0, b1)
    ensures has(b1, e, x0, x1)
{
    b0.to_multiset_ensures();
    b1.to_multiset_ensures();
    assert forall|g: IdSegment| #[trigger] b1.contains(g) <==> e(g) && within(g, x0, x1) by {
        assert(b1.contains(g) <==> b1.to_multiset().contains(g));
        assert(b0.contains(g) <==> b0.to_multiset().contains(g));
    }
}
// the owners the sweep found
pub proof fn lemma_grounded(segs: Seq<IdSegment>, e: spec_fn(IdSegment) -> bool, hs: Seq<IdSegment>, parent: Seq<usize>, own: Seq<int>, count: int)
    requires
        settled(segs, hs, parent, hs.len() as int, count), nested(segs, hs, count), named(hs), parent.len() == hs.len(), own.len() == parent.len(),
        forall|i: int| 0 <= i < own.len() ==> #[trigger] own[i] == parent[i],
        forall|k: int, f: IdSegment| #![trigger is_floor(segs, hs[k], f)] 0 <= k < hs.len() && is_floor(segs, hs[k], f) ==> floor_in(e, hs[k], f),
    ensures grounded(e, hs, own)
{
    assert forall|k: int| 0 <= k < hs.len() implies #[trigger] grounded_at(e, hs, own, k) by {
        assert(bound(segs, hs[k], parent));
        let f = choose|f: IdSegment| #[trigger] is_floor(segs, hs[k], f) && parent[hs[k].contour_index.id()] == owner(f, parent);
        assert(floor_in(e, hs[k], f));
        assert(floors_ok(segs, hs, k, count));
        if f.contour_index.hole() {
            let m = choose|m: int| 0 <= m < k && (#[trigger] hs[m]).contour_index.id() == f.contour_index.id();
            assert(0 <= hs[m].contour_index.id() < hs.len());
        }
    }
}
// ---- holes into shapes ----
// an anchor for every hole: the lowest edge at its most left point
pub open spec fn anchors_of(hs: Seq<IdSegment>, holes: Seq<Seq<IntPoint>>) -> bool {
    &&& hs.len() == holes.len()
    &&& forall|k: int| 0 <= k < hs.len() ==> anchor_ok(#[trigger] hs[k], holes)
    &&& forall|k: int, m: int| 0 <= k < m < hs.len() ==> (#[trigger] hs[k]).contour_index.id() != (#[trigger] hs[m]).contour_index.id()
}
pub open spec fn anchor_ok(h: IdSegment, holes: Seq<Seq<IntPoint>>) -> bool {
    h.contour_index.hole() && 0 <= h.contour_index.id() < holes.len() && lowest(holes[h.contour_index.id()], h.v_segment)
}
// the holes lie in the shapes: over every hole's anchor edges are stacked, and below it there is one of a shape or of a hole further left
pub open spec fn well_nested(shapes: Seq<Seq<IntPoint>>, holes: Seq<Seq<IntPoint>>, cw: bool) -> bool {
    forall|hs: Seq<IdSegment>| #[trigger] anchors_of(hs, holes) && in_turn(hs) ==> nest(edges(shapes, holes, cw), hs, shapes.len() as int)
}
pub open spec fn contours_ok(c: Seq<Seq<IntPoint>>) -> bool { c.len() < 0x8000_0000_0000_0000 && forall|i: int| 0 <= i < c.len() ==> contour_ok(#[trigger] c[i]) && c[i].len() < 0x8000_0000_0000_0000 }
pub open spec fn housed(shapes: Seq<Seq<IntPoint>>, holes: Seq<Seq<IntPoint>>, cw: bool, out: Seq<IntShape>) -> bool {
    joined(shapes, holes, out) && (shapes.len() > 1 && holes.len() > 0 ==> exists|hs: Seq<IdSegment>| #[trigger] anchors_of(hs, holes) && homed(edges(shapes, holes, cw), hs, shapes, holes, out))
}
pub proof fn lemma_anchors(o: Seq<IdSegment>, n: Seq<IdSegment>, holes: Seq<Seq<IntPoint>>)
    requires anchors_of(o, holes), same_items(o, n)
    ensures anchors_of(n, holes)
{
    assert(o.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies o[i] != o[j] by { if i < j { assert(o[i].contour_index.id() != o[j].contour_index.id()); } else { assert(o[j].contour_index.id() != o[i].contour_index.id()); } }
    }
    o.lemma_multiset_has_no_duplicates();
    n.to_multiset_ensures();
    o.to_multiset_ensures();
    n.lemma_multiset_has_no_duplicates_conv();
    assert forall|k: int| 0 <= k < n.len() implies anchor_ok(#[trigger] n[k], holes) by { lemma_same(o, n, k); }
    assert forall|k: int, m: int| 0 <= k < m < n.len() implies (#[trigger] n[k]).contour_index.id() != (#[trigger] n[m]).contour_index.id() by {
        lemma_same(o, n, k);
        lemma_same(o, n, m);
        let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == n[k];
        let j = choose|j: int| 0 <= j < o.len() && #[trigger] o[j] == n[m];
        if i < j { assert(o[i].contour_index.id() != o[j].contour_index.id()); }
        if j < i { assert(o[j].contour_index.id() != o[i].contour_index.id()); }
        if i == j { assert(n[k] == n[m]); }
    }
}
pub proof fn lemma_anchors_ok(hs: Seq<IdSegment>, holes: Seq<Seq<IntPoint>>)
    requires anchors_of(hs, holes), contours_ok(holes)
    ensures all_ok(hs)
{
    assert forall|k: int| 0 <= k < hs.len() implies vs_ok((#[trigger] hs[k]).v_segment) by {
        assert(anchor_ok(hs[k], holes));
        lemma_edge_right(holes[hs[k].contour_index.id()], hs[k].v_segment);
    }
}
// every hole has its anchor
pub proof fn lemma_every(hs: Seq<IdSegment>, i: int) -> (m: int)
    requires named(hs), 0 <= i < hs.len()
    ensures 0 <= m < hs.len(), hs[m].contour_index.id() == i
{
    let ids = Seq::new(hs.len(), |k: int| hs[k].contour_index.id());
    assert(ids.no_duplicates()) by {
        assert forall|k: int, m: int| 0 <= k < ids.len() && 0 <= m < ids.len() && k != m implies ids[k] != ids[m] by {
            if k < m { assert(hs[k].contour_index.id() != hs[m].contour_index.id()); } else { assert(hs[m].contour_index.id() != hs[k].contour_index.id()); }
        }
    }
    ids.unique_seq_to_set();
    let all = vstd::set_lib::set_int_range(0, hs.len() as int);
    vstd::set_lib::lemma_int_range(0, hs.len() as int);
    assert(ids.to_set().subset_of(all)) by {
        assert forall|x: int| #[trigger] ids.to_set().contains(x) implies all.contains(x) by {
            let k = choose|k: int| 0 <= k < ids.len() && ids[k] == x;
            assert(hs[k].contour_index.id() == x);
        }
    }
    vstd::set_lib::lemma_subset_equality(ids.to_set(), all);
    assert(all.contains(i));
    assert(ids.contains(i));
    let m = choose|m: int| 0 <= m < ids.len() && ids[m] == i;
    m
}
// without holes, and with one shape only
pub proof fn lemma_simple(s0: Seq<IntShape>, h0: Seq<IntContour>)
    requires flat(s0)
    ensures
        s0.len() == 0 || h0.len() == 0 ==> joined(outers(s0), points(h0), s0),
        s0.len() == 1 ==> forall|out: Seq<IntShape>| out.len() == 1 && out[0]@ == s0[0]@ + h0 ==> #[trigger] joined(outers(s0), points(h0), out),
{
    if h0.len() == 0 { lemma_no_holes(s0); assert(points(h0) =~= Seq::<Seq<IntPoint>>::empty()); }
    if s0.len() == 1 {
        assert forall|out: Seq<IntShape>| out.len() == 1 && out[0]@ == s0[0]@ + h0 implies #[trigger] joined(outers(s0), points(h0), out) by { lemma_single(s0, out, h0); }
    }
}
pub trait JoinHoles {
    spec fn list(&self) -> Seq<IntShape>;
    fn join_unsorted_holes(&mut self, solver: &Solver, holes: Vec<IntContour>, clockwise: bool)
        requires flat(old(self).list()), contours_ok(outers(old(self).list())), contours_ok(points(holes@)), well_nested(outers(old(self).list()), points(holes@), clockwise),
        ensures housed(outers(old(self).list()), points(holes@), clockwise, final(self).list());
    fn join_sorted_holes(&mut self, solver: &Solver, holes: Vec<IntContour>, anchors: Vec<IdSegment>, clockwise: bool)
        requires flat(old(self).list()), contours_ok(outers(old(self).list())), contours_ok(points(holes@)), well_nested(outers(old(self).list()), points(holes@), clockwise),
            anchors_of(anchors@, points(holes@)), by_start(anchors@),
        ensures housed(outers(old(self).list()), points(holes@), clockwise, final(self).list());
    fn scan_join(&mut self, solver: &Solver, holes: Vec<IntPath>, hole_segments: Vec<IdSegment>, clockwise: bool)
        requires flat(old(self).list()), contours_ok(outers(old(self).list())), contours_ok(points(holes@)), well_nested(outers(old(self).list()), points(holes@), clockwise),
            anchors_of(hole_segments@, points(holes@)), in_turn(hole_segments@), holes@.len() > 0,
        ensures homed(edges(outers(old(self).list()), points(holes@), clockwise), hole_segments@, outers(old(self).list()), points(holes@), final(self).list());
}
// as many reserved, nothing changed
pub open spec fn alike<E>(s0: Seq<Vec<Vec<E>>>, s1: Seq<Vec<Vec<E>>>) -> bool { s1.len() == s0.len() && forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s1[i])@ == s0[i]@ }
impl JoinHoles for Vec<IntShape> {
    open spec fn list(&self) -> Seq<IntShape> { self@ }
//@ fn bind/solver.rs JoinHoles for Vec<IntShape> join_unsorted_holes
//@ sub <<<let mut hole_segments: Vec<_> = holes.iter().enumerate().map(|($I, $P)| $B).collect();>>> <<<let mut hole_segments: Vec<IdSegment> = Vec::new(); for it0 in 0..holes.len() { let $I = it0; let $P = &holes[it0]; hole_segments.push($B); }>>>
//@ nopub
//@ entry
        let ghost (s0, h0) = (self@, holes@);
        proof { lemma_simple(s0, h0); }
//@ loop 0
            invariant
                h0 == holes@, contours_ok(points(h0)), hole_segments@.len() == it0,
                forall|k: int| 0 <= k < it0 ==> anchor_ok(#[trigger] hole_segments@[k], points(h0)) && hole_segments@[k].contour_index.id() == k,
//@ loopbody 0
            proof { assert(contour_ok(points(h0)[it0 as int])); }
//@ after_loop 0
        let ghost a0 = hole_segments@;
        proof {
            assert(anchors_of(a0, points(h0)));
            lemma_anchors_ok(a0, points(h0));
            assert forall|n: Seq<IdSegment>| #[trigger] same_items(a0, n) implies anchors_of(n, points(h0)) by { lemma_anchors(a0, n, points(h0)); }
        }
//@ endfn
//@ fn bind/solver.rs JoinHoles for Vec<IntShape> join_sorted_holes
//@ sub <<<debug_assert!($X);>>> <<<>>>
//@ nopub
//@ entry
        let ghost (s0, h0, a0) = (self@, holes@, anchors@);
        proof {
            lemma_simple(s0, h0);
            lemma_anchors_ok(a0, points(h0));
            assert forall|n: Seq<IdSegment>| #[trigger] same_items(a0, n) implies anchors_of(n, points(h0)) by { lemma_anchors(a0, n, points(h0)); }
        }
//@ endfn
//@ fn bind/solver.rs JoinHoles for Vec<IntShape> scan_join
//@ index_loops
//@ sub <<<let capacity = $C; let mut segments = Vec::with_capacity(capacity);>>> <<<let mut segments: Vec<IdSegment> = Vec::new();>>>
//@ sub <<<for ($I, $H) in holes.into_iter().enumerate() $B>>> <<<let mut $I: usize = 0; for $H in it3: holes { $B $I = $I + 1; }>>>
//@ nopub
//@ entry
        let ghost (s0, h0, hs) = (self@, holes@, hole_segments@);
        let ghost (c, d, cw) = (outers(s0), points(h0), clockwise);
        let ghost n = s0.len() as int;
        proof { lemma_anchors_ok(hs, d); }
//@ before_loop 0
        proof { lemma_none(c, d, cw, x_min, x_max); assert(segments@ =~= seq![]); }
//@ loop 0
            invariant
                self@ == s0, c == outers(s0), d == points(h0), h0 == holes@, contours_ok(c), contours_ok(d), flat(s0), cw == clockwise, n == s0.len(),
                has(segments@, upto(c, it0 as int, d, 0, cw), x_min, x_max),
//@ loopbody 0
            let ghost g0 = segments@;
            proof { assert(contour_ok(c[it0 as int]) && c[it0 as int] == s0[it0 as int]@[0]@); assert(s0[it0 as int]@.len() == 1); }
//@ loopend 0
            proof {
                let id = choose|id: ContourIndex| !id.hole() && id.id() == it0 && #[trigger] added(g0, segments@, of_contour(c[it0 as int], cw, id), x_min, x_max);
                lemma_one(g0, segments@, c, it0 as int, d, 0, cw, x_min, x_max, id);
            }
//@ loop 1
            invariant
                self@ == s0, c == outers(s0), d == points(h0), h0 == holes@, contours_ok(c), contours_ok(d), flat(s0), cw == clockwise, n == s0.len(),
                has(segments@, upto(c, n, d, it1 as int, cw), x_min, x_max),
//@ loopbody 1
            let ghost g0 = segments@;
            proof { assert(contour_ok(d[it1 as int]) && d[it1 as int] == h0[it1 as int]@); }
//@ loopend 1
            proof {
                let id = choose|id: ContourIndex| id.hole() && id.id() == it1 && #[trigger] added(g0, segments@, of_contour(d[it1 as int], cw, id), x_min, x_max);
                lemma_one(g0, segments@, c, n, d, it1 as int, cw, x_min, x_max, id);
            }
//@ after_loop 1
        let ghost g1 = segments@;
        let ghost e = edges(c, d, cw);
        proof {
            assert(has(g1, e, x_min, x_max));
            assert(nest(e, hs, n));
            assert forall|i: int| 0 <= i < g1.len() implies vs_ok((#[trigger] g1[i]).v_segment) by { assert(g1.contains(g1[i])); assert(e(g1[i])); }
        }
//@ before solution
        proof {
            lemma_reordered(g1, segments@, e, x_min, x_max);
            lemma_nested(segments@, e, x_min, x_max, hs, n);
        }
        let ghost gs = segments@;
//@ after solution
        let ghost own = Seq::new(d.len(), |i: int| solution.parent_for_child@[i] as int);
        proof {
            lemma_grounded(gs, e, hs, solution.parent_for_child@, own, n);
            assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] own[i] < n by {
                let m = lemma_every(hs, i);
                assert(bound(gs, hs[m], solution.parent_for_child@) && solution.parent_for_child@[hs[m].contour_index.id()] < n);
            }
        }
//@ loop 2
            invariant
                n == s0.len(), n == solution.children_count_for_parent@.len(), alike(s0, self@),
//@ before_loop 3
        let ghost mut place: Seq<int> = seq![];
        proof {
            assert(flat(self@));
            lemma_no_holes(self@);
            assert(d.take(0) =~= Seq::<Seq<IntPoint>>::empty());
            assert(own.take(0) =~= Seq::<int>::empty());
            assert(outers(self@) =~= c);
        }
//@ loop 3
            invariant
                it3.seq() == h0, hole_index == it3.index(), self@.len() == n, h0.len() == d.len(), d == points(h0), own.len() == d.len(), solution.parent_for_child@.len() == d.len(),
                outers(self@) =~= c, forall|i: int| 0 <= i < n ==> (#[trigger] self@[i])@.len() > 0,
                forall|i: int| 0 <= i < d.len() ==> 0 <= #[trigger] own[i] < n && own[i] == solution.parent_for_child@[i],
                placed(d.take(hole_index as int), self@, own.take(hole_index as int), place),
                d.len() < 0x8000_0000_0000_0000,
//@ loopbody 3
            let ghost (p0, k) = (self@, it3.index());
            let ghost x = hole;
            proof { assert(own[k] == solution.parent_for_child@[k]); assert(x@ == d[k]); }
//@ loopend 3
            proof {
                lemma_place(d.take(k), p0, self@, own.take(k), place, own[k], x);
                place = place.push(p0[own[k]]@.len() as int);
                assert(d.take(k + 1) =~= d.take(k).push(d[k]));
                assert(own.take(k + 1) =~= own.take(k).push(own[k]));
            }
//@ exit
        proof {
            assert(d.take(d.len() as int) =~= d);
            assert(own.take(d.len() as int) =~= own);
        }
//@ endfn
}
}
fn main() {}
