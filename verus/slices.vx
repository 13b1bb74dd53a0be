// ---- string/extract.rs: the shapes between the cuts ----
//@ import slice.vx
//@ import loops.vx
//@ include joined.vx
verus! {
//@ item i_shape:int/shape.rs type IntContour
//@ item i_shape:int/shape.rs type IntShapes
//@ item core/overlay.rs enum ContourDirection
// ---- all tours, their loops, and the shapes and holes among them ----
pub struct Trip { pub walk: Seq<Side>, pub ids: Seq<usize>, pub raw: Seq<IntPoint>, pub left: bool, pub loops: Seq<Seq<IntPoint>> }
pub open spec fn after_trips(f: Seq<u8>, t: Seq<Trip>) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 { f } else { taken(after_trips(f, t.drop_last()), t.last().walk) }
}
pub open spec fn trip_ok(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, t: Trip) -> bool {
    tour(l, nodes, f, taken(f, t.walk), t.raw, t.walk, t.ids, t.left) && falls_into(t.raw, t.loops)
}
pub open spec fn trips_ok(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, t: Seq<Trip>) -> bool {
    forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> trip_ok(l, nodes, after_trips(f, t.take(k)), t[k])
}
// how often a side is walked
pub open spec fn times(walk: Seq<Side>, s: Side) -> int
    decreases walk.len()
{
    if walk.len() == 0 { 0 } else { times(walk.drop_last(), s) + one(walk.last() == s) }
}
pub open spec fn times_all(t: Seq<Trip>, s: Side) -> int
    decreases t.len()
{
    if t.len() == 0 { 0 } else { times_all(t.drop_last(), s) + times(t.last().walk, s) }
}
// every filled side is walked exactly once, no other side is
pub open spec fn toured(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, t: Seq<Trip>) -> bool {
    trips_ok(l, nodes, f, t) && forall|s: Side| #![trigger filled(f, s)] #![trigger times_all(t, s)] times_all(t, s) == one(filled(f, s))
}
pub open spec fn is_cw(c: Seq<IntPoint>) -> bool { wrap(area(c)) >= 0 }
// a loop with the inside on its outer side
pub open spec fn is_hole(c: Seq<IntPoint>, left: bool) -> bool { is_cw(c) == left }
// the loops of one kind, each one turned to the asked direction
pub open spec fn picked(c: Seq<Seq<IntPoint>>, left: bool, hole: bool, cw: bool) -> Seq<Seq<IntPoint>>
    decreases c.len()
{
    if c.len() == 0 { seq![] } else {
        let s = picked(c.drop_last(), left, hole, cw);
        if is_hole(c.last(), left) == hole { s.push(turned(c.last(), cw != hole)) } else { s }
    }
}
pub open spec fn found(t: Seq<Trip>, hole: bool, cw: bool, min_area: usize) -> Seq<Seq<IntPoint>>
    decreases t.len()
{
    if t.len() == 0 { seq![] } else { found(t.drop_last(), hole, cw, min_area) + picked(kept(t.last().loops, min_area), t.last().left, hole, cw) }
}
pub proof fn lemma_filled_after(f: Seq<u8>, walk: Seq<Side>, s: Side)
    requires only_sides(f), forall|k: int| #![trigger walk[k]] 0 <= k < walk.len() ==> filled(taken(f, walk.take(k)), walk[k])
    ensures only_sides(taken(f, walk)), taken(f, walk).len() == f.len(), times(walk, s) == one(filled(f, s)) - one(filled(taken(f, walk), s)),
        rest(taken(f, walk), f.len() as int) + walk.len() <= rest(f, f.len() as int)
    decreases walk.len()
{
    if walk.len() > 0 {
        let w = walk.drop_last();
        assert forall|k: int| #![trigger w[k]] 0 <= k < w.len() implies filled(taken(f, w.take(k)), w[k]) by { assert(w[k] == walk[k]); assert(w.take(k) =~= walk.take(k)); }
        lemma_filled_after(f, w, s);
        assert(walk.take(walk.len() - 1) =~= w);
        assert(walk[walk.len() - 1] == walk.last());
        lemma_off(taken(f, w), walk.last());
        lemma_rest(taken(f, w), walk.last(), f.len() as int);
        assert(filled(off(taken(f, w), walk.last()), s) == (filled(taken(f, w), s) && s != walk.last()));
    }
}
pub proof fn lemma_trips(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, t: Seq<Trip>, s: Side)
    requires trips_ok(l, nodes, f, t), only_sides(f), f.len() == l.len()
    ensures only_sides(after_trips(f, t)), after_trips(f, t).len() == f.len(), times_all(t, s) == one(filled(f, s)) - one(filled(after_trips(f, t), s))
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last();
        assert(trips_ok(l, nodes, f, u)) by {
            assert forall|k: int| #![trigger u[k]] 0 <= k < u.len() implies trip_ok(l, nodes, after_trips(f, u.take(k)), u[k]) by { assert(u[k] == t[k]); assert(u.take(k) =~= t.take(k)); }
        }
        lemma_trips(l, nodes, f, u, s);
        assert(t[t.len() - 1] == t.last());
        assert(t.take(t.len() - 1) =~= u);
        lemma_filled_after(after_trips(f, u), t.last().walk, s);
    }
}
// nothing is left before edge i
#[verifier::opaque]
pub open spec fn beyond(f: Seq<u8>, i: int) -> bool { forall|s: Side| #![trigger filled(f, s)] filled(f, s) ==> s.link >= i }
// one trip more
pub proof fn lemma_next(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, t: Seq<Trip>, raw: Seq<IntPoint>, left: bool, loops: Seq<Seq<IntPoint>>, f1: Seq<u8>) -> (x: Trip)
    requires
        trips_ok(l, nodes, f, t), only_sides(f), f.len() == l.len(), falls_into(raw, loops),
        exists|walk: Seq<Side>, ids: Seq<usize>| #[trigger] tour(l, nodes, after_trips(f, t), f1, raw, walk, ids, left),
    ensures
        x.raw == raw, x.left == left, x.loops == loops, trips_ok(l, nodes, f, t.push(x)), after_trips(f, t.push(x)) == f1, t.push(x).drop_last() == t,
        rest(f1, f.len() as int) < rest(after_trips(f, t), f.len() as int), forall|i: int| #![trigger beyond(f1, i)] beyond(after_trips(f, t), i) ==> beyond(f1, i),
{
    reveal(beyond);
    let g = after_trips(f, t);
    let (walk, ids) = choose|walk: Seq<Side>, ids: Seq<usize>| #[trigger] tour(l, nodes, g, f1, raw, walk, ids, left);
    let x = Trip { walk, ids, raw, left, loops };
    let u = t.push(x);
    assert(u.drop_last() =~= t);
    assert(trip_ok(l, nodes, g, x));
    assert forall|k: int| #![trigger u[k]] 0 <= k < u.len() implies trip_ok(l, nodes, after_trips(f, u.take(k)), u[k]) by {
        if k == t.len() { assert(u.take(k) =~= t); } else { assert(u[k] == t[k]); assert(u.take(k) =~= t.take(k)); }
    }
    assert forall|s: Side| #![trigger filled(f1, s)] filled(f1, s) implies filled(g, s) by {
        lemma_trips(l, nodes, f, t, s);
        lemma_filled_after(g, walk, s);
        lemma_times_pos(walk, s);
    }
    lemma_trips(l, nodes, f, t, Side { link: 0, top: true });
    lemma_filled_after(g, walk, Side { link: 0, top: true });
    x
}
pub proof fn lemma_times_pos(walk: Seq<Side>, s: Side)
    ensures times(walk, s) >= 0
    decreases walk.len()
{
    if walk.len() > 0 { lemma_times_pos(walk.drop_last(), s); }
}
pub proof fn lemma_kept_simple(l: Seq<Seq<IntPoint>>, min_area: usize)
    requires forall|i: int| 0 <= i < l.len() ==> simple(#[trigger] l[i])
    ensures forall|i: int| 0 <= i < kept(l, min_area).len() ==> simple(#[trigger] kept(l, min_area)[i])
    decreases l.len()
{
    if l.len() > 0 {
        let m = l.drop_last();
        assert forall|i: int| 0 <= i < m.len() implies simple(#[trigger] m[i]) by { assert(m[i] == l[i]); }
        lemma_kept_simple(m, min_area);
        assert(simple(l[l.len() - 1]));
        let (k, d) = (kept(l, min_area), kept(m, min_area));
        assert(k == if big(l.last(), min_area) { d.push(l.last()) } else { d });
        assert forall|i: int| 0 <= i < k.len() implies simple(#[trigger] k[i]) by { if i < d.len() { assert(simple(d[i])); assert(k[i] == d[i]); } else { assert(k[i] == l.last()); } }
    }
}
pub proof fn lemma_picked(c: Seq<Seq<IntPoint>>, k: int, left: bool, hole: bool, cw: bool)
    requires 0 <= k < c.len()
    ensures picked(c.take(k + 1), left, hole, cw) == if is_hole(c[k], left) == hole { picked(c.take(k), left, hole, cw).push(turned(c[k], cw != hole)) } else { picked(c.take(k), left, hole, cw) }
{
    assert(c.take(k + 1).drop_last() =~= c.take(k));
    assert(c.take(k + 1).last() == c[k]);
}
pub open spec fn turned(c: Seq<IntPoint>, dir: bool) -> Seq<IntPoint> { if is_cw(c) == dir { c } else { c.reverse() } }
// the loops of all tours so far
#[verifier::opaque]
pub open spec fn sorted_out(shapes: Seq<IntShape>, holes: Seq<IntContour>, t: Seq<Trip>, cw: bool, min_area: usize) -> bool {
    outers(shapes) == found(t, false, cw, min_area) && views(holes) == found(t, true, cw, min_area) && forall|i: int| 0 <= i < shapes.len() ==> (#[trigger] shapes[i])@.len() == 1
}
pub proof fn lemma_set_out(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>)
    requires only_sides(f), f.len() == l.len(), forall|i: int, top: bool| #![trigger shows(f[i], top)] 0 <= i < l.len() ==> shows(f[i], top) == bounds(l[i].fill, top)
    ensures sides_of(l, f), trips_ok(l, nodes, f, seq![]), after_trips(f, seq![]) == f, beyond(f, 0)
{
    reveal(beyond);
}
pub proof fn lemma_sorted_all(shapes: Seq<IntShape>, holes: Seq<IntContour>, t: Seq<Trip>, cw: bool, min_area: usize)
    requires sorted_out(shapes, holes, t, cw, min_area)
    ensures outers(shapes) == found(t, false, cw, min_area), views(holes) == found(t, true, cw, min_area), forall|i: int| 0 <= i < shapes.len() ==> (#[trigger] shapes[i])@.len() == 1
{
    reveal(sorted_out);
}
pub proof fn lemma_view(p: Seq<IntContour>, k: int)
    ensures views(p).len() == p.len(), 0 <= k < p.len() ==> views(p)[k] == p[k]@
{}
pub proof fn lemma_sorted_none(shapes: Seq<IntShape>, holes: Seq<IntContour>, cw: bool, min_area: usize)
    requires shapes.len() == 0, holes.len() == 0
    ensures sorted_out(shapes, holes, seq![], cw, min_area)
{
    reveal(sorted_out);
    let t: Seq<Trip> = seq![];
    assert(outers(shapes) =~= found(t, false, cw, min_area));
    assert(views(holes) =~= found(t, true, cw, min_area));
}
pub proof fn lemma_all_walked(l: Seq<OverlayLink>, nodes: Seq<Vec<usize>>, f: Seq<u8>, t: Seq<Trip>)
    requires trips_ok(l, nodes, f, t), only_sides(f), f.len() == l.len(), beyond(after_trips(f, t), l.len() as int)
    ensures toured(l, nodes, f, t)
{
    reveal(beyond);
    assert forall|s: Side| #![trigger filled(f, s)] #![trigger times_all(t, s)] times_all(t, s) == one(filled(f, s)) by { lemma_trips(l, nodes, f, t, s); assert(!filled(after_trips(f, t), s)); }
}
// the first k loops of a tour are among the shapes and holes
#[verifier::opaque]
pub open spec fn sorted_in(shapes: Seq<IntShape>, holes: Seq<IntContour>, s1: Seq<Seq<IntPoint>>, h1: Seq<Seq<IntPoint>>, c: Seq<Seq<IntPoint>>, k: int, left: bool, cw: bool) -> bool {
    outers(shapes) == s1 + picked(c.take(k), left, false, cw) && views(holes) == h1 + picked(c.take(k), left, true, cw)
    && forall|i: int| 0 <= i < shapes.len() ==> (#[trigger] shapes[i])@.len() == 1
}
pub proof fn lemma_none_in(shapes: Seq<IntShape>, holes: Seq<IntContour>, c: Seq<Seq<IntPoint>>, left: bool, cw: bool, t: Seq<Trip>, min_area: usize)
    requires sorted_out(shapes, holes, t, cw, min_area)
    ensures sorted_in(shapes, holes, outers(shapes), views(holes), c, 0, left, cw)
{
    reveal(sorted_in);
    reveal(sorted_out);
    assert(c.take(0) =~= Seq::<Seq<IntPoint>>::empty());
    assert(outers(shapes) =~= outers(shapes) + picked(c.take(0), left, false, cw));
    assert(views(holes) =~= views(holes) + picked(c.take(0), left, true, cw));
}
pub proof fn lemma_one_in(shapes0: Seq<IntShape>, holes0: Seq<IntContour>, shapes: Seq<IntShape>, holes: Seq<IntContour>, s1: Seq<Seq<IntPoint>>, h1: Seq<Seq<IntPoint>>, c: Seq<Seq<IntPoint>>, k: int, left: bool, cw: bool)
    requires
        sorted_in(shapes0, holes0, s1, h1, c, k, left, cw), 0 <= k < c.len(),
        if is_hole(c[k], left) { shapes == shapes0 && holes.len() == holes0.len() + 1 && holes == holes0.push(holes.last()) && holes.last()@ == turned(c[k], !cw) }
        else { holes == holes0 && shapes.len() == shapes0.len() + 1 && shapes == shapes0.push(shapes.last()) && shapes.last()@.len() == 1 && shapes.last()@[0]@ == turned(c[k], cw) },
    ensures sorted_in(shapes, holes, s1, h1, c, k + 1, left, cw)
{
    reveal(sorted_in);
    lemma_picked(c, k, left, false, cw);
    lemma_picked(c, k, left, true, cw);
    let (a, b) = (picked(c.take(k), left, false, cw), picked(c.take(k), left, true, cw));
    if is_hole(c[k], left) {
        let x = turned(c[k], !cw);
        assert(views(holes) =~= views(holes0).push(x)) by { assert forall|i: int| 0 <= i < holes.len() implies views(holes)[i] == views(holes0).push(x)[i] by { if i < holes0.len() { assert(holes[i] == holes0[i]); } } }
        assert((h1 + b).push(x) =~= h1 + b.push(x));
    } else {
        let x = turned(c[k], cw);
        assert(outers(shapes) =~= outers(shapes0).push(x)) by { assert forall|i: int| 0 <= i < shapes.len() implies outers(shapes)[i] == outers(shapes0).push(x)[i] by { if i < shapes0.len() { assert(shapes[i] == shapes0[i]); } } }
        assert((s1 + a).push(x) =~= s1 + a.push(x));
        assert forall|i: int| 0 <= i < shapes.len() implies (#[trigger] shapes[i])@.len() == 1 by { if i < shapes0.len() { assert(shapes[i] == shapes0[i]); } }
    }
}
pub proof fn lemma_all_in(s0: Seq<IntShape>, h0: Seq<IntContour>, shapes: Seq<IntShape>, holes: Seq<IntContour>, t: Seq<Trip>, x: Trip, c: Seq<Seq<IntPoint>>, cw: bool, min_area: usize)
    requires sorted_out(s0, h0, t, cw, min_area), sorted_in(shapes, holes, outers(s0), views(h0), c, c.len() as int, x.left, cw), c == kept(x.loops, min_area)
    ensures sorted_out(shapes, holes, t.push(x), cw, min_area)
{
    reveal(sorted_out);
    reveal(sorted_in);
    assert(c.take(c.len() as int) =~= c);
    assert(t.push(x).drop_last() =~= t);
}
pub assume_specification<T> [ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification[ <ContourDirection as PartialEq>::eq ](a: &ContourDirection, b: &ContourDirection) -> (r: bool) ensures r == (*a == *b);
pub trait JoinHoles {
    spec fn list(&self) -> Seq<IntShape>;
    fn join_unsorted_holes(&mut self, solver: &Solver, holes: Vec<IntContour>, clockwise: bool)
        requires forall|i: int| 0 <= i < old(self).list().len() ==> (#[trigger] old(self).list()[i])@.len() == 1,
        ensures joined(outers(old(self).list()), views(holes@), final(self).list());
}
impl JoinHoles for Vec<IntShape> {
    open spec fn list(&self) -> Seq<IntShape> { self@ }
    #[verifier::external_body] fn join_unsorted_holes(&mut self, solver: &Solver, holes: Vec<IntContour>, clockwise: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn as_slice_mut(v: &mut Vec<u8>) -> (r: &mut [u8])
    ensures r@ == old(v)@, final(v)@ == final(r)@
{ unimplemented!() }
pub open spec fn sides_of(l: Seq<OverlayLink>, f: Seq<u8>) -> bool {
    f.len() == l.len() && only_sides(f) && forall|i: int, top: bool| #![trigger shows(f[i], top)] 0 <= i < l.len() ==> shows(f[i], top) == bounds(l[i].fill, top)
}
impl StringGraph {
//@ fn string/extract.rs StringGraph extract_shapes_custom
//@ attr #[verifier::rlimit(40)]
//@ sub <<<let mut shapes= Vec::new();>>> <<<let mut shapes: Vec<IntShape> = Vec::new();>>>
//@ sub <<<let mut holes= Vec::new();>>> <<<let mut holes: Vec<IntContour> = Vec::new();>>>
//@ sub <<<for mut path in paths.into_iter() {>>> <<<for path0 in it1: paths { let mut path = path0;>>>
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] ready(self.links@, self.nodes@, pts),
            // as many filled sides lead out of every node as into it
            forall|f: Seq<u8>| #[trigger] sides_of(self.links@, f) ==> balanced(self.links@, self.nodes@, f),
        ensures
            exists|f: Seq<u8>, t: Seq<Trip>| sides_of(self.links@, f) && #[trigger] toured(self.links@, self.nodes@, f, t)
                && joined(found(t, false, main_direction is Clockwise, min_area), found(t, true, main_direction is Clockwise, min_area), r@),
//@ entry
        hide(ready);
        hide(balanced_but);
        hide(kept);
        hide(simple);
        hide(rest);
        hide(tour);
        hide(only_sides);
        hide(toured);
        hide(found);
        hide(outers);
        hide(views);
        hide(after_trips);
        hide(trips_ok);
        hide(joined);
        hide(falls_into);
        hide(area);
        hide(wrap);
        let ghost (l, nodes, cw) = (self.links@, self.nodes@, main_direction is Clockwise);
        let ghost mut t: Seq<Trip> = seq![];
//@ after fills
        let ghost f0 = fills@;
        proof {
            lemma_set_out(l, nodes, f0);
        }
//@ before_loop 0
        proof { lemma_sorted_none(shapes@, holes@, cw, min_area); }
//@ loop 0
            invariant
                l == self.links@, nodes == self.nodes@, exists|pts: Seq<IntPoint>| #[trigger] ready(l, nodes, pts), cw == (main_direction is Clockwise), clockwise == cw,
                f0.len() == l.len(), only_sides(f0), fills@.len() == l.len(), only_sides(fills@), balanced(l, nodes, fills@), link_index <= l.len(),
                trips_ok(l, nodes, f0, t), fills@ == after_trips(f0, t),
                beyond(fills@, link_index as int), sorted_out(shapes@, holes@, t, cw, min_area),
            decreases rest(fills@, fills@.len() as int), l.len() - link_index
//@ loopbody 0
            let ghost (f1, t1, s0, h0, s1, h1) = (fills@, t, shapes@, holes@, outers(shapes@), views(holes@));
            proof { lemma_none_here(fills@, link_index as int); }
//@ before_loop 1
            let ghost (raw, loops) = choose|raw: Seq<IntPoint>, loops: Seq<Seq<IntPoint>>| #[trigger] falls_into(raw, loops) && views(paths@) == kept(loops, min_area)
                && exists|walk: Seq<Side>, ids: Seq<usize>| #[trigger] tour(l, nodes, f1, fills@, raw, walk, ids, direction);
            let ghost (c, p0) = (views(paths@), paths@);
            let ghost x = lemma_next(l, nodes, f0, t, raw, direction, loops, fills@);
            proof {
                t = t.push(x);
                lemma_view(p0, 0);
                lemma_all_simple(raw, loops, min_area);
                lemma_none_in(shapes@, holes@, c, direction, cw, t1, min_area);
            }
//@ loop 1
                invariant
                    it1.seq() == p0, c == views(p0), c.len() == p0.len(), clockwise == cw, forall|i: int| 0 <= i < c.len() ==> c[i].len() > 0, cw == (main_direction is Clockwise),
                    sorted_in(shapes@, holes@, s1, h1, c, it1.index(), direction, cw),
//@ loopbody 1
                let ghost k = it1.index();
                let ghost (s2, h2) = (shapes@, holes@);
                proof { lemma_view(p0, k); }
//@ loopend 1
                proof { lemma_one_in(s2, h2, shapes@, holes@, s1, h1, c, k, direction, cw); }
//@ after_loop 1
            proof { lemma_all_in(s0, h0, shapes@, holes@, t1, x, c, cw, min_area); }
//@ after_loop 0
        proof {
            lemma_sorted_all(shapes@, holes@, t, cw, min_area);
            lemma_all_walked(l, nodes, f0, t);
        }
//@ endfn
//@ fn string/extract.rs StringGraph extract_shapes
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] ready(self.links@, self.nodes@, pts),
            forall|f: Seq<u8>| #[trigger] sides_of(self.links@, f) ==> balanced(self.links@, self.nodes@, f),
        ensures
            exists|f: Seq<u8>, t: Seq<Trip>| sides_of(self.links@, f) && #[trigger] toured(self.links@, self.nodes@, f, t)
                && joined(found(t, false, false, 0), found(t, true, false, 0), r@),
//@ endfn
}
// no side of this edge is left
pub proof fn lemma_none_here(f: Seq<u8>, i: int)
    requires only_sides(f), 0 <= i < f.len()
    ensures f[i] == 0 && beyond(f, i) ==> beyond(f, i + 1), f[i] != 0 ==> shows(f[i], f[i] & SUBJ_TOP == SUBJ_TOP)
{
    reveal(beyond);
    lemma_bits(f[i]);
    assert(f[i] <= 3);
    if f[i] == 0 { assert forall|s: Side| #![trigger filled(f, s)] filled(f, s) implies s.link != i by {} }
}
pub proof fn lemma_all_simple(raw: Seq<IntPoint>, loops: Seq<Seq<IntPoint>>, min_area: usize)
    requires falls_into(raw, loops)
    ensures forall|i: int| 0 <= i < kept(loops, min_area).len() ==> (#[trigger] kept(loops, min_area)[i]).len() > 0
{
    lemma_kept_simple(loops, min_area);
}
}
fn main() {}
