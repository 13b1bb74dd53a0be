// ---- the edges holes are placed by ----
//@ include joined.vx
verus! {
pub open spec fn id_of(hole: bool, id: int) -> int { 2 * id + if hole { 1int } else { 0 } }
pub open spec fn flat<E>(s: Seq<Vec<Vec<E>>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == 1 }
// a segment whose contour is c and which takes part in the sweep between x0 and x1
pub open spec fn within(g: IdSegment, x0: i32, x1: i32) -> bool { x0 < g.v_segment.b.x && g.v_segment.a.x <= x1 }
// the edges among e: live at an anchor, and the highest of them below it
pub open spec fn floor_in(e: spec_fn(IdSegment) -> bool, h: IdSegment, f: IdSegment) -> bool {
    e(f) && below(f, h) && forall|s: IdSegment| #[trigger] e(s) && below(s, h) ==> !under(f.v_segment, s.v_segment)
}
pub open spec fn live_in(e: spec_fn(IdSegment) -> bool, h: IdSegment) -> spec_fn(IdSegment) -> bool { |s: IdSegment| e(s) && !after(s.v_segment, h.v_segment) && s.v_segment.b.x > h.v_segment.a.x }
pub open spec fn floors_in(e: spec_fn(IdSegment) -> bool, hs: Seq<IdSegment>, k: int, count: int) -> bool {
    stacked(live_in(e, hs[k]), hs[k].v_segment)
    && (exists|s: IdSegment| #[trigger] e(s) && below(s, hs[k]))
    && (forall|f: IdSegment| #[trigger] floor_in(e, hs[k], f) ==> if f.contour_index.hole() { exists|m: int| 0 <= m < k && (#[trigger] hs[m]).contour_index.id() == f.contour_index.id() } else { f.contour_index.id() < count })
}
// the anchors name every hole once
pub open spec fn named(hs: Seq<IdSegment>) -> bool {
    all_ok(hs)
    && (forall|k: int| 0 <= k < hs.len() ==> 0 <= (#[trigger] hs[k]).contour_index.id() < hs.len())
    && (forall|k: int, m: int| 0 <= k < m < hs.len() ==> (#[trigger] hs[k]).contour_index.id() != (#[trigger] hs[m]).contour_index.id())
}
pub open spec fn nest(e: spec_fn(IdSegment) -> bool, hs: Seq<IdSegment>, count: int) -> bool {
    named(hs) && (forall|s: IdSegment| #[trigger] e(s) ==> vs_ok(s.v_segment)) && (in_turn(hs) ==> forall|k: int| #![trigger hs[k]] 0 <= k < hs.len() ==> floors_in(e, hs, k, count))
}
pub open spec fn owner_in(f: IdSegment, owner: Seq<int>) -> int { if f.contour_index.hole() { owner[f.contour_index.id()] } else { f.contour_index.id() } }
// every hole belongs to the shape of the edge below it, directly or through the hole that edge is part of
pub open spec fn grounded(e: spec_fn(IdSegment) -> bool, hs: Seq<IdSegment>, owner: Seq<int>) -> bool { forall|k: int| 0 <= k < hs.len() ==> #[trigger] grounded_at(e, hs, owner, k) }
pub open spec fn grounded_at(e: spec_fn(IdSegment) -> bool, hs: Seq<IdSegment>, owner: Seq<int>, k: int) -> bool {
    exists|f: IdSegment| #[trigger] floor_in(e, hs[k], f) && owner[hs[k].contour_index.id()] == owner_in(f, owner)
}
pub open spec fn homed<E>(e: spec_fn(IdSegment) -> bool, hs: Seq<IdSegment>, shapes: Seq<Seq<E>>, holes: Seq<Seq<E>>, out: Seq<Vec<Vec<E>>>) -> bool {
    &&& out.len() == shapes.len() && outers(out) =~= shapes
    &&& forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i])@.len() >= 1
    &&& exists|owner: Seq<int>, place: Seq<int>| #[trigger] placed(holes, out, owner, place) && grounded(e, hs, owner)
}
pub open spec fn has(segs: Seq<IdSegment>, e: spec_fn(IdSegment) -> bool, x0: i32, x1: i32) -> bool { forall|s: IdSegment| #[trigger] segs.contains(s) <==> e(s) && within(s, x0, x1) }
pub proof fn lemma_nested(segs: Seq<IdSegment>, e: spec_fn(IdSegment) -> bool, x0: i32, x1: i32, hs: Seq<IdSegment>, count: int)
    requires has(segs, e, x0, x1), in_turn(segs), in_turn(hs), nest(e, hs, count), hs.len() > 0, x0 == hs[0].v_segment.a.x, x1 == hs.last().v_segment.a.x
    ensures nested(segs, hs, count), forall|k: int, f: IdSegment| #![trigger is_floor(segs, hs[k], f)] 0 <= k < hs.len() && is_floor(segs, hs[k], f) ==> floor_in(e, hs[k], f)
{
    assert(all_ok(segs)) by {
        assert forall|i: int| 0 <= i < segs.len() implies vs_ok((#[trigger] segs[i]).v_segment) by { assert(segs.contains(segs[i])); assert(e(segs[i])); }
    }
    assert forall|k: int| #![trigger hs[k]] 0 <= k < hs.len() implies floors_ok(segs, hs, k, count) by { lemma_floors(segs, e, x0, x1, hs, k, count); }
    assert forall|k: int, f: IdSegment| #![trigger is_floor(segs, hs[k], f)] 0 <= k < hs.len() && is_floor(segs, hs[k], f) implies floor_in(e, hs[k], f) by { lemma_floors(segs, e, x0, x1, hs, k, count); }
}
pub proof fn lemma_floors(segs: Seq<IdSegment>, e: spec_fn(IdSegment) -> bool, x0: i32, x1: i32, hs: Seq<IdSegment>, k: int, count: int)
    requires has(segs, e, x0, x1), in_turn(hs), nest(e, hs, count), 0 <= k < hs.len(), x0 == hs[0].v_segment.a.x, x1 == hs.last().v_segment.a.x
    ensures floors_ok(segs, hs, k, count), forall|f: IdSegment| #[trigger] is_floor(segs, hs[k], f) ==> floor_in(e, hs[k], f)
{
    hide(under);
    let h = hs[k];
    assert(floors_in(e, hs, k, count));
    assert(vs_ok(h.v_segment));
    assert(x0 <= h.v_segment.a.x) by { if k > 0 { assert(!after(hs[0].v_segment, hs[k].v_segment)); } }
    assert(h.v_segment.a.x <= x1) by { if k < hs.len() - 1 { assert(!after(hs[k].v_segment, hs[hs.len() - 1].v_segment)); } }
    let (l0, l1) = (live_in(e, h), live_at(segs, h));
    assert forall|s: IdSegment| #[trigger] l1(s) <==> l0(s) by {
        if l0(s) { assert(within(s, x0, x1)); assert(segs.contains(s)); }
        if l1(s) { assert(segs.contains(s)); }
    }
    lemma_stacked(l0, l1, h.v_segment);
    let s = choose|s: IdSegment| #[trigger] e(s) && below(s, h);
    assert(l0(s) && l1(s));
    let i = choose|i: int| 0 <= i < segs.len() && segs[i] == s;
    assert(below(segs[i], h));
    assert forall|f: IdSegment| #[trigger] is_floor(segs, h, f) implies floor_in(e, h, f) by {
        assert(e(f));
        assert forall|s: IdSegment| #[trigger] e(s) && below(s, h) implies !under(f.v_segment, s.v_segment) by {
            assert(l0(s) && l1(s));
            let i = choose|i: int| 0 <= i < segs.len() && segs[i] == s;
            assert(below(segs[i], h));
        }
    }
}
// one more hole in its shape
pub proof fn lemma_place<E>(holes: Seq<Seq<E>>, out0: Seq<Vec<Vec<E>>>, out1: Seq<Vec<Vec<E>>>, owner: Seq<int>, place: Seq<int>, s: int, hole: Vec<E>)
    requires placed(holes, out0, owner, place), 0 <= s < out0.len(), out1.len() == out0.len(), out0[s]@.len() > 0,
        out1[s]@ == out0[s]@.push(hole), forall|i: int| 0 <= i < out0.len() && i != s ==> #[trigger] out1[i] == out0[i],
    ensures placed(holes.push(hole@), out1, owner.push(s), place.push(out0[s]@.len() as int)), outers(out1) =~= outers(out0)
{
    let (o, p, l) = (owner.push(s), place.push(out0[s]@.len() as int), holes.push(hole@));
    assert forall|h: int| #![trigger o[h]] 0 <= h < l.len() implies 0 <= o[h] < out1.len() && 1 <= p[h] < out1[o[h]]@.len() && out1[o[h]]@[p[h]]@ == l[h] by {
        if h < holes.len() { assert(o[h] == owner[h]); if o[h] != s { assert(out1[o[h]] == out0[o[h]]); } }
    }
    assert forall|h: int, k: int| #![trigger o[h], o[k]] 0 <= h < k < l.len() implies o[h] != o[k] || p[h] != p[k] by {
        assert(o[h] == owner[h]);
        if k < holes.len() { assert(o[k] == owner[k]); }
    }
    assert forall|t: int, j: int| 0 <= t < out1.len() && 1 <= j < out1[t]@.len() implies #[trigger] held(o, p, l.len() as int, t, j) by {
        if t == s && j == out0[s]@.len() { assert(o[holes.len() as int] == t); }
        else {
            if t != s { assert(out1[t] == out0[t]); }
            assert(held(owner, place, holes.len() as int, t, j));
            let h = choose|h: int| 0 <= h < holes.len() && #[trigger] owner[h] == t && place[h] == j;
            assert(o[h] == t);
        }
    }
    assert(placed(l, out1, o, p));
    assert forall|i: int| 0 <= i < out0.len() implies outers(out1)[i] == #[trigger] outers(out0)[i] by { if i != s { assert(out1[i] == out0[i]); } }
}
pub proof fn lemma_no_holes<E>(out: Seq<Vec<Vec<E>>>)
    requires flat(out)
    ensures placed(Seq::<Seq<E>>::empty(), out, seq![], seq![])
{
    assert forall|s: int, j: int| 0 <= s < out.len() && 1 <= j < out[s]@.len() implies #[trigger] held(seq![], seq![], 0, s, j) by { assert(out[s]@.len() == 1); }
}
// all holes in the only shape
pub proof fn lemma_single<E>(out0: Seq<Vec<Vec<E>>>, out1: Seq<Vec<Vec<E>>>, holes: Seq<Vec<E>>)
    requires flat(out0), out0.len() == 1, out1.len() == 1, out1[0]@ == out0[0]@ + holes
    ensures joined(outers(out0), points(holes), out1)
{
    assert(out0[0]@.len() == 1);
    let owner = Seq::new(holes.len(), |h: int| 0int);
    let place = Seq::new(holes.len(), |h: int| h + 1);
    assert(placed(points(holes), out1, owner, place)) by {
        assert forall|h: int| #![trigger owner[h]] 0 <= h < holes.len() implies 0 <= owner[h] < out1.len() && 1 <= place[h] < out1[owner[h]]@.len() && out1[owner[h]]@[place[h]]@ == points(holes)[h] by { assert(out1[0]@[h + 1] == holes[h]); }
        assert forall|s: int, j: int| 0 <= s < out1.len() && 1 <= j < out1[s]@.len() implies #[trigger] held(owner, place, points(holes).len() as int, s, j) by { assert(owner[j - 1] == s && place[j - 1] == j); }
    }
    assert(outers(out1) =~= outers(out0));
}
}
