// ---- mesh/boolean.rs: the contours of strokes and outlines out of the graph ----
//@ import tours.vx
verus! {
//@ item mesh/boolean.rs struct OffsetCountBoolean
//@ item mesh/boolean.rs struct SubjectOffsetStrategy
//@ item mesh/boolean.rs const BOLD_BIT
//@ item segm/segment.rs const SUBJ_TOP
// what links.vx proves of is_fill_top
pub broadcast axiom fn subject_top(fill: SegmentFill) ensures #[trigger] fill_top(OverlayRule::Subject, fill) == (fill & 1u8 == 1u8);

// ---- how often the band lies above and below an edge; marked edges are bold ----
pub open spec fn strong(fill: SegmentFill) -> bool { fill & 4u8 != 0u8 }
pub open spec fn fits(a: int) -> bool { -0x8000_0000 <= a <= 0x7fff_ffff }
pub trait FillStrategy<C> {
    spec fn counts(this: C, bot: C) -> bool;
    spec fn given(this: C, bot: C, r: (C, SegmentFill)) -> bool;
    fn add_and_fill(this: C, bot: C) -> (r: (C, SegmentFill))
        requires Self::counts(this, bot)
        ensures Self::given(this, bot, r);
}
impl FillStrategy<OffsetCountBoolean> for SubjectOffsetStrategy {
    open spec fn counts(this: OffsetCountBoolean, bot: OffsetCountBoolean) -> bool { fits(this.subj + bot.subj) }
    // filled where the count is above zero, and marked bold where the edge is
    open spec fn given(this: OffsetCountBoolean, bot: OffsetCountBoolean, r: (OffsetCountBoolean, SegmentFill)) -> bool {
        &&& r.0.subj == this.subj + bot.subj
        &&& (r.1 & 1u8 == 1u8) == (this.subj + bot.subj > 0) && (r.1 & 2u8 == 2u8) == (bot.subj > 0) && strong(r.1) == this.bold && r.1 < 8
    }
//@ fn mesh/boolean.rs FillStrategy<OffsetCountBoolean> for SubjectOffsetStrategy add_and_fill
//@ nopub
//@ exit
        proof {
            assert(forall|a: u8, b: u8, c: u8| #![trigger (a | (b << 1u8) | (c << 2u8))] a <= 1 && b <= 1 && c <= 1 ==> {
                let r = a | (b << 1u8) | (c << 2u8);
                (r & 1u8 == 1u8) == (a == 1) && (r & 2u8 == 2u8) == (b == 1) && (r & 4u8 != 0u8) == (c == 1) && r < 8
            }) by (bit_vector);
        }
//@ endfn
}
pub trait WindingCount: Sized {
    spec fn joint(a: Self, b: Self, r: Self) -> bool;
    spec fn small(a: Self, b: Self) -> bool;
    spec fn back(a: Self, r: Self) -> bool;
    spec fn turnable(a: Self) -> bool;
    spec fn holds(a: Self) -> bool;
    fn is_not_empty(&self) -> (r: bool) ensures r == Self::holds(*self);
    fn add(self, count: Self) -> (r: Self) requires Self::small(self, count) ensures Self::joint(self, count, r);
    fn apply(&mut self, count: Self) requires Self::small(*old(self), count) ensures Self::joint(*old(self), count, *final(self));
    fn invert(self) -> (r: Self) requires Self::turnable(self) ensures Self::back(self, r);
}
impl WindingCount for OffsetCountBoolean {
    // edges on top of each other: their counts are summed, and one bold edge is enough
    open spec fn joint(a: Self, b: Self, r: Self) -> bool { r.subj == a.subj + b.subj && r.bold == (a.bold || b.bold) }
    open spec fn small(a: Self, b: Self) -> bool { fits(a.subj + b.subj) }
    open spec fn back(a: Self, r: Self) -> bool { r.subj == -a.subj && r.bold == a.bold }
    open spec fn turnable(a: Self) -> bool { a.subj > -0x8000_0000 }
    open spec fn holds(a: Self) -> bool { a.subj != 0 }
//@ fn mesh/boolean.rs WindingCount for OffsetCountBoolean is_not_empty
//@ nopub
//@ endfn
//@ fn mesh/boolean.rs WindingCount for OffsetCountBoolean add
//@ nopub
//@ endfn
//@ fn mesh/boolean.rs WindingCount for OffsetCountBoolean apply
//@ nopub
//@ endfn
//@ fn mesh/boolean.rs WindingCount for OffsetCountBoolean invert
//@ nopub
//@ endfn
}
impl OverlayLink {
//@ fn mesh/boolean.rs OverlayLink is_bold
//@ spec
        ensures r == strong(self.fill)
//@ entry
        proof { assert(1u8 << 2usize == 4u8) by (bit_vector); }
//@ endfn
}

// ---- one contour ----
pub open spec fn strong_at(g: OverlayGraph, i: int) -> bool { strong(g.links@[i].fill) }
pub open spec fn strong_walk(g: OverlayGraph, walk: Seq<usize>) -> bool
    decreases walk.len()
{
    walk.len() > 0 && (strong_at(g, walk.last() as int) || strong_walk(g, walk.drop_last()))
}
pub proof fn lemma_strong(g: OverlayGraph, walk: Seq<usize>, i: usize)
    ensures strong_walk(g, walk.push(i)) == (strong_walk(g, walk) || strong_at(g, i as int))
{
    assert(walk.push(i).drop_last() =~= walk);
}
pub open spec fn bold_contour(g: OverlayGraph, v0: Seq<bool>, v1: Seq<bool>, link: usize, last: usize, raw: Seq<IntPoint>, dir: bool, bold: bool) -> bool {
    exists|walk: Seq<usize>, ids: Seq<usize>| #[trigger] contour_of(g, v0, v1, link, raw, walk, ids, dir) && ids[0] == last && bold == strong_walk(g, walk)
}
impl OverlayGraph {
//@ fn mesh/boolean.rs OverlayGraph get_fill_path
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
            old(visited)@.len() == self.links@.len(), even(self.nodes@, old(visited)@),
            start_data.link_id < self.links@.len(), !old(visited)@[start_data.link_id as int],
            joins(self.links@[start_data.link_id as int], start_data.last_node_id, start_data.node_id),
            *old(bold) == strong_at(*self, start_data.link_id as int),
            start_data.begin == self.links@[start_data.link_id as int].near(start_data.last_node_id).point,
        ensures
            even(self.nodes@, final(visited)@), final(visited)@.len() == old(visited)@.len(),
            bold_contour(*self, old(visited)@, final(visited)@, start_data.link_id, start_data.last_node_id, r@, clockwise, *final(bold)),
//@ entry
        hide(walked);
        let ghost pts = choose|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts);
        let ghost v0 = visited@;
//@ before_loop 0
        let ghost mut walk = seq![link_id];
        let ghost mut ids = seq![last_node_id, node_id];
        proof {
            lemma_parity(*self, pts, v0, link_id, last_node_id, node_id, last_node_id);
            lemma_strong(*self, seq![], link_id);
            assert(seq![link_id] =~= Seq::<usize>::empty().push(link_id));
            lemma_first(*self, v0, link_id, last_node_id, node_id, clockwise);
            assert(visited@ =~= v0.update(link_id as int, true));
        }
//@ loop 0
            invariant
                graph_ok(*self, pts), v0.len() == self.links@.len(), visited@.len() == v0.len(), even_but(self.nodes@, visited@, node_id as int, last_node_id as int),
                last_node_id < self.nodes@.len(), node_id < self.nodes@.len(),
                walked(*self, v0, walk, ids, clockwise), visited@ == marked(v0, walk), traced(*self, path@, walk, ids),
                *bold == strong_walk(*self, walk), ids[0] == last_node_id, ids.last() == node_id, walk.last() == link_id, walk[0] == start_data.link_id,
                forall|k: int| 0 < k < walk.len() ==> #[trigger] ids[k] != last_node_id,
            decreases left(visited@)
//@ loopbody 0
            let ghost (from, at, v) = (link_id, node_id, visited@);
            let ghost list = listed(self.nodes@[at as int]);
            proof {
                lemma_arrived(*self, v0, walk, ids, clockwise);
                assert(walk[walk.len() - 1] == link_id);
                lemma_node_ok(*self, pts, node_id as usize, link_id);
                lemma_visited(v0, walk);
                assert(unseen(list, v) % 2 == 1);
                lemma_some(list, v);
                let q = choose|q: int| 0 <= q < list.len() && list[q] == from;
                match self.nodes@[at as int] {
                    OverlayNode::Bridge(b) => {
                        assert(b@ =~= seq![b[0], b[1]]);
                        lemma_pair(b[0], b[1], v);
                        assert(list[0] == b[0] && list[1] == b[1]);
                    }
                    OverlayNode::Cross(c) => {}
                }
            }
//@ after link
            proof {
                match self.nodes@[at as int] {
                    OverlayNode::Bridge(b) => {
                        assert(candidate(list, v, if b[0] == from { 1 } else { 0 }));
                        lemma_self(way(*self, from as int, at), way(*self, link_id as int, at), clockwise);
                    }
                    OverlayNode::Cross(c) => {}
                }
                assert(exists|p: int| #[trigger] candidate(list, v, p) && list[p] == link_id);
                assert(turns(*self, v, at, from, link_id, clockwise));
            }
//@ loopend 0
            proof {
                assert(joins(self.links@[link_id as int], at, node_id));
                lemma_parity(*self, pts, v, link_id, at, node_id, last_node_id);
                lemma_step(*self, v0, walk, ids, link_id, node_id, clockwise);
                assert(visited@ =~= v.update(link_id as int, true));
                lemma_strong(*self, walk, link_id);
                walk = walk.push(link_id);
                ids = ids.push(node_id);
            }
//@ after_loop 0
        proof {
            assert(contour_of(*self, v0, visited@, start_data.link_id, path@, walk, ids, clockwise));
        }
//@ endfn
}

// ---- all of them ----
pub open spec fn weak(c: Seq<IntPoint>) -> bool { c[0] == c[c.len() - 1] }
// a contour without a bold edge ends with its first point again
pub open spec fn labelled(c: Seq<IntPoint>, bold: bool) -> Seq<IntPoint> { if bold { c } else { c.push(c[0]) } }
pub trait WeakPath {
    spec fn line(&self) -> Seq<IntPoint>;
    fn mark_weak(&mut self, bold: bool)
        requires old(self).line().len() > 0
        ensures final(self).line() == labelled(old(self).line(), bold);
    fn is_weak(&self) -> (r: bool)
        requires self.line().len() > 0
        ensures r == weak(self.line());
}
impl WeakPath for IntPath {
    open spec fn line(&self) -> Seq<IntPoint> { self@ }
//@ fn mesh/boolean.rs WeakPath for IntPath mark_weak
//@ nopub
//@ endfn
//@ fn mesh/boolean.rs WeakPath for IntPath is_weak
//@ nopub
//@ endfn
}
// i_shape: in a contour it has simplified, no point is that before it
pub broadcast axiom fn distinct_ends(c: Seq<IntPoint>) ensures (#[trigger] cleaned(c, true)).len() >= 3 ==> !weak(cleaned(c, true));
// so the label tells which contours have a bold edge
pub proof fn lemma_label(c: Seq<IntPoint>, bold: bool)
    ensures cleaned(c, true).len() >= 3 ==> weak(labelled(cleaned(c, true), bold)) == !bold
{
    distinct_ends(c);
}
pub open spec fn label_of(g: OverlayGraph, x: Tour) -> Seq<IntPoint> { labelled(cleaned(x.raw, true), strong_walk(g, x.walk)) }
pub open spec fn taken(x: Tour, hole: bool, min_area: usize) -> bool { x.hole == hole && large(cleaned(x.raw, true), min_area) }
pub open spec fn chosen(g: OverlayGraph, t: Seq<Tour>, hole: bool, min_area: usize) -> Seq<Seq<IntPoint>>
    decreases t.len()
{
    if t.len() == 0 { seq![] } else {
        let s = chosen(g, t.drop_last(), hole, min_area);
        if taken(t.last(), hole, min_area) { s.push(label_of(g, t.last())) } else { s }
    }
}
// holes go into the shapes of all outer contours; shapes without a bold edge outside are left out then with their holes, and so are holes without a bold edge
pub open spec fn outer_weak() -> spec_fn(IntShape) -> bool { |s: IntShape| !weak(s@[0]@) }
pub open spec fn inner_weak() -> spec_fn(IntPath) -> bool { |c: IntPath| !weak(c@) }
pub open spec fn thinned(a: Seq<IntShape>, b: Seq<IntShape>, n: int) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i])@ == if i < n { a[i]@.filter(inner_weak()) } else { a[i]@ }
}
pub open spec fn thin(mid: Seq<IntShape>, r: Seq<IntShape>) -> bool { thinned(mid.filter(outer_weak()), r, r.len() as int) }
pub open spec fn bands(g: OverlayGraph, filter: Seq<bool>, cw: bool, min_area: usize, r: Seq<IntShape>) -> bool {
    exists|t: Seq<Tour>, mid: Seq<IntShape>| #[trigger] joined(chosen(g, t, false, min_area), chosen(g, t, true, min_area), mid) && toured(g, filter, t, OverlayRule::Subject, cw) && thin(mid, r)
}
// Vec::retain
#[verifier::external_body]
pub fn keep<E, F: Fn(&E) -> bool>(v: &mut Vec<E>, f: F, Ghost(p): Ghost<spec_fn(E) -> bool>)
    requires forall|i: int| #![trigger old(v)@[i]] 0 <= i < old(v)@.len() ==> call_requires(f, (&old(v)@[i],)), forall|x: E, k: bool| #[trigger] call_ensures(f, (&x,), k) ==> k == p(x)
    ensures final(v)@ == old(v)@.filter(p)
{ v.retain(|x| f(x)) }
pub open spec fn filled(s: Seq<Seq<IntPoint>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0 }
// no shape is empty and no contour is
pub open spec fn full(s: Seq<IntShape>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] whole(s[i]@) }
pub open spec fn whole(s: Seq<IntPath>) -> bool { s.len() > 0 && s[0]@.len() > 0 && forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j])@.len() > 0 }
pub proof fn lemma_filled(g: OverlayGraph, t: Seq<Tour>, hole: bool, min_area: usize)
    ensures filled(chosen(g, t, hole, min_area))
    decreases t.len()
{
    if t.len() > 0 { lemma_filled(g, t.drop_last(), hole, min_area); }
}
pub proof fn lemma_full(a: Seq<Seq<IntPoint>>, b: Seq<Seq<IntPoint>>, mid: Seq<IntShape>)
    requires joined(a, b, mid), filled(a), filled(b)
    ensures full(mid), full(mid.filter(outer_weak()))
{
    if mid.len() > 0 {
        let (owner, place) = choose|owner: Seq<int>, place: Seq<int>| #[trigger] placed(b, mid, owner, place);
        assert forall|i: int| 0 <= i < mid.len() implies #[trigger] whole(mid[i]@) by {
            assert(mid[i]@.len() > 0);
            assert forall|j: int| 0 <= j < mid[i]@.len() implies (#[trigger] mid[i]@[j])@.len() > 0 by {
                if j == 0 { assert(outers(mid)[i] == a[i]); }
                else {
                    assert(held(owner, place, b.len() as int, i, j));
                    let h = choose|h: int| 0 <= h < b.len() && #[trigger] owner[h] == i && place[h] == j;
                    assert(b[h].len() > 0);
                }
            }
        }
    }
    let f = mid.filter(outer_weak());
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] whole(f[i]@) by {
        assert(f.contains(f[i]));
        mid.lemma_filter_contains_rev(outer_weak(), f[i]);
        let k = mid.index_of(f[i]);
        assert(mid.contains(f[i]));
        assert(whole(mid[k]@));
    }
}
pub proof fn lemma_chosen(g: OverlayGraph, t: Seq<Tour>, x: Tour, min_area: usize)
    ensures
        forall|hole: bool| #[trigger] chosen(g, t.push(x), hole, min_area) == if taken(x, hole, min_area) { chosen(g, t, hole, min_area).push(label_of(g, x)) } else { chosen(g, t, hole, min_area) },
{
    assert(t.push(x).drop_last() =~= t);
}
pub proof fn lemma_next_bold(g: OverlayGraph, v0: Seq<bool>, t: Seq<Tour>, cw: bool, v2: Seq<bool>, raw: Seq<IntPoint>, i: usize, hole: bool, bold: bool) -> (x: Tour)
    requires
        tours_ok(g, v0, t, OverlayRule::Subject, cw), after_tours(v0, t).len() == g.links@.len(), left_top(g, after_tours(v0, t), i as int), hole == fill_top(OverlayRule::Subject, g.links@[i as int].fill),
        bold_contour(g, after_tours(v0, t), v2, i, if hole == cw { g.links@[i as int].b.id } else { g.links@[i as int].a.id }, raw, hole == cw, bold),
    ensures
        tours_ok(g, v0, t.push(x), OverlayRule::Subject, cw), after_tours(v0, t.push(x)) == v2, v2.len() == g.links@.len(), left(v2) < left(after_tours(v0, t)),
        forall|j: int| 0 <= j < v2.len() && after_tours(v0, t)[j] ==> #[trigger] v2[j],
        x.raw == raw, x.hole == hole, bold == strong_walk(g, x.walk),
{
    let v1 = after_tours(v0, t);
    let last = if hole == cw { g.links@[i as int].b.id } else { g.links@[i as int].a.id };
    let dir = hole == cw;
    let (walk, ids) = choose|walk: Seq<usize>, ids: Seq<usize>| #[trigger] contour_of(g, v1, v2, i, raw, walk, ids, dir) && ids[0] == last && bold == strong_walk(g, walk);
    let x = Tour { walk, ids, raw, hole };
    assert(tour_ok(g, v1, x, OverlayRule::Subject, cw));
    lemma_tours_push(g, v0, t, OverlayRule::Subject, cw, x);
    lemma_fewer(v1, walk);
    assert forall|j: int| 0 <= j < v2.len() && v1[j] implies #[trigger] v2[j] by { lemma_tour(g, v1, x, OverlayRule::Subject, cw, j); }
    x
}
// which links a rule leaves out, given to it as marks (proved for every rule and fill by C02)
pub uninterp spec fn left_out(rule: OverlayRule, fill: SegmentFill) -> bool;
pub open spec fn rule_marks(links: Seq<OverlayLink>, rule: OverlayRule) -> Seq<bool> { Seq::new(links.len(), |i: int| left_out(rule, links[i].fill)) }
pub trait MaskFilter {
    spec fn all(&self) -> Seq<OverlayLink>;
    fn filter_by_rule(&self, fill_rule: OverlayRule) -> (r: Vec<bool>)
        ensures r@ == rule_marks(self.all(), fill_rule);
}
impl MaskFilter for Vec<OverlayLink> {
    open spec fn all(&self) -> Seq<OverlayLink> { self@ }
    #[verifier::external_body] fn filter_by_rule(&self, fill_rule: OverlayRule) -> (r: Vec<bool>) { unimplemented!() }
}
impl OverlayGraph {
//@ fn mesh/boolean.rs OverlayGraph extract_offset_shapes
//@ sub <<<buffer.as_mut_slice()>>> <<<as_mut_slice(&mut buffer)>>>
//@ sub <<<let mut shapes = Vec::new();>>> <<<let mut shapes: Vec<IntShape> = Vec::new();>>>
//@ sub <<<let mut holes = Vec::new();>>> <<<let mut holes: Vec<IntPath> = Vec::new();>>>
//@ sub <<<shapes.retain(|shape| $B);>>> <<<let ghost mid = shapes@; proof { lemma_filled(*self, t, false, min_area); lemma_filled(*self, t, true, min_area); lemma_full(chosen(*self, t, false, min_area), chosen(*self, t, true, min_area), mid); } proof { assert forall|i: int| #![trigger shapes@[i]] 0 <= i < shapes@.len() implies whole(shapes@[i]@) by { assert(whole(mid[i]@)); } } keep(&mut shapes, |shape: &IntShape| -> (k: bool) requires whole(shape@) ensures k == !weak(shape@[0]@) { $B }, Ghost(outer_weak()));>>>
//@ sub <<<for shape in shapes.iter_mut() {>>> <<<let ghost f0 = shapes@; let n = shapes.len(); for at in 0..n { let shape = &mut shapes[at];>>>
//@ sub <<<shape.retain(|path| $B);>>> <<<keep(shape, |path: &IntPath| -> (k: bool) requires path@.len() > 0 ensures k == !weak(path@) { $B }, Ghost(inner_weak()));>>>
//@ sub <<<let mut anchors = Vec::new();>>> <<<let mut anchors: Vec<IdSegment> = Vec::new();>>>
//@ sub <<<debug_assert_eq!($X);>>> <<<>>>
//@ sub <<<anchors.sort_by(|$A, $C| $B);>>> <<<sort_by(&mut anchors, |$A: &IdSegment, $C: &IdSegment| -> (o: Ordering) { $B });>>>
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
            forward(self.links@), in_order(self.links@), filter@.len() == self.links@.len(), even(self.nodes@, filter@),
        ensures
            bands(*self, filter@, main_direction is Clockwise, min_area, r@),
//@ entry
        hide(graph_ok);
        hide(even_but);
        hide(forward);
        hide(in_order);
        hide(tours_ok);
        hide(contour_of);
        hide(left_top);
        hide(wrap);
        hide(area);
        hide(joined);
        let ghost v0 = filter@;
        proof { lemma_no_tours(*self, v0, OverlayRule::Subject, main_direction is Clockwise); }
        let ghost mut t: Seq<Tour> = seq![];
//@ loop 0
            invariant
                exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
                forward(self.links@), in_order(self.links@), v0.len() == self.links@.len(), visited@.len() == v0.len(), link_index <= v0.len(),
                even(self.nodes@, visited@), visited@ == after_tours(v0, t), tours_ok(*self, v0, t, OverlayRule::Subject, clockwise),
                clockwise == (main_direction is Clockwise),
                forall|j: int| 0 <= j < link_index ==> #[trigger] visited@[j],
                forall|i: int| 0 <= i < shapes@.len() ==> (#[trigger] shapes@[i])@.len() == 1,
                outers(shapes@) == chosen(*self, t, false, min_area), points(holes@) == chosen(*self, t, true, min_area),
                anchors@.len() == holes@.len(),
            decreases left(visited@), v0.len() - link_index
//@ before left_top_link
            let ghost v1 = visited@;
            let ghost t1 = t;
//@ after left_top_link
            proof {
                lemma_left_top(*self, visited@, left_top_link as int);
                lemma_two_ends(*self, left_top_link as int);
            }
//@ after path
            let ghost raw = path@;
            proof {
                subject_top(self.links@[left_top_link as int].fill);
                let x = lemma_next_bold(*self, v0, t, clockwise, visited@, raw, left_top_link, is_hole, bold);
                t = t.push(x);
                lemma_chosen(*self, t1, x, min_area);
            }
//@ after is_valid
            let ghost (s1, h1) = (shapes@, holes@);
//@ loopend 0
            proof {
                assert(outers(shapes@) =~= chosen(*self, t, false, min_area));
                assert(points(holes@) =~= chosen(*self, t, true, min_area));
            }
//@ loop 1
            invariant n == f0.len(), full(f0), thinned(f0, shapes@, at as int)
//@ loopbody 1
            proof { assert(whole(f0[at as int]@)); assert(shapes@[at as int]@ == f0[at as int]@); }
//@ after_loop 1
        proof { assert(thin(mid, shapes@)); assert(joined(chosen(*self, t, false, min_area), chosen(*self, t, true, min_area), mid)); }
//@ after_loop 0
        proof {
            assert forall|i: int| #![trigger v0[i]] 0 <= i < v0.len() implies times_all(t, i) == (if v0[i] { 0int } else { 1 }) by { lemma_tours(*self, v0, t, OverlayRule::Subject, clockwise, i); }
            assert(toured(*self, v0, t, OverlayRule::Subject, clockwise));
        }
//@ endfn
//@ fn mesh/boolean.rs OverlayGraph extract_offset
//@ spec
        requires
            exists|pts: Seq<IntPoint>| #[trigger] graph_ok(*self, pts),
            forward(self.links@), in_order(self.links@), even(self.nodes@, rule_marks(self.links@, OverlayRule::Subject)),
        ensures
            bands(*self, rule_marks(self.links@, OverlayRule::Subject), main_direction is Clockwise, min_area, r@),
//@ endfn
}
}
fn main() {}
