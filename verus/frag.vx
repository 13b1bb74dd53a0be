// ---- the fragment strategy: the edges cut up by columns, each column on its own ----
// (std's reserve_exact needs the allocator parameter)
#![feature(allocator_api)]
//@ import meet.vx
//@ import layout.vx
verus! {
// ---- one edge more in the columns ----
pub proof fn lemma_parted_start<C: Send>(b: FragmentBuffer, segs: Seq<Segment<C>>)
    requires blank(b)
    ensures parted(b.groups@, segs, b.layout, 0), border_held(b.on_border@, segs, b.layout, 0), no_blanks(b.on_border@)
{
    assert forall|c: int, f: Fragment| 0 <= c < b.groups@.len() implies !#[trigger] b.groups@[c]@.contains(f) by { assert(b.groups@[c]@.len() == 0); }
}
pub proof fn lemma_parted_step<C: Send>(b0: FragmentBuffer, b1: FragmentBuffer, segs: Seq<Segment<C>>, n: int)
    requires 0 <= n < segs.len(), n <= usize::MAX, added(b0, b1, n as usize, seg_at(segs, n)), parted(b0.groups@, segs, b0.layout, n)
    ensures parted(b1.groups@, segs, b1.layout, n + 1)
{
    let (l, g0, g1, s) = (b0.layout, b0.groups@, b1.groups@, seg_at(segs, n));
    assert forall|c: int, f: Fragment| 0 <= c < g1.len() && #[trigger] g1[c]@.contains(f) implies frag_of(segs, l, c, f) && f.index < n + 1 by {
        let q = choose|q: int| 0 <= q < g1[c]@.len() && g1[c]@[q] == f;
        if in_col(l, s, c) {
            assert(one_more(g0[c]@, g1[c]@, n as usize, s, l, c));
            if q < g0[c]@.len() { assert(g1[c]@.drop_last()[q] == f); assert(g0[c]@.contains(f)); }
        } else { assert(g0[c]@.contains(f)); }
    }
    assert forall|c: int, i: int| 0 <= c < g1.len() && 0 <= i < n + 1 && in_col(l, seg_at(segs, i), c) implies #[trigger] holds(g1[c]@, i) by {
        if in_col(l, s, c) { assert(one_more(g0[c]@, g1[c]@, n as usize, s, l, c)); }
        if i < n {
            assert(holds(g0[c]@, i));
            let f = choose|f: Fragment| #[trigger] g0[c]@.contains(f) && f.index == i;
            let q = choose|q: int| 0 <= q < g0[c]@.len() && g0[c]@[q] == f;
            if in_col(l, s, c) { assert(g1[c]@.drop_last()[q] == f); assert(g1[c]@[q] == f); } else { assert(g1[c] == g0[c]); }
            assert(g1[c]@.contains(f));
        } else {
            let f = g1[c]@.last();
            assert(g1[c]@.contains(f));
        }
    }
}
// ---- the vertical edges along the borders ----
pub open spec fn along(s: XSegment, l: GridLayout, c: int) -> bool { s.a.x == s.b.x && c == first_col(l, s) && c > 0 && s.a.x == pos_of(l, c) }
pub open spec fn border_held<C: Send>(m: Map<usize, Vec<BorderVSegment>>, segs: Seq<Segment<C>>, l: GridLayout, n: int) -> bool {
    &&& forall|c: usize, v: BorderVSegment| #[trigger] bordered(m, c).contains(v) ==> v.id < n && v.id < segs.len() && v == border_of(v.id, seg_at(segs, v.id as int)) && along(seg_at(segs, v.id as int), l, c as int)
    &&& forall|c: usize, i: int| 0 <= i < n && #[trigger] along(seg_at(segs, i), l, c as int) ==> bordered(m, c).contains(border_of(i as usize, seg_at(segs, i)))
}
pub proof fn lemma_border_step<C: Send>(b0: FragmentBuffer, b1: FragmentBuffer, segs: Seq<Segment<C>>, n: int)
    requires 0 <= n < segs.len(), n <= usize::MAX, added(b0, b1, n as usize, seg_at(segs, n)), border_held(b0.on_border@, segs, b0.layout, n)
    ensures border_held(b1.on_border@, segs, b1.layout, n + 1)
{
    let (l, m0, m1, s) = (b0.layout, b0.on_border@, b1.on_border@, seg_at(segs, n));
    assert forall|c: usize, v: BorderVSegment| #[trigger] bordered(m1, c).contains(v) implies v.id < n + 1 && v.id < segs.len() && v == border_of(v.id, seg_at(segs, v.id as int)) && along(seg_at(segs, v.id as int), l, c as int) by {
        let q = choose|q: int| 0 <= q < bordered(m1, c).len() && bordered(m1, c)[q] == v;
        if q < bordered(m0, c).len() { assert(bordered(m0, c)[q] == v); assert(bordered(m0, c).contains(v)); }
    }
    assert forall|c: usize, i: int| 0 <= i < n + 1 && #[trigger] along(seg_at(segs, i), l, c as int) implies bordered(m1, c).contains(border_of(i as usize, seg_at(segs, i))) by {
        let v = border_of(i as usize, seg_at(segs, i));
        if i < n {
            assert(bordered(m0, c).contains(v));
            let q = choose|q: int| 0 <= q < bordered(m0, c).len() && bordered(m0, c)[q] == v;
            assert(bordered(m1, c)[q] == v);
        } else { assert(bordered(m1, c)[bordered(m0, c).len() as int] == v); }
    }
}
pub open spec fn fair_true<C: Send>(segs: Seq<Segment<C>>, n: Seq<LineMark>) -> bool { forall|m: LineMark| #[trigger] n.contains(m) ==> fair_mark(segs, m) && true_mark(segs, m) }
// the ends on the border of the column c are marked on the edges along it
pub open spec fn border_at<C: Send>(segs: Seq<Segment<C>>, l: GridLayout, marks: Seq<LineMark>, c: int) -> bool {
    forall|x: int, y: int| 0 <= x < segs.len() && 0 <= y < segs.len() && #[trigger] border_case(l, seg_at(segs, x), seg_at(segs, y)) && first_col(l, seg_at(segs, x)) == c && inside(seg_at(segs, y).b, seg_at(segs, x))
        ==> has_mark(marks, x, seg_at(segs, y).b)
}
pub proof fn lemma_vertical_inside(t: XSegment, p: IntPoint)
    requires seg_ok(t), t.a.x == t.b.x, p.x == t.a.x
    ensures inside(p, t) <==> t.a.y < p.y < t.b.y
{
    let h = t.b.y - t.a.y;
    assert(area2(t.a, t.b, p) == 0 * (t.b.y - p.y) - (t.b.x - p.x) * h);
    assert(0 * (t.b.y - p.y) == 0 && 0 * h == 0);
}
pub proof fn lemma_border_key<C: WindingCount>(segs: Seq<Segment<C>>, l: GridLayout, g: Seq<Vec<Fragment>>, m: Map<usize, Vec<BorderVSegment>>, c: usize, n: Seq<LineMark>)
    requires
        ready(segs), segs.len() <= usize::MAX, parted(g, segs, l, segs.len() as int), border_held(m, segs, l, segs.len() as int), 0 < c <= g.len(),
        borders(g[c - 1]@, pos_of(l, c as int), bordered(m, c), bordered(m, c).len() as int, n)
    ensures fair_true(segs, n), border_at(segs, l, n, c as int)
{
    let (s, bx, vs) = (g[c - 1]@, pos_of(l, c as int), bordered(m, c));
    assert forall|k: LineMark| #[trigger] n.contains(k) implies fair_mark(segs, k) && true_mark(segs, k) by {
        assert(some_border(s, bx, vs, vs.len() as int, k));
        let (v, p) = choose|v: int, p: IntPoint| 0 <= v < vs.len() && #[trigger] border_mark(k, vs[v], p) && end_at(s, bx, p);
        assert(vs.contains(vs[v]));
        let i = k.index as int;
        let t = seg_at(segs, i);
        assert(along(t, l, c as int));
        let q = choose|q: int| 0 <= q < s.len() && p == (#[trigger] s[q]).x_segment.b;
        assert(s.contains(s[q]));
        assert(frag_of(segs, l, c - 1, s[q]));
        let z = s[q].index as int;
        let o = seg_at(segs, z);
        assert(seg_ok(segs[i].x_segment) && seg_ok(segs[z].x_segment));
        lemma_vertical_inside(t, p);
        assert(inside(p, t));
        lemma_ends_on(o);
        assert(meets_at(t, o, p));
        lemma_fair_end(segs, p, i, z);
    }
    assert forall|x: int, y: int| 0 <= x < segs.len() && 0 <= y < segs.len() && #[trigger] border_case(l, seg_at(segs, x), seg_at(segs, y)) && first_col(l, seg_at(segs, x)) == c && inside(seg_at(segs, y).b, seg_at(segs, x))
        implies has_mark(n, x, seg_at(segs, y).b) by {
        let (t, o) = (seg_at(segs, x), seg_at(segs, y));
        assert(seg_ok(segs[x].x_segment) && seg_ok(segs[y].x_segment));
        assert(along(seg_at(segs, x), l, c as int));
        let v = border_of(x as usize, t);
        assert(vs.contains(v));
        let w = choose|w: int| 0 <= w < vs.len() && vs[w] == v;
        lemma_border_cols(l, o);
        assert(in_col(l, seg_at(segs, y), c - 1));
        assert(holds(g[c - 1]@, y));
        let f = choose|f: Fragment| #[trigger] s.contains(f) && f.index == y;
        assert(frag_of(segs, l, c - 1, f));
        let q = choose|q: int| 0 <= q < s.len() && s[q] == f;
        assert(o.b == s[q].x_segment.b);
        lemma_vertical_inside(t, o.b);
        let k = LineMark { index: x as usize, point: o.b };
        assert(border_mark(k, vs[w], o.b));
        assert(end_at(s, bx, o.b));
        assert(some_border(s, bx, vs, vs.len() as int, k));
    }
}
pub proof fn lemma_border_cols(l: GridLayout, o: XSegment)
    requires seg_ok(o), o.a.x < o.b.x
    ensures first_col(l, o) <= last_col(l, o)
{
    if l.power >= 0 {
        lemma_pow2_pos(l.power as nat);
        lemma_div_is_ordered(o.a.x - l.min_x, o.b.x - 1 - l.min_x, step(l));
    }
}
// the pieces in another order
pub proof fn lemma_parted_same<C: Send>(g0: Seq<Vec<Fragment>>, g1: Seq<Vec<Fragment>>, segs: Seq<Segment<C>>, l: GridLayout, n: int)
    requires parted(g0, segs, l, n), same_lists(g0, g1)
    ensures parted(g1, segs, l, n)
{
    assert forall|c: int, f: Fragment| 0 <= c < g1.len() && #[trigger] g1[c]@.contains(f) implies frag_of(segs, l, c, f) && f.index < n by {
        lemma_perm_contains(g1[c]@, g0[c]@);
        assert(g0[c]@.contains(f));
    }
    assert forall|c: int, i: int| 0 <= c < g1.len() && 0 <= i < n && in_col(l, seg_at(segs, i), c) implies #[trigger] holds(g1[c]@, i) by {
        lemma_perm_contains(g1[c]@, g0[c]@);
        assert(holds(g0[c]@, i));
        let f = choose|f: Fragment| #[trigger] g0[c]@.contains(f) && f.index == i;
        assert(g1[c]@.contains(f));
    }
}
// ---- all that was looked at in a pass ----
pub proof fn lemma_columns_more(g: Seq<Vec<Fragment>>, m0: Seq<LineMark>, m1: Seq<LineMark>, radius: int)
    requires columns_done(g, m0, radius), forall|m: LineMark| #[trigger] m0.contains(m) ==> m1.contains(m)
    ensures columns_done(g, m1, radius)
{
    assert forall|c: int| 0 <= c < g.len() implies all_looked(#[trigger] g[c]@, m1, false, radius) by {
        assert(all_looked(g[c]@, m0, false, radius));
        assert forall|f: Fragment, h: Fragment| #[trigger] g[c]@.contains(f) && #[trigger] g[c]@.contains(h) && seg_lt(f.x_segment, h.x_segment) && boxes_meet(f.rect, h.rect) implies looked(m1, false, f, h, radius) by {
            lemma_looked_more(m0, m1, false, false, f, h, radius);
        }
    }
}
pub proof fn lemma_pass_marked<C: WindingCount>(b: FragmentBuffer, segs: Seq<Segment<C>>, m0: Seq<LineMark>, m1: Seq<LineMark>, need: bool, radius: int)
    requires
        ready(segs), segs.len() <= usize::MAX, all_fit(b, segs), parted(b.groups@, segs, b.layout, segs.len() as int), 1 <= radius <= 0x1000_0000_0000_0000,
        lists_looked(b.groups@, m0, need, radius, b.groups@.len() as int), lists_from(b.groups@, need, m0, radius),
        extends(m1, m0), fair_true(segs, tail(m1, m0)), border_done(segs, b.layout, m1)
    ensures marked_on(segs, m1, need, all_pairs())
{
    reveal(marked_on);
    lemma_tail_contains(m0, m1);
    assert forall|m: LineMark| #[trigger] m1.contains(m) implies fair_mark(segs, m) && (need || true_mark(segs, m)) by {
        if m0.contains(m) { lemma_from_pieces(b.groups@, segs, b.layout, segs.len() as int, need, m, radius); }
    }
    if !need {
        lemma_columns_more(b.groups@, m0, m1, radius);
        assert forall|x: int, y: int| 0 <= x < segs.len() && 0 <= y < segs.len() && x != y implies #[trigger] shown(segs, m1, x, y) by {
            if x < y { lemma_pair_shown(b, segs, m1, radius, x, y); } else { lemma_pair_shown(b, segs, m1, radius, y, x); }
        }
    }
}

// ---- the strategy ----
#[verifier::external_body]
pub fn as_mut_borders(v: &mut Vec<BorderVSegment>) -> (r: &mut [BorderVSegment])
    ensures r@ == old(v)@, final(r)@ == final(v)@
{ v.as_mut_slice() }
// std: the keys of a map, each once
#[verifier::external_body]
pub fn keys_of(m: &HashMap<usize, Vec<BorderVSegment>>) -> (r: Vec<usize>)
    ensures r@.no_duplicates(), forall|k: usize| #[trigger] r@.contains(k) <==> m@.contains_key(k)
{ m.keys().copied().collect() }
#[verifier::external_body]
pub fn no_keys(m: &HashMap<usize, Vec<BorderVSegment>>) -> (r: bool)
    ensures r <==> m@ == Map::<usize, Vec<BorderVSegment>>::empty()
{ m.is_empty() }
// std: iter().map(..)
#[verifier::external_body]
pub fn edges_of<C: Send>(segments: &Vec<Segment<C>>) -> (r: Vec<XSegment>)
    ensures r@.len() == segments@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == segments@[i].x_segment
{ segments.iter().map(|it| it.x_segment).collect() }
pub open spec fn column(l: GridLayout) -> Frame { Frame { x0: l.min_x as int, x1: l.max_x as int, y0: -0x8000_0000, y1: 0x7fff_ffff } }
pub proof fn lemma_all_fit<C: WindingCount>(b: FragmentBuffer, segs: Seq<Segment<C>>)
    requires layout_ok(b.layout), b.groups@.len() == cols_of(b.layout), ready(segs), framed(segs, column(b.layout))
    ensures all_fit(b, segs)
{
    assert forall|i: int| 0 <= i < segs.len() implies #[trigger] fits(b, seg_at(segs, i)) by { assert(spans(segs[i].x_segment, column(b.layout))); assert(seg_ok(segs[i].x_segment)); }
}
// the column c has edges along its border: it is one of the columns, and not the first
pub proof fn lemma_key<C: Send>(b: FragmentBuffer, segs: Seq<Segment<C>>, c: usize)
    requires all_fit(b, segs), border_held(b.on_border@, segs, b.layout, segs.len() as int), no_blanks(b.on_border@), b.on_border@.contains_key(c), layout_ok(b.layout)
    ensures 0 < c < b.groups@.len(), c <= 0x7fff_ffff, c * step(b.layout) <= 0x7fff_ffff, -0x4000_0000 < pos_of(b.layout, c as int) < 0x4000_0000
{
    let v = bordered(b.on_border@, c)[0];
    assert(bordered(b.on_border@, c).contains(v));
    let s = seg_at(segs, v.id as int);
    assert(along(s, b.layout, c as int));
    assert(fits(b, seg_at(segs, v.id as int)));
    lemma_fits(b, s);
}
pub proof fn lemma_border_more<C: Send>(segs: Seq<Segment<C>>, l: GridLayout, m0: Seq<LineMark>, m1: Seq<LineMark>, c: int)
    requires border_at(segs, l, m0, c), forall|m: LineMark| #[trigger] m0.contains(m) ==> m1.contains(m)
    ensures border_at(segs, l, m1, c)
{}
pub proof fn lemma_border_all<C: Send>(segs: Seq<Segment<C>>, l: GridLayout, m: Map<usize, Vec<BorderVSegment>>, g: int, keys: Seq<usize>, marks: Seq<LineMark>)
    requires
        border_held(m, segs, l, segs.len() as int), forall|k: usize| m.contains_key(k) ==> #[trigger] keys.contains(k), segs.len() <= usize::MAX,
        forall|q: int| 0 <= q < keys.len() ==> border_at(segs, l, marks, #[trigger] keys[q] as int),
        g <= usize::MAX, forall|i: int| 0 <= i < segs.len() ==> first_col(l, #[trigger] seg_at(segs, i)) < g
    ensures border_done(segs, l, marks)
{
    assert forall|x: int, y: int| 0 <= x < segs.len() && 0 <= y < segs.len() && #[trigger] border_case(l, seg_at(segs, x), seg_at(segs, y)) && inside(seg_at(segs, y).b, seg_at(segs, x)) implies has_mark(marks, x, seg_at(segs, y).b) by {
        let t = seg_at(segs, x);
        let c = first_col(l, t) as usize;
        assert(along(seg_at(segs, x), l, c as int));
        assert(bordered(m, c).contains(border_of(x as usize, t)));
        assert(m.contains_key(c));
        assert(keys.contains(c));
        let q = choose|q: int| 0 <= q < keys.len() && keys[q] == c;
        assert(border_at(segs, l, marks, keys[q] as int));
    }
}
pub proof fn lemma_first_frame<C: WindingCount>(segs: Seq<Segment<C>>, l: GridLayout)
    requires ready(segs), segs.len() > 0, layout_ok(l), l.min_x == segs[0].x_segment.a.x, forall|i: int| 0 <= i < segs.len() ==> (#[trigger] segs[i]).x_segment.b.x <= l.max_x
    ensures framed(segs, column(l))
{
    assert forall|i: int| 0 <= i < segs.len() implies spans((#[trigger] segs[i]).x_segment, column(l)) by {
        assert(seg_ok(segs[i].x_segment));
        if i > 0 { assert(seg_lt(segs[0].x_segment, segs[i].x_segment)); }
    }
}
pub proof fn lemma_edges<C: WindingCount>(segs: Seq<Segment<C>>, e: Seq<XSegment>)
    requires ready(segs), e.len() == segs.len(), forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == segs[i].x_segment
    ensures forall|i: int| 0 <= i < e.len() ==> seg_ok(#[trigger] e[i]) && e[0].a.x <= e[i].a.x
{
    assert forall|i: int| 0 <= i < e.len() implies seg_ok(#[trigger] e[i]) && e[0].a.x <= e[i].a.x by {
        assert(seg_ok(segs[i].x_segment));
        if i > 0 { assert(seg_lt(segs[0].x_segment, segs[i].x_segment)); }
    }
}
impl SnapRadius { pub open spec fn radius_of(&self) -> int { pow2(self.current as nat) as int } }
pub proof fn lemma_radius(r: SnapRadius)
    requires r.ok()
    ensures 1 <= r.radius_of() <= 0x1000_0000_0000_0000
{ lemma_pow2_small(r.current as nat); }
impl SplitSolver {
    // the strategy of the edges that lie in too little width to be cut up
    #[verifier::external_body]
    pub fn tree_split<C: WindingCount>(&self, snap_radius: SnapRadius, segments: Vec<Segment<C>>) -> (r: Vec<Segment<C>>)
        requires ready(segments@), snap_radius.ok()
        ensures split_from(segments@, r@)
    { unimplemented!() }
//@ fn split/solver_fragment.rs SplitSolver fragment_split
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ attr #[verifier::loop_isolation(false)]
//@ index_loops
//@ sub <<<let layout = if let Some(layout) = GridLayout::new($A, segments.len()) {>>> <<<let edges = edges_of(&segments); let ghost e0 = edges@; proof { lemma_edges(segments@, e0); } let layout = if let Some(layout) = GridLayout::new(edges, segments.len()) {>>>
//@ sub <<<let mut buffer = FragmentBuffer::new($A);>>> <<<proof { assert forall|i: int| 0 <= i < begun.len() implies (#[trigger] begun[i]).x_segment.b.x <= layout.max_x by { assert(e0[i].b.x <= layout.max_x); } lemma_first_frame(segments@, layout); } let mut buffer = FragmentBuffer::new($A);>>>
//@ sub <<<buffer.init_fragment_buffer($A);>>> <<<let edges = edges_of(&segments); let ghost (n, s0) = (segments@.len() as int, segments@); proof { lemma_all_fit(buffer, s0); assert forall|i: int| 0 <= i < edges@.len() implies #[trigger] fits(buffer, edges@[i]) by { assert(fits(buffer, seg_at(s0, i))); } } buffer.init_fragment_buffer(edges); proof { lemma_parted_start(buffer, s0); lemma_all_fit(buffer, s0); } let ghost b1 = buffer;>>>
//@ sub <<<let mut marks = Vec::new();>>> <<<let mut marks: Vec<LineMark> = Vec::new();>>>
//@ sub <<<need_to_fix = self.process($A);>>> <<<let ghost (b2, m2) = (buffer, marks@); proof { lemma_parted_ok(b2.groups@, s0, b2.layout, n); lemma_cols_fit(b2.layout); lemma_radius(snap_radius); } need_to_fix = self.process($A); let ghost (mp, b3) = (marks@, buffer); let ghost mut visited: Seq<usize> = Seq::empty(); proof { assert(m2 =~= Seq::empty()); lemma_tail_all(mp); lemma_parted_same(b2.groups@, b3.groups@, s0, b2.layout, n); assert(mp.take(mp.len() as int) =~= mp); assert(tail(mp, mp) =~= Seq::empty()); }>>>
//@ sub <<<if !buffer.on_border.is_empty() {>>> <<<if !no_keys(&buffer.on_border) {>>>
//@ sub <<<for (&index, segments) in buffer.on_border.iter_mut() {>>> <<<let keys = keys_of(&buffer.on_border); proof { visited = keys@; assert forall|q: int| 0 <= q < keys@.len() implies buffer.on_border@.contains_key(#[trigger] keys@[q]) by { assert(keys@.contains(keys@[q])); } } for kk in 0..keys.len() { let index = keys[kk]; let ghost m4 = marks@; proof { assert(keys@.contains(index)); lemma_key(b2, s0, index); broadcast use vstd::std_specs::hash::group_hash_axioms; } let segments = buffer.on_border.get_mut(&index).unwrap(); proof { assert(segments@ == bordered(b3.on_border@, index)); }>>>
//@ sub <<<if let Some(fragments) = buffer.groups.get($A) {>>> <<<if $A < buffer.groups.len() { let fragments = &buffer.groups[$A];>>>
//@ sub <<<Self::on_border_split(border_x, fragments, segments, &mut marks);>>> <<<Self::on_border_split(border_x, fragments, as_mut_borders(segments), &mut marks); proof { lemma_border_key(s0, b3.layout, b3.groups@, b3.on_border@, index, tail(marks@, m4)); lemma_tail_step(mp, m4, marks@); lemma_tail_contains(m4, marks@); assert forall|q: int| 0 <= q < kk + 1 implies border_at(s0, b3.layout, marks@, #[trigger] keys@[q] as int) by { if q < kk { lemma_border_more(s0, b3.layout, m4, marks@, keys@[q] as int); } else { lemma_border_more(s0, b3.layout, tail(marks@, m4), marks@, index as int); } } }>>>
//@ sub <<<if marks.is_empty() {>>> <<<proof { assert forall|i: int| 0 <= i < n implies first_col(b3.layout, #[trigger] seg_at(s0, i)) < b3.groups@.len() by { assert(fits(b2, seg_at(s0, i))); lemma_fits(b2, seg_at(s0, i)); } lemma_border_all(s0, b3.layout, b3.on_border@, b3.groups@.len() as int, visited, marks@); lemma_pass_marked(b2, s0, mp, marks@, need_to_fix, snap_radius.radius_of()); if marks@.len() == 0 { lemma_unmarked(s0, marks@, need_to_fix); assert(split_from(begun, segments@)); } } if marks.is_empty() {>>>
//@ sub <<<segments = self.apply(&mut marks, $A);>>> <<<let ghost (s1, m1) = (segments@, marks@); proof { lemma_fair(s1, m1, need_to_fix); /* room: the pieces of one pass, and their counts, fit in memory and in 32 bits */ assume(smag(s1) + mark_mag(s1, m1) <= i32::MAX && s1.len() + m1.len() < usize::MAX); } segments = self.apply(&mut marks, $A); proof { lemma_passed(begun, s1, m1, marks@, segments@, need_to_fix); assert(framed(s1, column(buffer.layout))); }>>>
//@ spec
        requires ready(segments@), snap_radius.ok()
        ensures split_from(segments@, r@)
//@ entry
        let ghost begun = segments@;
        proof { lemma_begun(begun); }
//@ loop 0
            invariant
                snap_radius.ok(), under_way(begun, segments@, need_to_fix), marks@.len() == 0, layout_ok(buffer.layout), blank(buffer), no_blanks(buffer.on_border@),
                framed(segments@, column(buffer.layout))
//@ loop 1
                invariant
                    segments@ == s0, buffer.layout == b1.layout, buffer.groups@.len() == b1.groups@.len(), all_fit(buffer, s0), no_blanks(buffer.on_border@),
                    parted(buffer.groups@, s0, buffer.layout, it1 as int), border_held(buffer.on_border@, s0, buffer.layout, it1 as int)
//@ loopbody 1
                let ghost b0 = buffer;
                proof { assert(fits(buffer, seg_at(s0, it1 as int))); }
//@ loopend 1
                proof { lemma_parted_step(b0, buffer, s0, it1 as int); lemma_border_step(b0, buffer, s0, it1 as int); lemma_all_fit(buffer, s0); }
//@ loop 2
                    invariant
                        buffer.layout == b3.layout, buffer.groups == b3.groups, extends(marks@, mp), fair_true(s0, tail(marks@, mp)),
                        forall|q: int| 0 <= q < kk ==> border_at(s0, b3.layout, marks@, #[trigger] keys@[q] as int),
                        forall|q: int| kk <= q < keys@.len() ==> buffer.on_border@.contains_key(#[trigger] keys@[q]) && buffer.on_border@[keys@[q]] == b3.on_border@[keys@[q]]
//@ endfn
}
}
fn main() {}
