// ---- bind/: holes are given to the shapes they lie in ----
//@ import nearest.vx
//@ include path.vx
//@ include right.vx
//@ include vseg.vx
verus! {
//@ item i_shape:int/shape.rs type IntContour
//@ item i_shape:int/shape.rs type IntShape
//@ item bind/segment.rs struct ContourIndex
//@ item bind/segment.rs struct IdSegment
//@ item bind/solver.rs struct BindSolution
//@ item bind/solver.rs struct ShapeBinder

// where the later of the two starts, s is below o
pub open spec fn under_start(s: VSegment, o: VSegment) -> bool {
    if pt_lt(s.a, o.a) { area2(s.a, o.a, s.b) > 0 } else if s.a == o.a { area2(s.a, o.b, s.b) > 0 } else { area2(o.a, o.b, s.a) > 0 }
}
// s comes after o: it starts later, or turns more to the left
pub open spec fn after(s: VSegment, o: VSegment) -> bool { pt_lt(o.a, s.a) || (s.a == o.a && cp(way_of(s), way_of(o)) < 0) }

// `after` is the opposite of an order
pub proof fn lemma_after_trans(s: VSegment, x: VSegment, o: VSegment)
    requires vs_ok(s), vs_ok(x), vs_ok(o), !after(s, x), !after(x, o)
    ensures !after(s, o)
{
    if s.a == x.a && x.a == o.a { lemma_right_trans(way_of(s), way_of(x), way_of(o)); }
}

impl ContourIndex {
    pub open spec fn hole(self) -> bool { self.data % 2 == 1 }
    pub open spec fn id(self) -> int { self.data as int / 2 }
    pub const EMPTY: ContourIndex = ContourIndex { data: usize::MAX };
//@ fn bind/segment.rs ContourIndex is_hole
//@ spec
        ensures r == self.hole()
//@ entry
        proof { let d = self.data; assert((d & 1 == 1) == (d % 2 == 1)) by (bit_vector); }
//@ endfn
//@ fn bind/segment.rs ContourIndex index
//@ spec
        ensures r == self.id()
//@ entry
        proof { let d = self.data; assert(d >> 1 == d / 2) by (bit_vector); }
//@ endfn
//@ fn bind/segment.rs ContourIndex new_hole
//@ spec
        requires index < 0x8000_0000_0000_0000
        ensures r.hole(), r.id() == index
//@ entry
        proof { assert(((index << 1) | 1) % 2 == 1 && ((index << 1) | 1) / 2 == index) by (bit_vector) requires index < 0x8000_0000_0000_0000usize; }
//@ endfn
//@ fn bind/segment.rs ContourIndex new_shape
//@ spec
        requires index < 0x8000_0000_0000_0000
        ensures !r.hole(), r.id() == index
//@ entry
        proof { assert((index << 1) % 2 == 0 && (index << 1) / 2 == index) by (bit_vector) requires index < 0x8000_0000_0000_0000usize; }
//@ endfn
}
impl IdSegment {
//@ fn bind/segment.rs IdSegment new
//@ spec
        ensures r.contour_index == data, r.v_segment.a == a, r.v_segment.b == b
//@ endfn
//@ fn bind/segment.rs IdSegment with_segment
//@ spec
        ensures r.contour_index == data, r.v_segment == v_segment
//@ endfn
}
impl VSegment {
//@ fn geom/v_segment.rs VSegment is_under_segment
//@ spec
        requires in_range(self.a), in_range(self.b), in_range(other.a), in_range(other.b)
        ensures r == under_start(*self, *other)
//@ endfn
//@ fn geom/v_segment.rs VSegment cmp_by_angle
//@ sub <<<debug_assert!(self.a == other.a);>>> <<<>>>
//@ spec
        requires in_range(self.a), in_range(self.b), in_range(other.a), in_range(other.b), self.a == other.a
        ensures r == (if after(*self, *other) { Ordering::Greater } else if after(*other, *self) { Ordering::Less } else { Ordering::Equal })
//@ entry
        proof { lemma_flip(way_of(*self), way_of(*other)); }
//@ endfn
}

// ---- the lowest edge at the most left point of a contour ----
pub open spec fn next_of(n: int, i: int) -> int { if i + 1 < n { i + 1 } else { 0 } }
pub open spec fn prev_of(n: int, i: int) -> int { if i > 0 { i - 1 } else { n - 1 } }
pub open spec fn corner(s: Seq<IntPoint>, i: int) -> IntPoint { s[i] }
pub open spec fn is_edge(s: Seq<IntPoint>, g: VSegment) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] corner(s, i) == g.a && (s[next_of(s.len() as int, i)] == g.b || s[prev_of(s.len() as int, i)] == g.b)
}
// the edge from a to q is not below g
pub open spec fn not_lower(a: IntPoint, q: IntPoint, g: VSegment) -> bool { !under(VSegment { a, b: q }, g) }
pub open spec fn lowest_to(s: Seq<IntPoint>, g: VSegment, n: int) -> bool {
    forall|i: int| #![trigger corner(s, i)] 0 <= i < n && corner(s, i) == g.a ==> not_lower(s[i], s[next_of(s.len() as int, i)], g) && not_lower(s[i], s[prev_of(s.len() as int, i)], g)
}
pub open spec fn most_left(s: Seq<IntPoint>, p: IntPoint) -> bool { forall|i: int| 0 <= i < s.len() ==> !pt_lt(#[trigger] s[i], p) }
pub open spec fn lowest(s: Seq<IntPoint>, g: VSegment) -> bool { is_edge(s, g) && most_left(s, g.a) && lowest_to(s, g, s.len() as int) }
// a contour: points in range, no two in a row are the same
pub open spec fn contour_ok(s: Seq<IntPoint>) -> bool {
    s.len() >= 3 && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> in_range(s[i])) && (forall|i: int| #![trigger corner(s, i)] 0 <= i < s.len() ==> s[i] != s[next_of(s.len() as int, i)])
}
pub proof fn lemma_under_trans(a: IntPoint, x: IntPoint, y: IntPoint, z: IntPoint)
    requires in_range(a), in_range(x), in_range(y), in_range(z), pt_lt(a, x), pt_lt(a, y), pt_lt(a, z)
    ensures under(VSegment { a, b: x }, VSegment { a, b: y }) && under(VSegment { a, b: y }, VSegment { a, b: z }) ==> under(VSegment { a, b: x }, VSegment { a, b: z }),
        !(under(VSegment { a, b: x }, VSegment { a, b: y }) && under(VSegment { a, b: y }, VSegment { a, b: x })),
        !under(VSegment { a, b: x }, VSegment { a, b: x }),
{
    lemma_area_cp(a, y, x);
    lemma_area_cp(a, x, y);
    lemma_area_cp(a, z, y);
    lemma_area_cp(a, z, x);
    lemma_area_cp(a, x, x);
    lemma_right_trans(diff(x, a), diff(y, a), diff(z, a));
}
// the edges at point i are taken into account
pub proof fn lemma_lowest(s: Seq<IntPoint>, o: VSegment, g: VSegment, m: VSegment, i: int)
    requires
        contour_ok(s), 0 <= i < s.len(), in_range(o.b), in_range(o.a),
        is_edge(s, o),
        forall|k: int| 0 <= k < i ==> !pt_lt(#[trigger] s[k], o.a),
        most_left(s, o.a) ==> lowest_to(s, o, i),
        !pt_lt(o.a, s[i]),
        ({
            let e0 = VSegment { a: s[i], b: s[next_of(s.len() as int, i)] };
            let e1 = VSegment { a: s[i], b: s[prev_of(s.len() as int, i)] };
            m == (if pt_lt(s[i], o.a) || under(e0, o) { e0 } else { o }) && g == (if pt_lt(s[i], m.a) || under(e1, m) { e1 } else { m })
        }),
    ensures
        is_edge(s, g), g.a == s[i],
        forall|k: int| 0 <= k <= i ==> !pt_lt(#[trigger] s[k], g.a),
        most_left(s, g.a) ==> lowest_to(s, g, i + 1),
{
    let n = s.len() as int;
    let e0 = VSegment { a: s[i], b: s[next_of(n, i)] };
    let e1 = VSegment { a: s[i], b: s[prev_of(n, i)] };
    assert(corner(s, i) == s[i]);
    assert(is_edge(s, e0) && is_edge(s, e1));
    if most_left(s, g.a) {
        lemma_edge_right(s, o);
        lemma_edge_right(s, e0);
        lemma_edge_right(s, e1);
        lemma_under_trans(g.a, e0.b, e1.b, e0.b);
        lemma_under_trans(g.a, e1.b, e0.b, e1.b);
        if o.a == g.a {
            lemma_under_trans(g.a, e0.b, o.b, e1.b);
            lemma_under_trans(g.a, e1.b, o.b, e0.b);
            lemma_under_trans(g.a, o.b, e0.b, e1.b);
            lemma_under_trans(g.a, e1.b, e0.b, o.b);
            lemma_under_trans(g.a, e0.b, e1.b, o.b);
            lemma_under_trans(g.a, e1.b, m.b, e0.b);
        }
        assert forall|k: int| #![trigger corner(s, k)] 0 <= k < i + 1 && corner(s, k) == g.a implies not_lower(s[k], s[next_of(n, k)], g) && not_lower(s[k], s[prev_of(n, k)], g) by {
            if k < i {
                assert(o.a == g.a && corner(s, k) == s[k]);
                let (c0, c1) = (VSegment { a: s[k], b: s[next_of(n, k)] }, VSegment { a: s[k], b: s[prev_of(n, k)] });
                assert(is_edge(s, c0) && is_edge(s, c1));
                lemma_edge_right(s, c0);
                lemma_edge_right(s, c1);
                lemma_under_trans(g.a, c0.b, g.b, m.b);
                lemma_under_trans(g.a, c0.b, m.b, o.b);
                lemma_under_trans(g.a, c1.b, g.b, m.b);
                lemma_under_trans(g.a, c1.b, m.b, o.b);
            }
        }
    }
}
pub proof fn lemma_edge_right(s: Seq<IntPoint>, g: VSegment)
    requires contour_ok(s), is_edge(s, g)
    ensures in_range(g.a), in_range(g.b), g.a != g.b, most_left(s, g.a) ==> pt_lt(g.a, g.b)
{
    let n = s.len() as int;
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] corner(s, i) == g.a && (s[next_of(n, i)] == g.b || s[prev_of(n, i)] == g.b);
    let (j, k) = (next_of(n, i), prev_of(n, i));
    assert(next_of(n, k) == i);
    assert(corner(s, i) != s[j] && corner(s, k) != s[i]);
}
pub trait LeftBottomSegment {
    spec fn pts(&self) -> Seq<IntPoint>;
    fn left_bottom_segment(&self) -> (r: VSegment)
        requires contour_ok(self.pts()), self.pts().len() < 0x8000_0000_0000_0000
        ensures lowest(self.pts(), r);
}
impl LeftBottomSegment for IntContour {
    open spec fn pts(&self) -> Seq<IntPoint> { self@ }
//@ fn bind/solver.rs LeftBottomSegment for IntContour left_bottom_segment
//@ index_loops
//@ sub <<<for b in [$X, $Y] { let s = $S; if $C { best = s; } }>>> <<<{ let b = $X; let s = $S; if $C { best = s; } } let ghost m = best; { let b = $Y; let s = $S; if $C { best = s; } } proof { lemma_lowest(self@, o, best, m, it0 as int); }>>>
//@ nopub
//@ after best
        proof {
            assert(corner(self@, 0) == self@[0]);
            vstd::arithmetic::div_mod::lemma_small_mod(1, n as nat);
            assert(is_edge(self@, best));
        }
//@ loop 0
            invariant
                n == self@.len(), n < 0x8000_0000_0000_0000, contour_ok(self@), is_edge(self@, best),
                forall|k: int| 0 <= k < it0 ==> !pt_lt(#[trigger] self@[k], best.a),
                most_left(self@, best.a) ==> lowest_to(self@, best, it0 as int),
//@ loopbody 0
            let ghost o = best;
            proof {
                lemma_edge_right(self@, best);
                assert(it0 + 1 == n ==> (it0 + 1) as int % n as int == 0) by (nonlinear_arith);
                assert(it0 == 0 ==> (it0 + n - 1) as int % n as int == n - 1) by { if it0 == 0 { vstd::arithmetic::div_mod::lemma_small_mod((n - 1) as nat, n as nat); } }
                assert(it0 > 0 ==> (it0 + n - 1) as int % n as int == it0 - 1) by { if it0 > 0 { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish((it0 - 1) as int, n as int); vstd::arithmetic::div_mod::lemma_small_mod((it0 - 1) as nat, n as nat); } }
                assert(it0 + 1 < n ==> (it0 + 1) as int % n as int == it0 + 1) by { if it0 + 1 < n { vstd::arithmetic::div_mod::lemma_small_mod((it0 + 1) as nat, n as nat); } }
            }
//@ endfn
}

// ---- the order of segments ----
pub open spec fn in_turn(s: Seq<IdSegment>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !after((#[trigger] s[i]).v_segment, (#[trigger] s[j]).v_segment) }
pub open spec fn same_items(o: Seq<IdSegment>, n: Seq<IdSegment>) -> bool { o.to_multiset() == n.to_multiset() && o.len() == n.len() }
pub open spec fn all_ok(s: Seq<IdSegment>) -> bool { forall|i: int| 0 <= i < s.len() ==> vs_ok((#[trigger] s[i]).v_segment) }
impl IdSegment {
//@ fn bind/solver.rs IdSegment cmp_by_a_then_by_angle
//@ sub <<<self.v_segment.a.cmp($C).then_with(|| $B)>>> <<<match self.v_segment.a.cmp($C) { Ordering::Equal => $B, o => o }>>>
//@ spec
        requires in_range(self.v_segment.a), in_range(self.v_segment.b), in_range(other.v_segment.a), in_range(other.v_segment.b)
        ensures r == (if after(self.v_segment, other.v_segment) { Ordering::Greater } else if after(other.v_segment, self.v_segment) { Ordering::Less } else { Ordering::Equal })
//@ endfn
}
// the sort of the key-sort crate (or of rayon): the same items, in the order of the given comparison
#[verifier::external_body]
pub fn smart_bin_sort_by<F: Fn(&IdSegment, &IdSegment) -> Ordering>(v: &mut [IdSegment], solver: &Solver, compare: F)
    requires
        all_ok(old(v)@),
        forall|a: &IdSegment, b: &IdSegment| vs_ok(a.v_segment) && vs_ok(b.v_segment) ==> #[trigger] compare.requires((a, b)),
        forall|a: &IdSegment, b: &IdSegment, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> (o == Ordering::Greater <==> after(a.v_segment, b.v_segment)),
    ensures same_items(old(v)@, final(v)@), in_turn(final(v)@)
{ unimplemented!() }
// std: a stable sort of a part of the slice, in the order of the given comparison
#[verifier::external_body]
pub fn sort_part<F: Fn(&IdSegment, &IdSegment) -> Ordering>(v: &mut [IdSegment], start: usize, end: usize, compare: F)
    requires
        all_ok(old(v)@), start <= end <= old(v)@.len(),
        forall|a: &IdSegment, b: &IdSegment| vs_ok(a.v_segment) && vs_ok(b.v_segment) && a.v_segment.a == b.v_segment.a ==> #[trigger] compare.requires((a, b)),
        forall|a: &IdSegment, b: &IdSegment, o: Ordering| #[trigger] compare.ensures((a, b), o) ==> (o == Ordering::Greater <==> after(a.v_segment, b.v_segment)),
        forall|i: int, j: int| start <= i < end && start <= j < end ==> (#[trigger] old(v)@[i]).v_segment.a == (#[trigger] old(v)@[j]).v_segment.a,
    ensures
        same_items(old(v)@, final(v)@), in_turn(final(v)@.subrange(start as int, end as int)),
        same_items(old(v)@.subrange(start as int, end as int), final(v)@.subrange(start as int, end as int)),
        forall|i: int| 0 <= i < start || end <= i < final(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
{ unimplemented!() }
pub trait SortByAngle {
    spec fn items(&self) -> Seq<IdSegment>;
    fn sort_by_a_then_by_angle(&mut self, solver: &Solver)
        requires all_ok(old(self).items())
        ensures same_items(old(self).items(), final(self).items()), in_turn(final(self).items());
    fn add_sort_by_angle(&mut self)
        requires all_ok(old(self).items()), forall|i: int, j: int| 0 <= i < j < old(self).items().len() ==> !pt_lt((#[trigger] old(self).items()[j]).v_segment.a, (#[trigger] old(self).items()[i]).v_segment.a)
        ensures same_items(old(self).items(), final(self).items()), in_turn(final(self).items());
}
pub open spec fn by_start(s: Seq<IdSegment>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !pt_lt((#[trigger] s[j]).v_segment.a, (#[trigger] s[i]).v_segment.a) }
pub proof fn lemma_same(o: Seq<IdSegment>, n: Seq<IdSegment>, i: int)
    requires same_items(o, n), 0 <= i < n.len()
    ensures exists|j: int| 0 <= j < o.len() && #[trigger] o[j] == n[i]
{
    n.to_multiset_ensures();
    o.to_multiset_ensures();
    assert(n.contains(n[i]));
    assert(n.to_multiset().contains(n[i]));
    assert(o.contains(n[i]));
}
// the next run of segments with a common start is in order
pub proof fn lemma_turn(s0: Seq<IdSegment>, s1: Seq<IdSegment>, starts: Seq<IntPoint>, st: int, en: int)
    requires
        0 <= st < en <= s0.len(), s1.len() == s0.len(), starts.len() == s0.len(), all_ok(s0),
        forall|i: int| 0 <= i < starts.len() ==> (#[trigger] s0[i]).v_segment.a == starts[i],
        forall|i: int, j: int| 0 <= i < j < starts.len() ==> !pt_lt(#[trigger] starts[j], #[trigger] starts[i]),
        forall|i: int| st <= i < en ==> #[trigger] starts[i] == starts[st],
        st > 0 ==> starts[st - 1] != starts[st],
        in_turn(s0.take(st)),
        same_items(s0.subrange(st, en), s1.subrange(st, en)), in_turn(s1.subrange(st, en)),
        forall|i: int| 0 <= i < st || en <= i < s1.len() ==> #[trigger] s1[i] == s0[i],
    ensures
        in_turn(s1.take(en)), all_ok(s1),
        forall|i: int| 0 <= i < starts.len() ==> (#[trigger] s1[i]).v_segment.a == starts[i],
{
    let (p0, p1) = (s0.subrange(st, en), s1.subrange(st, en));
    assert forall|i: int| 0 <= i < starts.len() implies (#[trigger] s1[i]).v_segment.a == starts[i] && vs_ok(s1[i].v_segment) by {
        if st <= i < en {
            lemma_same(p0, p1, i - st);
            let j = choose|j: int| 0 <= j < p0.len() && #[trigger] p0[j] == p1[i - st];
            assert(p0[j] == s0[j + st] && p1[i - st] == s1[i]);
            assert(starts[j + st] == starts[st]);
        } else { assert(s1[i] == s0[i]); }
    }
    let t = s1.take(en);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies !after((#[trigger] t[i]).v_segment, (#[trigger] t[j]).v_segment) by {
        if i >= st {
            assert(p1[i - st] == t[i] && p1[j - st] == t[j]);
        } else if j < st {
            assert(s0.take(st)[i] == t[i] && s0.take(st)[j] == t[j]);
        } else {
            assert(starts[j] == starts[st] && t[i].v_segment.a == starts[i]);
            if i < st - 1 { assert(!pt_lt(starts[st - 1], starts[i])); }
            assert(!pt_lt(starts[st], starts[st - 1]));
        }
    }
}
impl SortByAngle for [IdSegment] {
    open spec fn items(&self) -> Seq<IdSegment> { self@ }
//@ fn bind/solver.rs SortByAngle for [IdSegment] sort_by_a_then_by_angle
//@ sub <<<self.smart_bin_sort_by(solver, |$A, $C| $B)>>> <<<smart_bin_sort_by(self, solver, |$A: &IdSegment, $C: &IdSegment| -> (o: Ordering) requires vs_ok($A.v_segment), vs_ok($C.v_segment) ensures o == Ordering::Greater <==> after($A.v_segment, $C.v_segment) { $B })>>>
//@ nopub
//@ endfn
//@ fn bind/solver.rs SortByAngle for [IdSegment] add_sort_by_angle
//@ sub <<<self[$S..$E].sort_by(|$A, $C| $B)>>> <<<sort_part(self, $S, $E, |$A: &IdSegment, $C: &IdSegment| -> (o: Ordering) requires vs_ok($A.v_segment), vs_ok($C.v_segment), $A.v_segment.a == $C.v_segment.a ensures o == Ordering::Greater <==> after($A.v_segment, $C.v_segment) { $B })>>>
//@ nopub
//@ entry
        let ghost o = self@;
        let ghost starts = Seq::new(o.len(), |i: int| o[i].v_segment.a);
//@ loop 0
            invariant
                same_items(o, self@), self@.len() == starts.len(), all_ok(self@), all_ok(o), start <= self@.len(),
                forall|i: int| 0 <= i < starts.len() ==> (#[trigger] self@[i]).v_segment.a == starts[i],
                forall|i: int, j: int| 0 <= i < j < starts.len() ==> !pt_lt(#[trigger] starts[j], #[trigger] starts[i]),
                0 < start < starts.len() ==> starts[start - 1] != starts[start as int],
                in_turn(self@.take(start as int)),
            decreases self@.len() - start
//@ loopbody 0
            let ghost s0 = self@;
            let ghost st = start;
//@ loop 1
                invariant
                    self@ == s0, start < end <= self@.len(), a == s0[start as int].v_segment.a, st == start,
                    forall|i: int| start <= i < end ==> (#[trigger] s0[i]).v_segment.a == a,
                decreases self@.len() - end
//@ loopend 0
            proof {
                assert forall|i: int| st <= i < start implies #[trigger] starts[i] == starts[st as int] by { assert(s0[i].v_segment.a == starts[i] && s0[st as int].v_segment.a == starts[st as int]); }
                if start < starts.len() { assert(s0[start as int].v_segment.a == starts[start as int] && s0[start - 1].v_segment.a == starts[start - 1]); }
                if start == st + 1 { assert(s0.subrange(st as int, start as int) =~= self@.subrange(st as int, start as int)); }
                lemma_turn(s0, self@, starts, st as int, start as int);
            }
//@ after_loop 0
        assert(self@.take(start as int) =~= self@);
//@ endfn
}

// ---- the floor of a hole: the nearest edge below its anchor ----
// where the sweep stands at anchor h, segment s is live and below the anchor
pub open spec fn below(s: IdSegment, h: IdSegment) -> bool { !after(s.v_segment, h.v_segment) && s.v_segment.b.x > h.v_segment.a.x && under(s.v_segment, h.v_segment) }
pub open spec fn is_floor(segs: Seq<IdSegment>, h: IdSegment, f: IdSegment) -> bool {
    segs.contains(f) && below(f, h) && forall|i: int| 0 <= i < segs.len() && below(#[trigger] segs[i], h) ==> !under(f.v_segment, segs[i].v_segment)
}
// the live segments and the anchor are stacked: a height orders them
pub open spec fn stacked(live: spec_fn(IdSegment) -> bool, h: VSegment) -> bool {
    exists|rank: spec_fn(VSegment) -> int| #![trigger ranked(live, h, rank)] ranked(live, h, rank)
}
pub open spec fn ranked(live: spec_fn(IdSegment) -> bool, h: VSegment, rank: spec_fn(VSegment) -> int) -> bool {
    (forall|s: IdSegment, o: IdSegment| live(s) && live(o) ==> (#[trigger] under(s.v_segment, o.v_segment) <==> rank(s.v_segment) < rank(o.v_segment)))
    && forall|s: IdSegment| live(s) ==> (#[trigger] under(s.v_segment, h) <==> rank(s.v_segment) < rank(h))
}
pub open spec fn alive(items: Seq<IdSegment>, time: i32) -> spec_fn(IdSegment) -> bool { |s: IdSegment| items.contains(s) && s.v_segment.b.x > time }
// the ordered collection of i_tree: keys expire at their right end; first_less gives the value of the highest key below the given one
pub trait KeyExpCollection: Sized {
    spec fn items(&self) -> Seq<IdSegment>;
    fn insert(&mut self, key: VSegment, val: ContourIndex, time: i32)
        ensures final(self).items() == old(self).items().push(IdSegment { contour_index: val, v_segment: key });
    fn first_less(&mut self, time: i32, default: ContourIndex, key: VSegment) -> (r: ContourIndex)
        requires stacked(alive(old(self).items(), time), key)
        ensures
            final(self).items() == old(self).items(),
            (exists|s: IdSegment| #[trigger] alive(old(self).items(), time)(s) && under(s.v_segment, key)) ==>
                exists|f: IdSegment| #[trigger] alive(old(self).items(), time)(f) && under(f.v_segment, key) && f.contour_index == r
                    && forall|s: IdSegment| #[trigger] alive(old(self).items(), time)(s) && under(s.v_segment, key) ==> !under(f.v_segment, s.v_segment);
}
// the shape of the floor, directly or through the hole it belongs to
pub open spec fn owner(f: IdSegment, parent: Seq<usize>) -> int { if f.contour_index.hole() { parent[f.contour_index.id()] as int } else { f.contour_index.id() } }
pub open spec fn bound(segs: Seq<IdSegment>, h: IdSegment, parent: Seq<usize>) -> bool {
    exists|f: IdSegment| #[trigger] is_floor(segs, h, f) && parent[h.contour_index.id()] == owner(f, parent)
}
// what the sweep needs: anchors and segments in order, stacked at every anchor; every anchor has a floor,
// a floor is part of a shape or of a hole that comes before
pub open spec fn live_at(segs: Seq<IdSegment>, h: IdSegment) -> spec_fn(IdSegment) -> bool { |s: IdSegment| segs.contains(s) && !after(s.v_segment, h.v_segment) && s.v_segment.b.x > h.v_segment.a.x }
pub open spec fn floors_ok(segs: Seq<IdSegment>, hs: Seq<IdSegment>, k: int, count: int) -> bool {
    stacked(live_at(segs, hs[k]), hs[k].v_segment)
    && (exists|i: int| 0 <= i < segs.len() && below(#[trigger] segs[i], hs[k]))
    && (forall|f: IdSegment| #[trigger] is_floor(segs, hs[k], f) ==> if f.contour_index.hole() { exists|m: int| 0 <= m < k && (#[trigger] hs[m]).contour_index.id() == f.contour_index.id() } else { f.contour_index.id() < count })
}
pub open spec fn nested(segs: Seq<IdSegment>, hs: Seq<IdSegment>, count: int) -> bool {
    all_ok(segs) && all_ok(hs) && in_turn(segs) && in_turn(hs)
    && (forall|k: int| 0 <= k < hs.len() ==> 0 <= (#[trigger] hs[k]).contour_index.id() < hs.len())
    && (forall|k: int, m: int| 0 <= k < m < hs.len() ==> (#[trigger] hs[k]).contour_index.id() != (#[trigger] hs[m]).contour_index.id())
    && (forall|k: int| #![trigger hs[k]] 0 <= k < hs.len() ==> floors_ok(segs, hs, k, count))
}
pub open spec fn settled(segs: Seq<IdSegment>, hs: Seq<IdSegment>, parent: Seq<usize>, k: int, count: int) -> bool {
    forall|m: int| 0 <= m < k ==> bound(segs, #[trigger] hs[m], parent) && parent[hs[m].contour_index.id()] < count
}
// the first j segments are those not after the anchor, and the collection holds all of them that matter
pub open spec fn fed(items: Seq<IdSegment>, segs: Seq<IdSegment>, j: int, x: int) -> bool {
    0 <= j <= segs.len() && (forall|s: IdSegment| #[trigger] items.contains(s) ==> exists|m: int| 0 <= m < j && #[trigger] segs[m] == s)
    && (forall|m: int| 0 <= m < j && (#[trigger] segs[m]).v_segment.b.x > x ==> items.contains(segs[m]))
}
pub proof fn lemma_push_has(s: Seq<IdSegment>, v: IdSegment)
    ensures forall|x: IdSegment| #[trigger] s.push(v).contains(x) <==> s.contains(x) || x == v
{
    assert forall|x: IdSegment| #[trigger] s.push(v).contains(x) <==> s.contains(x) || x == v by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(v)[i] == x); }
        if x == v { assert(s.push(v)[s.len() as int] == x); }
        if s.push(v).contains(x) && x != v { let i = choose|i: int| 0 <= i < s.push(v).len() && s.push(v)[i] == x; assert(s[i] == x); }
    }
}
pub proof fn lemma_stacked(live: spec_fn(IdSegment) -> bool, less: spec_fn(IdSegment) -> bool, h: VSegment)
    requires stacked(live, h), forall|s: IdSegment| #[trigger] less(s) ==> live(s)
    ensures stacked(less, h)
{
    let rank = choose|rank: spec_fn(VSegment) -> int| #![trigger ranked(live, h, rank)] ranked(live, h, rank);
    assert(ranked(less, h, rank));
}
// the live items of the collection are the live segments at the anchor
pub proof fn lemma_alive(items: Seq<IdSegment>, segs: Seq<IdSegment>, h: IdSegment, j: int)
    requires
        all_ok(segs), vs_ok(h.v_segment), in_turn(segs), fed(items, segs, j, h.v_segment.a.x as int),
        forall|m: int| 0 <= m < j ==> !after((#[trigger] segs[m]).v_segment, h.v_segment),
        j < segs.len() ==> after(segs[j].v_segment, h.v_segment),
    ensures
        forall|s: IdSegment| #[trigger] alive(items, h.v_segment.a.x)(s) <==> live_at(segs, h)(s),
{
    let (al, lv) = (alive(items, h.v_segment.a.x), live_at(segs, h));
    assert forall|s: IdSegment| #[trigger] al(s) <==> lv(s) by {
        if al(s) {
            let m = choose|m: int| 0 <= m < j && #[trigger] segs[m] == s;
            assert(segs.contains(s));
        }
        if lv(s) {
            let m = choose|m: int| 0 <= m < segs.len() && #[trigger] segs[m] == s;
            if m >= j {
                if m > j && !after(segs[m].v_segment, h.v_segment) { lemma_after_trans(segs[j].v_segment, segs[m].v_segment, h.v_segment); }
            }
            assert(items.contains(segs[m]));
        }
    }
}
// the new parent does not disturb those found before
pub proof fn lemma_settled(segs: Seq<IdSegment>, hs: Seq<IdSegment>, p0: Seq<usize>, p1: Seq<usize>, k: int, count: int, f: IdSegment, v: usize)
    requires
        nested(segs, hs, count), 0 <= k < hs.len(), p0.len() == hs.len(), settled(segs, hs, p0, k, count), is_floor(segs, hs[k], f),
        v == owner(f, p0), v < count, p1 == p0.update(hs[k].contour_index.id(), v),
    ensures settled(segs, hs, p1, k + 1, count)
{
    assert forall|m: int| 0 <= m < k + 1 implies bound(segs, #[trigger] hs[m], p1) && p1[hs[m].contour_index.id()] < count by {
        assert(floors_ok(segs, hs, m, count));
        assert(hs[k].contour_index.id() == hs[k].contour_index.id());
        let g = if m < k { choose|g: IdSegment| #[trigger] is_floor(segs, hs[m], g) && p0[hs[m].contour_index.id()] == owner(g, p0) } else { f };
        if m < k { assert(bound(segs, hs[m], p0)); }
        assert(is_floor(segs, hs[m], g));
        if g.contour_index.hole() {
            let q = choose|q: int| 0 <= q < m && (#[trigger] hs[q]).contour_index.id() == g.contour_index.id();
            assert(hs[q].contour_index.id() != hs[k].contour_index.id());
        }
        assert(p1[hs[m].contour_index.id()] == owner(g, p1));
    }
}
pub proof fn lemma_next(items: Seq<IdSegment>, segs: Seq<IdSegment>, g: IdSegment, h: IdSegment, j: int)
    requires
        all_ok(segs), vs_ok(g.v_segment), vs_ok(h.v_segment), !after(g.v_segment, h.v_segment), fed(items, segs, j, g.v_segment.a.x as int),
        forall|m: int| 0 <= m < j ==> !after((#[trigger] segs[m]).v_segment, g.v_segment),
    ensures
        fed(items, segs, j, h.v_segment.a.x as int),
        forall|m: int| 0 <= m < j ==> !after((#[trigger] segs[m]).v_segment, h.v_segment),
{
    assert forall|m: int| 0 <= m < j implies !after((#[trigger] segs[m]).v_segment, h.v_segment) by { lemma_after_trans(segs[m].v_segment, g.v_segment, h.v_segment); }
}
// one more segment is taken in
pub proof fn lemma_fed(o: Seq<IdSegment>, n: Seq<IdSegment>, segs: Seq<IdSegment>, j: int, x: int)
    requires 0 <= j < segs.len(), fed(o, segs, j, x), n == (if segs[j].v_segment.b.x > x { o.push(segs[j]) } else { o })
    ensures fed(n, segs, j + 1, x)
{
    lemma_push_has(o, segs[j]);
}
impl ShapeBinder {
//@ fn bind/solver.rs ShapeBinder private_solve
//@ index_loops
//@ sub <<<private_solve<S: KeyExpCollection<VSegment, i32, ContourIndex>>>>> <<<private_solve<S: KeyExpCollection>>>>
//@ sub <<<{ #[cfg(debug_assertions)] { $A } #[cfg(not(debug_assertions))] { $B } };>>> <<<{ $B };>>>
//@ spec
        requires
            scan_list.items().len() == 0, nested(segments@, anchors@, shape_count as int),
        ensures
            r.parent_for_child@.len() == anchors@.len(), r.children_count_for_parent@.len() == shape_count,
            settled(segments@, anchors@, r.parent_for_child@, anchors@.len() as int, shape_count as int),
//@ entry
        hide(under);
        hide(after);
        hide(stacked);
        proof { assert forall|x: int| #[trigger] fed(scan_list.items(), segments@, 0, x) by { } }
//@ loop 0
            invariant
                nested(segments@, anchors@, shape_count as int),
                parent_for_child@.len() == anchors@.len(), children_count_for_parent@.len() == shape_count,
                settled(segments@, anchors@, parent_for_child@, it0 as int, shape_count as int),
                forall|c: int| 0 <= c < shape_count ==> #[trigger] children_count_for_parent@[c] <= it0,
                it0 > 0 ==> fed(scan_list.items(), segments@, j as int, anchors@[it0 - 1].v_segment.a.x as int),
                it0 > 0 ==> forall|m: int| 0 <= m < j ==> !after((#[trigger] segments@[m]).v_segment, anchors@[it0 - 1].v_segment),
                it0 == 0 ==> j == 0 && forall|x: int| #[trigger] fed(scan_list.items(), segments@, 0, x),
//@ loopbody 0
            proof {
                assert(floors_ok(segments@, anchors@, it0 as int, shape_count as int));
                if it0 > 0 { lemma_next(scan_list.items(), segments@, anchors@[it0 - 1], anchors@[it0 as int], j as int); }
            }
//@ loop 1
                invariant
                    nested(segments@, anchors@, shape_count as int), vs_ok(anchor.v_segment), p == anchor.v_segment.a,
                    fed(scan_list.items(), segments@, j as int, p.x as int),
                    forall|m: int| 0 <= m < j ==> !after((#[trigger] segments@[m]).v_segment, anchor.v_segment),
                ensures
                    fed(scan_list.items(), segments@, j as int, p.x as int),
                    forall|m: int| 0 <= m < j ==> !after((#[trigger] segments@[m]).v_segment, anchor.v_segment),
                    j < segments@.len() ==> after(segments@[j as int].v_segment, anchor.v_segment),
                decreases segments@.len() - j
//@ loopbody 1
                let ghost (i0, j0) = (scan_list.items(), j as int);
                proof { assert(vs_ok(segments@[j as int].v_segment)); }
//@ loopend 1
                proof { lemma_fed(i0, scan_list.items(), segments@, j0, p.x as int); }
//@ after_loop 1
            let ghost (al, lv) = (alive(scan_list.items(), anchor.v_segment.a.x), live_at(segments@, *anchor));
            proof {
                lemma_alive(scan_list.items(), segments@, *anchor, j as int);
                lemma_stacked(lv, al, anchor.v_segment);
                let i = choose|i: int| 0 <= i < segments@.len() && below(#[trigger] segments@[i], *anchor);
                assert(lv(segments@[i]) && al(segments@[i]));
            }
//@ after target_id
            let ghost f = choose|f: IdSegment| #[trigger] al(f) && under(f.v_segment, anchor.v_segment) && f.contour_index == target_id
                && forall|s: IdSegment| #[trigger] al(s) && under(s.v_segment, anchor.v_segment) ==> !under(f.v_segment, s.v_segment);
            proof {
                assert(al(f) && lv(f));
                assert forall|i: int| 0 <= i < segments@.len() && below(#[trigger] segments@[i], *anchor) implies !under(f.v_segment, segments@[i].v_segment) by { assert(lv(segments@[i])); assert(al(segments@[i])); }
                assert(is_floor(segments@, *anchor, f));
                if f.contour_index.hole() {
                    let m = choose|m: int| 0 <= m < it0 && (#[trigger] anchors@[m]).contour_index.id() == f.contour_index.id();
                    assert(bound(segments@, anchors@[m], parent_for_child@));
                }
            }
            let ghost p0 = parent_for_child@;
//@ loopend 0
            proof { lemma_settled(segments@, anchors@, p0, parent_for_child@, it0 as int, shape_count as int, f, parent_index); }
//@ endfn
}
}
fn main() {}
