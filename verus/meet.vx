// ---- no meeting is lost between the columns, and every mark lies at a meeting ----
#![feature(allocator_api)]
//@ import frags.vx
//@ import border.vx
verus! {
pub open spec fn frag_of<C: Send>(segs: Seq<Segment<C>>, l: GridLayout, c: int, f: Fragment) -> bool {
    f.index < segs.len() && f.x_segment == seg_at(segs, f.index as int) && in_col(l, f.x_segment, c) && piece_box(f.rect, f.x_segment, l, c)
}
pub open spec fn holds(g: Seq<Fragment>, i: int) -> bool { exists|f: Fragment| #[trigger] g.contains(f) && f.index == i }
// the columns hold the pieces of the first n edges, all of them and no others
pub open spec fn parted<C: Send>(g: Seq<Vec<Fragment>>, segs: Seq<Segment<C>>, l: GridLayout, n: int) -> bool {
    &&& forall|c: int, f: Fragment| 0 <= c < g.len() && #[trigger] g[c]@.contains(f) ==> frag_of(segs, l, c, f) && f.index < n
    &&& forall|c: int, i: int| 0 <= c < g.len() && 0 <= i < n && in_col(l, seg_at(segs, i), c) ==> #[trigger] holds(g[c]@, i)
}
pub open spec fn all_fit<C: Send>(b: FragmentBuffer, segs: Seq<Segment<C>>) -> bool { forall|i: int| 0 <= i < segs.len() ==> #[trigger] fits(b, seg_at(segs, i)) }

// ---- the box of a piece lies within that of its edge ----
pub proof fn lemma_floor_range(v: int, x: int, s: XSegment)
    requires s.a.x < s.b.x, s.a.x <= x <= s.b.x, floor_ok(v, x, s)
    ensures min_i(s.a.y as int, s.b.y as int) <= v <= max_i(s.a.y as int, s.b.y as int)
{
    let (w, h, k, u) = (s.b.x - s.a.x, s.b.y - s.a.y, x - s.a.x, v - s.a.y);
    if h >= 0 {
        assert(0 <= k * h <= w * h) by (nonlinear_arith) requires 0 <= k <= w, h >= 0;
        assert(0 <= u <= h) by (nonlinear_arith) requires u * w <= k * h < (u + 1) * w, 0 <= k * h <= w * h, w > 0;
    } else {
        assert(w * h <= k * h <= 0) by (nonlinear_arith) requires 0 <= k <= w, h <= 0;
        assert(h <= u <= 0) by (nonlinear_arith) requires u * w <= k * h < (u + 1) * w, w * h <= k * h <= 0, w > 0;
    }
}
pub proof fn lemma_ceil_range(v: int, x: int, s: XSegment)
    requires s.a.x < s.b.x, s.a.x <= x <= s.b.x, ceil_ok(v, x, s)
    ensures min_i(s.a.y as int, s.b.y as int) <= v <= max_i(s.a.y as int, s.b.y as int)
{
    let (w, h, k, u) = (s.b.x - s.a.x, s.b.y - s.a.y, x - s.a.x, v - s.a.y);
    if h >= 0 {
        assert(0 <= k * h <= w * h) by (nonlinear_arith) requires 0 <= k <= w, h >= 0;
        assert(0 <= u <= h) by (nonlinear_arith) requires (u - 1) * w < k * h <= u * w, 0 <= k * h <= w * h, w > 0;
    } else {
        assert(w * h <= k * h <= 0) by (nonlinear_arith) requires 0 <= k <= w, h <= 0;
        assert(h <= u <= 0) by (nonlinear_arith) requires (u - 1) * w < k * h <= u * w, w * h <= k * h <= 0, w > 0;
    }
}
pub proof fn lemma_piece_range(r: IntRect, s: XSegment, l: GridLayout, c: int)
    requires seg_ok(s), piece_box(r, s, l, c)
    ensures rect_in_range(r)
{
    if s.a.x < s.b.x {
        if s.a.y <= s.b.y { lemma_floor_range(r.min_y as int, r.min_x as int, s); lemma_ceil_range(r.max_y as int, r.max_x as int, s); }
        else { lemma_floor_range(r.min_y as int, r.max_x as int, s); lemma_ceil_range(r.max_y as int, r.min_x as int, s); }
    }
}
pub proof fn lemma_parted_ok<C: WindingCount>(g: Seq<Vec<Fragment>>, segs: Seq<Segment<C>>, l: GridLayout, n: int)
    requires parted(g, segs, l, n), segs_ok(segs)
    ensures lists_ok(g)
{
    assert forall|c: int| 0 <= c < g.len() implies frags_ok(#[trigger] g[c]@) by {
        assert forall|q: int| 0 <= q < g[c]@.len() implies frag_ok(#[trigger] g[c]@[q]) by {
            let f = g[c]@[q];
            assert(g[c]@.contains(f));
            assert(frag_of(segs, l, c, f));
            assert(seg_ok(segs[f.index as int].x_segment));
            lemma_piece_range(f.rect, f.x_segment, l, c);
        }
    }
}

// ---- a mark of the columns lies fairly, and truly where nothing was rounded ----
pub proof fn lemma_from_pieces<C: WindingCount>(g: Seq<Vec<Fragment>>, segs: Seq<Segment<C>>, l: GridLayout, n: int, need: bool, m: LineMark, radius: int)
    requires ready(segs), parted(g, segs, l, n), radius >= 1, from_some(g, need, m, radius)
    ensures fair_mark(segs, m), need || true_mark(segs, m)
{
    let c = choose|c: int| 0 <= c < g.len() && #[trigger] comes_from(g[c]@, need, m, radius);
    let (f, h, k, round) = choose|f: Fragment, h: Fragment, k: Seq<LineMark>, round: bool| #[trigger] from_pair(g[c]@, need, m, f, h, k, round, radius);
    assert(g[c]@.contains(f) && g[c]@.contains(h));
    assert(f.index != h.index);
    let keep = keep_of(f, h, radius);
    assert(marked(k, round, f.index, h.index, seg_at(segs, f.index as int), seg_at(segs, h.index as int), radius, keep));
    lemma_pair_fair(segs, k, round, f.index, h.index, radius, keep, m);
    if !need { lemma_pair_true(segs, k, f.index, h.index, radius, keep, m); }
}

// ---- the point where two edges meet ----
pub proof fn lemma_on_point_inside(p: IntPoint, s: XSegment)
    requires seg_ok(s), inside(p, s) || p == s.a || p == s.b
    ensures on_point(s, p.x as int, p.y as int, 1)
{
    let (w, h, u, v) = (s.b.x - s.a.x, s.b.y - s.a.y, p.x - s.a.x, p.y - s.a.y);
    assert(s.a.x * 1 == s.a.x && s.b.x * 1 == s.b.x && s.a.y * 1 == s.a.y);
    if inside(p, s) {
        assert(w * (h - v) - (w - u) * h == 0);
        assert(u * h == v * w) by (nonlinear_arith) requires w * (h - v) - (w - u) * h == 0;
        if w == 0 { assert(u == 0); }
    } else if p == s.a {
        assert(0 * h == 0 * w);
    } else {
        assert(w * h == h * w) by (nonlinear_arith);
    }
}
pub proof fn lemma_border_flat(t: XSegment, o: XSegment, l: GridLayout)
    requires seg_ok(t), seg_ok(o), border_case(l, t, o)
    ensures !all_collinear(t, o), !all_collinear(o, t), !proper_cross(t, o), !proper_cross(o, t), !inside(o.a, t), !inside(t.a, o), !inside(t.b, o)
{
    let h = t.b.y - t.a.y;
    // o.b lies on the line of t, o.a does not
    assert(o2(t, o) == 0 * (t.b.y - o.b.y) - (t.b.x - o.b.x) * h);
    assert(0 * (t.b.y - o.b.y) == 0 && 0 * h == 0) by (nonlinear_arith);
    let k = t.b.x - o.a.x;
    assert(o1(t, o) == 0 * (t.b.y - o.a.y) - k * h);
    assert(0 * (t.b.y - o.a.y) == 0);
    assert(k * h > 0) by (nonlinear_arith) requires k > 0, h > 0;
    let w = o.b.x - o.a.x;
    // an end of t on the line of o would be o.b
    assert(o3(t, o) == w * (o.b.y - t.a.y) - 0 * (o.b.y - o.a.y) && o4(t, o) == w * (o.b.y - t.b.y) - 0 * (o.b.y - o.a.y));
    assert(0 * (o.b.y - o.a.y) == 0);
    if o.b.y != t.a.y { assert(w * (o.b.y - t.a.y) != 0) by (nonlinear_arith) requires w > 0, o.b.y - t.a.y != 0; }
    if o.b.y != t.b.y { assert(w * (o.b.y - t.b.y) != 0) by (nonlinear_arith) requires w > 0, o.b.y - t.b.y != 0; }
}
// a piece of each, both holding the point
pub open spec fn common<C: Send>(g: Seq<Vec<Fragment>>, segs: Seq<Segment<C>>, x: int, y: int, n: int, m: int, d: int, c: int, f: Fragment, h: Fragment) -> bool {
    0 <= c < g.len() && g[c]@.contains(f) && g[c]@.contains(h) && f.index == x && h.index == y && box_has(f.rect, n, m, d) && box_has(h.rect, n, m, d)
}
pub proof fn lemma_common_piece<C: WindingCount>(b: FragmentBuffer, segs: Seq<Segment<C>>, x: int, y: int, n: int, m: int, d: int) -> (r: (int, Fragment, Fragment))
    requires
        ready(segs), all_fit(b, segs), parted(b.groups@, segs, b.layout, segs.len() as int), 0 <= x < segs.len(), 0 <= y < segs.len(),
        on_point(seg_at(segs, x), n, m, d), on_point(seg_at(segs, y), n, m, d),
        ({ let (t, o) = (seg_at(segs, x), seg_at(segs, y));
           !(n == t.b.x * d && n == o.a.x * d && m == t.b.y * d && m == o.a.y * d) && !(n == o.b.x * d && n == t.a.x * d && m == o.b.y * d && m == t.a.y * d) }),
        !border_case(b.layout, seg_at(segs, x), seg_at(segs, y)), !border_case(b.layout, seg_at(segs, y), seg_at(segs, x))
    ensures common(b.groups@, segs, x, y, n, m, d, r.0, r.1, r.2), boxes_meet(r.1.rect, r.2.rect)
{
    let (l, g, t, o) = (b.layout, b.groups@, seg_at(segs, x), seg_at(segs, y));
    assert(fits(b, t) && fits(b, o));
    lemma_meet(b, t, o, n, m, d);
    let c = choose|c: int| #![trigger in_col(l, t, c)] in_col(l, t, c) && in_col(l, o, c)
        && forall|r0: IntRect, r1: IntRect| #![trigger piece_box(r0, t, l, c), piece_box(r1, o, l, c)]
            piece_box(r0, t, l, c) && piece_box(r1, o, l, c) ==> box_has(r0, n, m, d) && box_has(r1, n, m, d);
    lemma_fits(b, t);
    assert(0 <= c < g.len());
    assert(in_col(l, seg_at(segs, x), c) && in_col(l, seg_at(segs, y), c));
    assert(holds(g[c]@, x) && holds(g[c]@, y));
    let f = choose|f: Fragment| #[trigger] g[c]@.contains(f) && f.index == x;
    let h = choose|h: Fragment| #[trigger] g[c]@.contains(h) && h.index == y;
    assert(frag_of(segs, l, c, f) && frag_of(segs, l, c, h));
    assert(piece_box(f.rect, t, l, c) && piece_box(h.rect, o, l, c));
    let (p, q) = (f.rect, h.rect);
    assert(p.min_x <= q.max_x && q.min_x <= p.max_x && p.min_y <= q.max_y && q.min_y <= p.max_y) by (nonlinear_arith)
        requires d > 0, box_has(p, n, m, d), box_has(q, n, m, d);
    (c, f, h)
}
// which of the crossings promised for the pair lie near the box
pub proof fn lemma_near_frag(r: IntRect, p: IntPoint, q: IntPoint, n: int, m: int, d: int, radius: int)
    requires
        d > 0, box_has(r, n, m, d), iabs(q.x * d - n) < d, iabs(q.y * d - m) < d,
        1 <= radius <= 0x1000_0000_0000_0000, sqd(p, q) <= radius, rect_in_range(r)
    ensures near_rect(r, p, min2(radius, 0x4000_0000))
{
    assert(r.min_x <= q.x <= r.max_x) by (nonlinear_arith) requires d > 0, r.min_x * d <= n <= r.max_x * d, q.x * d - n < d, n - q.x * d < d;
    assert(r.min_y <= q.y <= r.max_y) by (nonlinear_arith) requires d > 0, r.min_y * d <= m <= r.max_y * d, q.y * d - m < d, m - q.y * d < d;
    let (x, y, k) = (p.x - q.x, p.y - q.y, min2(radius, 0x4000_0000));
    assert(x * x + y * y <= radius);
    assert(x * x >= 0 && y * y >= 0) by (nonlinear_arith);
    lemma_root(x, radius);
    lemma_root(y, radius);
}
pub proof fn lemma_root(x: int, radius: int)
    requires x * x <= radius, 1 <= radius <= 0x1000_0000_0000_0000
    ensures iabs(x) <= min2(radius, 0x4000_0000)
{
    assert(x <= radius && -x <= radius) by (nonlinear_arith) requires x * x <= radius;
    assert(x <= 0x4000_0000 && -x <= 0x4000_0000) by (nonlinear_arith) requires x * x <= 0x1000_0000_0000_0000;
}
// the crossing as a fraction
pub open spec fn cross_n(t: XSegment, o: XSegment) -> int { t.a.x * iabs(x_den(t, o)) + (t.b.x - t.a.x) * iabs(x_num(t, o)) }
pub open spec fn cross_m(t: XSegment, o: XSegment) -> int { t.a.y * iabs(x_den(t, o)) + (t.b.y - t.a.y) * iabs(x_num(t, o)) }
pub proof fn lemma_part(a: int, w: int, k: int, d: int)
    requires 0 < k < d
    ensures w >= 0 ==> a * d <= a * d + w * k <= (a + w) * d, w <= 0 ==> (a + w) * d <= a * d + w * k <= a * d, w != 0 ==> a * d + w * k != (a + w) * d && a * d + w * k != a * d
{
    assert((a + w) * d == a * d + w * d) by (nonlinear_arith);
    assert(w >= 0 ==> 0 <= w * k <= w * d) by (nonlinear_arith) requires 0 < k < d;
    assert(w <= 0 ==> w * d <= w * k <= 0) by (nonlinear_arith) requires 0 < k < d;
    assert(w != 0 ==> w * k != 0 && w * k != w * d) by (nonlinear_arith) requires 0 < k < d;
}
pub proof fn lemma_cross_on(s: XSegment, k: int, d: int)
    requires seg_ok(s), 0 < k < d
    ensures
        on_point(s, s.a.x * d + (s.b.x - s.a.x) * k, s.a.y * d + (s.b.y - s.a.y) * k, d),
        !(s.a.x * d + (s.b.x - s.a.x) * k == s.b.x * d && s.a.y * d + (s.b.y - s.a.y) * k == s.b.y * d),
        !(s.a.x * d + (s.b.x - s.a.x) * k == s.a.x * d && s.a.y * d + (s.b.y - s.a.y) * k == s.a.y * d),
{
    let (w, h) = (s.b.x - s.a.x, s.b.y - s.a.y);
    lemma_part(s.a.x as int, w, k, d);
    lemma_part(s.a.y as int, h, k, d);
    assert((w * k) * h == (h * k) * w) by (nonlinear_arith);
    assert(s.a.x + w == s.b.x && s.a.y + h == s.b.y);
}
pub proof fn lemma_cross_point(t: XSegment, o: XSegment)
    requires seg_ok(t), seg_ok(o), proper_cross(t, o)
    ensures ({
        let (n, m, d) = (cross_n(t, o), cross_m(t, o), iabs(x_den(t, o)));
        &&& on_point(t, n, m, d) && on_point(o, n, m, d)
        &&& !(n == t.b.x * d && m == t.b.y * d) && !(n == t.a.x * d && m == t.a.y * d)
        &&& forall|p: IntPoint| #[trigger] near_cross(p, t, o) ==> iabs(p.x * d - n) < d && iabs(p.y * d - m) < d
    })
{
    lemma_cross_bounds(t, o);
    lemma_on_other(t, o);
    let (num, den, k, d) = (x_num(t, o), x_den(t, o), iabs(x_num(t, o)), iabs(x_den(t, o)));
    let (k2, w, h, w2, h2) = (iabs(o1(t, o)), t.b.x - t.a.x, t.b.y - t.a.y, o.b.x - o.a.x, o.b.y - o.a.y);
    lemma_cross_on(t, k, d);
    lemma_cross_on(o, k2, d);
    let s: int = if den > 0 { 1 } else { -1 };
    let e1 = o1(t, o);
    assert(if s == 1 { num == k && den == d && e1 == k2 } else { num == -k && den == -d && e1 == -k2 });
    assert(num == s * k && den == s * d && e1 == s * k2) by (nonlinear_arith) requires s == 1 || s == -1, if s == 1 { num == k && den == d && e1 == k2 } else { num == -k && den == -d && e1 == -k2 };
    let (p, q) = (o.a.x - t.a.x, o.a.y - t.a.y);
    assert(w * k == p * d + w2 * k2) by (nonlinear_arith) requires w * (s * k) == p * (s * d) + w2 * (s * k2), s == 1 || s == -1;
    assert(h * k == q * d + h2 * k2) by (nonlinear_arith) requires h * (s * k) == q * (s * d) + h2 * (s * k2), s == 1 || s == -1;
    assert(p * d == o.a.x * d - t.a.x * d && q * d == o.a.y * d - t.a.y * d) by (nonlinear_arith) requires p == o.a.x - t.a.x, q == o.a.y - t.a.y;
    assert(cross_n(t, o) == o.a.x * d + w2 * k2 && cross_m(t, o) == o.a.y * d + h2 * k2);
    assert forall|p: IntPoint| #[trigger] near_cross(p, t, o) implies iabs(p.x * d - cross_n(t, o)) < d && iabs(p.y * d - cross_m(t, o)) < d by {
        let (u, v) = (p.x - t.a.x, p.y - t.a.y);
        assert(x_err(p, t, o) == u * den - w * num && y_err(p, t, o) == v * den - h * num);
        assert(u * d - w * k == s * (u * (s * d) - w * (s * k))) by (nonlinear_arith) requires s == 1 || s == -1;
        assert(v * d - h * k == s * (v * (s * d) - h * (s * k))) by (nonlinear_arith) requires s == 1 || s == -1;
        assert(u * d == p.x * d - t.a.x * d && v * d == p.y * d - t.a.y * d) by (nonlinear_arith) requires u == p.x - t.a.x, v == p.y - t.a.y;
    }
}

// ---- every pair of edges shows where it meets ----
pub open spec fn border_done<C: Send>(segs: Seq<Segment<C>>, l: GridLayout, marks: Seq<LineMark>) -> bool {
    forall|x: int, y: int| 0 <= x < segs.len() && 0 <= y < segs.len() && #[trigger] border_case(l, seg_at(segs, x), seg_at(segs, y)) && inside(seg_at(segs, y).b, seg_at(segs, x)) ==> has_mark(marks, x, seg_at(segs, y).b)
}
pub open spec fn columns_done(g: Seq<Vec<Fragment>>, marks: Seq<LineMark>, radius: int) -> bool { lists_looked(g, marks, false, radius, g.len() as int) }
pub proof fn lemma_columns_pair(g: Seq<Vec<Fragment>>, marks: Seq<LineMark>, radius: int, c: int, f: Fragment, h: Fragment) -> (n: Seq<LineMark>)
    requires columns_done(g, marks, radius), 0 <= c < g.len(), g[c]@.contains(f), g[c]@.contains(h), boxes_meet(f.rect, h.rect), seg_lt(f.x_segment, h.x_segment)
    ensures pair_marks(n, false, f, h, radius), forall|m: LineMark| #[trigger] n.contains(m) ==> marks.contains(m)
{
    assert(all_looked(g[c]@, marks, false, radius));
    assert(looked(marks, false, f, h, radius));
    let (n, round) = choose|n: Seq<LineMark>, round: bool| #[trigger] pair_marks(n, round, f, h, radius) && (round ==> false) && forall|m: LineMark| #[trigger] n.contains(m) ==> marks.contains(m);
    n
}
// every crossing promised for the pair lies by the pieces that hold the exact one
pub proof fn lemma_kept_cross(f: Fragment, h: Fragment, t: XSegment, o: XSegment, radius: int)
    requires
        seg_ok(t), seg_ok(o), proper_cross(t, o), 1 <= radius <= 0x1000_0000_0000_0000, rect_in_range(f.rect), rect_in_range(h.rect),
        box_has(f.rect, cross_n(t, o), cross_m(t, o), iabs(x_den(t, o))), box_has(h.rect, cross_n(t, o), cross_m(t, o), iabs(x_den(t, o)))
    ensures kept_at(keep_of(f, h, radius), t, o, radius)
{
    lemma_cross_bounds(t, o);
    lemma_cross_point(t, o);
    let (n, m, d) = (cross_n(t, o), cross_m(t, o), iabs(x_den(t, o)));
    assert forall|c: CrossResult| #[trigger] cross_ok(c, t, o, radius) implies keep_of(f, h, radius)(c.point) by {
        lemma_rel_disjoint(t, o);
        let p = c.point;
        if c.cross_type is Pure {
            lemma_sqd_self(p);
            lemma_near_frag(f.rect, p, p, n, m, d, radius);
            lemma_near_frag(h.rect, p, p, n, m, d, radius);
        } else {
            lemma_proper_open(t, o);
            assert(c.is_round);
            assert(snapped(p, t, o, radius));
            let x = choose|x: IntPoint| #[trigger] near_cross(x, t, o) && in_range(x) && sqd(p, x) <= radius
                && sqd(p, x) <= sqd(t.a, x) && sqd(p, x) <= sqd(t.b, x) && sqd(p, x) <= sqd(o.a, x) && sqd(p, x) <= sqd(o.b, x);
            lemma_near_frag(f.rect, p, x, n, m, d, radius);
            lemma_near_frag(h.rect, p, x, n, m, d, radius);
        }
    }
}
pub proof fn lemma_proper_open(t: XSegment, o: XSegment)
    requires proper_cross(t, o)
    ensures !inside(t.a, o), !inside(t.b, o), !inside(o.a, t), !inside(o.b, t)
{}
pub proof fn lemma_kept_touch(f: Fragment, h: Fragment, t: XSegment, o: XSegment, q: IntPoint, radius: int)
    requires
        seg_ok(t), seg_ok(o), !all_collinear(t, o), !proper_cross(t, o), on_line(q, t), on_line(q, o), radius >= 1,
        box_has(f.rect, q.x as int, q.y as int, 1), box_has(h.rect, q.x as int, q.y as int, 1)
    ensures kept_at(keep_of(f, h, radius), t, o, radius)
{
    lemma_ends_on(t);
    lemma_ends_on(o);
    assert forall|c: CrossResult| #[trigger] cross_ok(c, t, o, radius) implies keep_of(f, h, radius)(c.point) by {
        let p = c.point;
        assert(on_line(p, t) && on_line(p, o));
        if p != q { lemma_common(t, o, p, q); }
        assert(near_rect(f.rect, p, min2(radius, 0x4000_0000)) && near_rect(h.rect, p, min2(radius, 0x4000_0000)));
    }
}
// the two edges meet at the end p of one of them, within the other
pub open spec fn end_meets(t: XSegment, o: XSegment, p: IntPoint) -> bool { inside(p, t) && end_of(p, o) || inside(p, o) && end_of(p, t) }
pub proof fn lemma_end_shown<C: WindingCount>(b: FragmentBuffer, segs: Seq<Segment<C>>, marks: Seq<LineMark>, radius: int, x: int, y: int, p: IntPoint)
    requires
        ready(segs), all_fit(b, segs), parted(b.groups@, segs, b.layout, segs.len() as int), columns_done(b.groups@, marks, radius),
        0 <= x < y < segs.len(), segs.len() <= usize::MAX, 1 <= radius <= 0x1000_0000_0000_0000,
        end_meets(seg_at(segs, x), seg_at(segs, y), p),
        !border_case(b.layout, seg_at(segs, x), seg_at(segs, y)), !border_case(b.layout, seg_at(segs, y), seg_at(segs, x))
    ensures
        inside(p, seg_at(segs, x)) && end_of(p, seg_at(segs, y)) ==> has_mark(marks, x, p), inside(p, seg_at(segs, y)) && end_of(p, seg_at(segs, x)) ==> has_mark(marks, y, p)
{
    let (t, o) = (seg_at(segs, x), seg_at(segs, y));
    assert(seg_ok(segs[x].x_segment) && seg_ok(segs[y].x_segment));
    lemma_on_point_inside(p, t);
    lemma_on_point_inside(p, o);
    assert(p.x * 1 == p.x && p.y * 1 == p.y && t.b.x * 1 == t.b.x && o.a.x * 1 == o.a.x && t.b.y * 1 == t.b.y && o.a.y * 1 == o.a.y && o.b.x * 1 == o.b.x && t.a.x * 1 == t.a.x && o.b.y * 1 == o.b.y && t.a.y * 1 == t.a.y);
    let (c, f, h) = lemma_common_piece(b, segs, x, y, p.x as int, p.y as int, 1);
    assert(frag_of(segs, b.layout, c, f) && frag_of(segs, b.layout, c, h));
    assert(seg_lt(segs[x].x_segment, segs[y].x_segment));
    let n = lemma_columns_pair(b.groups@, marks, radius, c, f, h);
    let (i, j, keep) = (f.index, h.index, keep_of(f, h, radius));
    assert(keep(p));
    if all_collinear(t, o) {
        let (mi, mj) = (LineMark { index: i, point: p }, LineMark { index: j, point: p });
        if inside(p, t) && end_of(p, o) { assert(end_mark(mi, i, j, t, o)); assert(n.contains(mi)); }
        if inside(p, o) && end_of(p, t) { assert(end_mark(mj, i, j, t, o)); assert(n.contains(mj)); }
    } else {
        lemma_ends_on(t);
        lemma_ends_on(o);
        if proper_cross(t, o) { lemma_proper_open(t, o); }
        lemma_kept_touch(f, h, t, o, p, radius);
        lemma_pair_exact(segs, n, i, j, radius, keep);
        assert(shown(segs, n, x, y) && shown(segs, n, y, x));
        lemma_shown_more(segs, n, marks, x, y);
        lemma_shown_more(segs, n, marks, y, x);
    }
}
pub proof fn lemma_cross_shown<C: WindingCount>(b: FragmentBuffer, segs: Seq<Segment<C>>, marks: Seq<LineMark>, radius: int, x: int, y: int)
    requires
        ready(segs), all_fit(b, segs), parted(b.groups@, segs, b.layout, segs.len() as int), columns_done(b.groups@, marks, radius),
        0 <= x < y < segs.len(), segs.len() <= usize::MAX, 1 <= radius <= 0x1000_0000_0000_0000, proper_cross(seg_at(segs, x), seg_at(segs, y)),
    ensures shown(segs, marks, x, y), shown(segs, marks, y, x)
{
    let (l, t, o) = (b.layout, seg_at(segs, x), seg_at(segs, y));
    assert(seg_ok(segs[x].x_segment) && seg_ok(segs[y].x_segment));
    if border_case(l, t, o) { lemma_border_flat(t, o, l); }
    if border_case(l, o, t) { lemma_border_flat(o, t, l); }
    let (n, m, d) = (cross_n(t, o), cross_m(t, o), iabs(x_den(t, o)));
    lemma_cross_point(t, o);
    let (c, f, h) = lemma_common_piece(b, segs, x, y, n, m, d);
    assert(frag_of(segs, l, c, f) && frag_of(segs, l, c, h));
    assert(seg_lt(segs[x].x_segment, segs[y].x_segment));
    let k = lemma_columns_pair(b.groups@, marks, radius, c, f, h);
    lemma_piece_range(f.rect, t, l, c);
    lemma_piece_range(h.rect, o, l, c);
    lemma_kept_cross(f, h, t, o, radius);
    lemma_rel_disjoint(t, o);
    lemma_pair_exact(segs, k, f.index, h.index, radius, keep_of(f, h, radius));
    lemma_shown_more(segs, k, marks, x, y);
    lemma_shown_more(segs, k, marks, y, x);
}
pub proof fn lemma_proper_both(t: XSegment, o: XSegment)
    ensures proper_cross(t, o) == proper_cross(o, t)
{}
pub proof fn lemma_pair_shown<C: WindingCount>(b: FragmentBuffer, segs: Seq<Segment<C>>, marks: Seq<LineMark>, radius: int, x: int, y: int)
    requires
        ready(segs), all_fit(b, segs), parted(b.groups@, segs, b.layout, segs.len() as int), columns_done(b.groups@, marks, radius), border_done(segs, b.layout, marks),
        0 <= x < y < segs.len(), segs.len() <= usize::MAX, 1 <= radius <= 0x1000_0000_0000_0000,
    ensures shown(segs, marks, x, y), shown(segs, marks, y, x)
{
    let (l, t, o) = (b.layout, seg_at(segs, x), seg_at(segs, y));
    assert(seg_ok(segs[x].x_segment) && seg_ok(segs[y].x_segment));
    lemma_proper_both(t, o);
    if proper_cross(t, o) { lemma_cross_shown(b, segs, marks, radius, x, y); }
    else if border_case(l, t, o) { lemma_border_flat(t, o, l); }
    else if border_case(l, o, t) { lemma_border_flat(o, t, l); }
    else {
        if inside(o.a, t) { lemma_end_shown(b, segs, marks, radius, x, y, o.a); }
        if inside(o.b, t) { lemma_end_shown(b, segs, marks, radius, x, y, o.b); }
        if inside(t.a, o) { lemma_end_shown(b, segs, marks, radius, x, y, t.a); }
        if inside(t.b, o) { lemma_end_shown(b, segs, marks, radius, x, y, t.b); }
    }
}
}
fn main() {}
