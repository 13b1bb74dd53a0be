#![feature(allocator_api)]
//@ import base.vx
//@ import yrange.vx
use std::collections::HashMap;
verus! {
global size_of usize == 8;
//@ item split/fragment.rs struct Fragment
//@ item i_float:int/rect.rs struct IntRect
//@ item split/grid_layout.rs struct BorderVSegment
//@ item split/grid_layout.rs struct FragmentBuffer
//@ item split/grid_layout.rs struct GridLayout

pub assume_specification<'a, K, V, S, A, Q> [std::collections::HashMap::<K, V, S, A>::get_mut] (m: &'a mut std::collections::HashMap<K, V, S, A>, k: &'_ Q) -> (r: std::option::Option<&'a mut V>)
    where
        A: std::alloc::Allocator,
        K: std::cmp::Eq + std::hash::Hash + std::borrow::Borrow<Q>,
        Q: std::marker::MetaSized + std::hash::Hash + std::cmp::Eq + ?Sized,
        S: std::hash::BuildHasher
    ensures
        vstd::std_specs::hash::obeys_key_model::<K>() && vstd::std_specs::hash::builds_valid_hashers::<S>() ==> match r {
            Some(v) => vstd::std_specs::hash::maps_borrowed_key_to_value(old(m)@, k, *v)
                && exists|q: K| #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value(Map::<K, bool>::empty().insert(q, true), k, true)
                    && final(m)@ == old(m)@.insert(q, *final(v)),
            None => !vstd::std_specs::hash::contains_borrowed_key(old(m)@, k) && final(m)@ == old(m)@,
        };

pub open spec fn layout_ok(l: GridLayout) -> bool {
    -0x4000_0000 < l.min_x <= l.max_x < 0x4000_0000 && 1 <= l.power <= 30
}
pub open spec fn step(l: GridLayout) -> int { pow2(l.power as nat) as int }
// the column x lies in, and where a column starts
pub open spec fn col(l: GridLayout, x: int) -> int { (x - l.min_x) / step(l) }
pub open spec fn pos_of(l: GridLayout, c: int) -> int { l.min_x + c * step(l) }

pub open spec fn first_col(l: GridLayout, s: XSegment) -> int { col(l, s.a.x as int) }
pub open spec fn last_col(l: GridLayout, s: XSegment) -> int { if s.a.x == s.b.x { col(l, s.a.x as int) } else { col(l, s.b.x - 1) } }
// v is the y of s at x rounded down / up
pub open spec fn floor_ok(v: int, x: int, s: XSegment) -> bool {
    let (w, h) = (s.b.x - s.a.x, s.b.y - s.a.y);
    (v - s.a.y) * w <= (x - s.a.x) * h < (v - s.a.y + 1) * w
}
pub open spec fn ceil_ok(v: int, x: int, s: XSegment) -> bool {
    let (w, h) = (s.b.x - s.a.x, s.b.y - s.a.y);
    (v - s.a.y - 1) * w < (x - s.a.x) * h <= (v - s.a.y) * w
}
// the box of the piece of s within column c
pub open spec fn piece_box(r: IntRect, s: XSegment, l: GridLayout, c: int) -> bool {
    &&& r.min_x == max_i(s.a.x as int, pos_of(l, c))
    &&& r.max_x == min_i(s.b.x as int, pos_of(l, c + 1))
    &&& r.min_x <= r.max_x && r.min_y <= r.max_y
    &&& if s.a.x == s.b.x { r.min_y == min_i(s.a.y as int, s.b.y as int) && r.max_y == max_i(s.a.y as int, s.b.y as int) }
        else if s.a.y <= s.b.y { floor_ok(r.min_y as int, r.min_x as int, s) && ceil_ok(r.max_y as int, r.max_x as int, s) }
        else { floor_ok(r.min_y as int, r.max_x as int, s) && ceil_ok(r.max_y as int, r.min_x as int, s) }
}
// g1 is g0 with exactly one fragment more: the piece of s in column c
pub open spec fn one_more(g0: Seq<Fragment>, g1: Seq<Fragment>, id: usize, s: XSegment, l: GridLayout, c: int) -> bool {
    g1.len() == g0.len() + 1 && g1.drop_last() == g0 && g1.last().index == id && g1.last().x_segment == s && piece_box(g1.last().rect, s, l, c)
}
pub open spec fn fits(b: FragmentBuffer, s: XSegment) -> bool {
    layout_ok(b.layout) && seg_ok(s) && b.layout.min_x <= s.a.x && s.b.x <= b.layout.max_x && b.groups@.len() == col(b.layout, b.layout.max_x as int) + 1
}

pub assume_specification[ i32::unsigned_abs ](a: i32) -> (r: u32)
    ensures r == iabs(a as int);

pub assume_specification[ i32::ilog2 ](a: i32) -> (r: u32)
    requires a > 0
    ensures pow2(r as nat) <= a < pow2((r + 1) as nat);

// the power chosen from log2 of the width keeps the number of columns in bounds
pub proof fn lemma_ilog(dx: int, log: nat, max_power: nat)
    requires 4 <= dx < 0x8000_0000, pow2(log) <= dx < pow2(log + 1)
    ensures 2 <= log <= 30
{
    lemma2_to64();
    if log < 2 { lemma_pow2_increases(log + 1, 2); }
    if log > 30 { lemma_pow2_increases(31, log); }
}
pub proof fn lemma_pow2_increases(a: nat, b: nat)
    requires a <= b
    ensures pow2(a) <= pow2(b)
{
    if a < b { lemma_pow2_strictly_increases(a, b); }
}
pub proof fn lemma_cols(l: GridLayout, log: nat, max_power: nat)
    requires layout_ok(l), pow2(log) <= l.max_x - l.min_x < pow2(log + 1), log <= 30,
        l.power == if log > max_power { (log - max_power) as int } else { 1int }
    ensures col(l, l.max_x as int) < pow2(max_power) * 2
{
    lemma_col(l, l.max_x as int);
    lemma_step(l);
    let c = col(l, l.max_x as int);
    lemma2_to64();
    lemma_pow2_unfold(log + 1);
    if log > max_power {
        lemma_pow2_adds(l.power as nat, max_power);
    } else {
        lemma_pow2_increases(log, max_power);
        lemma_pow2_increases(0, max_power);
    }
    let (d, m, w) = (step(l), pow2(max_power) as int, l.max_x - l.min_x);
    assert(c * d <= w);
    assert(w < 2 * m * d) by {
        if log > max_power { assert(d * m == pow2(log)); assert(2 * m * d == 2 * (d * m)) by (nonlinear_arith); }
        else { assert(2 * m * d >= 2 * m) by (nonlinear_arith) requires d >= 1, m >= 0; }
    }
    assert(c < 2 * m) by (nonlinear_arith) requires c * d < 2 * m * d, d >= 1;
}

// w * height / width rounded down is q, rounded up is q + (0 or 1)
pub proof fn lemma_heights(w: int, height: int, width: int)
    requires 0 <= w <= width, 0 < width < 0x8000_0000, 0 <= height < 0x8000_0000
    ensures ({
        let (h, q, m) = (w * height, (w * height) / width, (w * height) % width);
        let u = if m != 0 { q + 1 } else { q };
        &&& 0 <= h <= 0x8000_0000 * 0x8000_0000 && 0 <= q <= u <= height && 0 <= m < width
        &&& q * width <= h < (q + 1) * width
        &&& (u - 1) * width < h <= u * width
        &&& -u * width <= -h && -h < (-u + 1) * width
        &&& (-q - 1) * width < -h && -h <= -q * width
        &&& (-h == w * -height)
    })
{
    let h = w * height;
    let q = h / width;
    let m = h % width;
    assert(0 <= h <= width * height) by (nonlinear_arith) requires 0 <= w <= width, 0 <= height, h == w * height;
    assert(width * height <= 0x8000_0000 * 0x8000_0000) by (nonlinear_arith) requires 0 <= width < 0x8000_0000, 0 <= height < 0x8000_0000;
    lemma_fundamental_div_mod(h, width);
    lemma_mod_bound(h, width);
    lemma_div_pos_is_pos(h, width);
    let u = if m != 0 { q + 1 } else { q };
    assert(width * q == q * width && (q + 1) * width == q * width + width && (q - 1) * width == q * width - width) by (nonlinear_arith);
    assert(-u * width == -(u * width) && (-u + 1) * width == -(u * width) + width && (u - 1) * width == u * width - width
        && -q * width == -(q * width) && (-q - 1) * width == -(q * width) - width && w * -height == -(w * height)) by (nonlinear_arith);
    assert(u <= height) by (nonlinear_arith) requires (u - 1) * width < h, h <= width * height, width > 0;
}

pub proof fn lemma_step(l: GridLayout)
    requires layout_ok(l),
    ensures 2 <= step(l) <= 0x4000_0000
{
    lemma2_to64();
    if l.power > 1 { lemma_pow2_strictly_increases(1, l.power as nat); }
    if l.power < 30 { lemma_pow2_strictly_increases(l.power as nat, 30); }
}
// columns tile the axis
pub proof fn lemma_col(l: GridLayout, x: int)
    requires layout_ok(l), x >= l.min_x,
    ensures 0 <= col(l, x), pos_of(l, col(l, x)) <= x < pos_of(l, col(l, x) + 1)
{
    lemma_step(l);
    let d = step(l);
    lemma_fundamental_div_mod(x - l.min_x, d);
    lemma_mod_bound(x - l.min_x, d);
    lemma_div_pos_is_pos(x - l.min_x, d);
    let q = col(l, x);
    assert(d * q == q * d) by (nonlinear_arith);
    assert((q + 1) * d == q * d + d) by (nonlinear_arith);
}
pub proof fn lemma_col_mono(l: GridLayout, x: int, y: int)
    requires layout_ok(l), l.min_x <= x <= y,
    ensures col(l, x) <= col(l, y)
{
    lemma_step(l);
    lemma_div_is_ordered(x - l.min_x, y - l.min_x, step(l));
}

pub proof fn lemma_pos_mono(l: GridLayout, c: int, d: int)
    requires layout_ok(l), c <= d,
    ensures pos_of(l, c) <= pos_of(l, d), pos_of(l, c + 1) == pos_of(l, c) + step(l)
{
    lemma_step(l);
    assert(c * step(l) <= d * step(l)) by (nonlinear_arith) requires c <= d, step(l) >= 0;
    assert((c + 1) * step(l) == c * step(l) + step(l)) by (nonlinear_arith);
}
// the columns of s are columns of the buffer, and s starts in the first and ends in the last of them
pub proof fn lemma_fits(b: FragmentBuffer, s: XSegment)
    requires fits(b, s)
    ensures ({
        let (l, c0, c1) = (b.layout, first_col(b.layout, s), last_col(b.layout, s));
        &&& 0 <= c0 <= c1 < b.groups@.len()
        &&& pos_of(l, c0) <= s.a.x < pos_of(l, c0 + 1)
        &&& s.a.x < s.b.x ==> pos_of(l, c1) < s.b.x <= pos_of(l, c1 + 1)
        &&& c1 <= 0x7fff_ffff && c1 * step(l) < 0x7fff_ffff && 2 <= step(l) <= 0x4000_0000
    })
{
    let l = b.layout;
    lemma_step(l);
    lemma_col(l, s.a.x as int);
    if s.a.x < s.b.x {
        lemma_col(l, s.b.x - 1);
        lemma_col_mono(l, s.a.x as int, s.b.x - 1);
        lemma_col_mono(l, s.b.x - 1, l.max_x as int);
    } else {
        lemma_col_mono(l, s.a.x as int, l.max_x as int);
    }
    let c1 = last_col(l, s);
    assert(c1 * step(l) >= c1) by (nonlinear_arith) requires c1 >= 0, step(l) >= 1;
}
// the ends of a segment are its exact heights
pub proof fn lemma_one_piece(l: GridLayout, s: XSegment)
    requires layout_ok(l), seg_ok(s), s.a.x < s.b.x
    ensures floor_ok(s.a.y as int, s.a.x as int, s), floor_ok(s.b.y as int, s.b.x as int, s),
        ceil_ok(s.a.y as int, s.a.x as int, s), ceil_ok(s.b.y as int, s.b.x as int, s),
{
    let (w, h) = (s.b.x - s.a.x, s.b.y - s.a.y);
    assert(h * w == w * h && (h + 1) * w == h * w + w && (h - 1) * w == h * w - w && 0 * w == 0 && 0 * h == 0 && 1 * w == w && (0 - 1) * w == -w) by (nonlinear_arith);
}
// the rounded heights of s at a.x + w
pub proof fn lemma_rounded(s: XSegment, w: int)
    requires seg_ok(s), 0 <= w <= s.b.x - s.a.x, s.a.x < s.b.x
    ensures ({
        let (width, height) = (s.b.x - s.a.x, iabs(s.b.y - s.a.y));
        let (q, m) = ((w * height) / width, (w * height) % width);
        let u = if m != 0 { q + 1 } else { q };
        let x = s.a.x + w;
        &&& 0 <= w * height <= 0x8000_0000 * 0x8000_0000 && 0 <= q <= u <= height && 0 <= m < width
        &&& if s.a.y <= s.b.y { floor_ok(s.a.y + q, x, s) && ceil_ok(s.a.y + u, x, s) } else { ceil_ok(s.a.y - q, x, s) && floor_ok(s.a.y - u, x, s) }
    })
{
    let (width, height) = (s.b.x - s.a.x, iabs(s.b.y - s.a.y));
    lemma_heights(w, height, width);
}
// of two heights of s, the lower one rounded down is not above the higher one rounded up
pub proof fn lemma_ordered(s: XSegment, v: int, x: int, u: int, z: int)
    requires seg_ok(s), s.a.x < s.b.x, floor_ok(v, x, s), ceil_ok(u, z, s), if s.a.y <= s.b.y { x <= z } else { z <= x }
    ensures v <= u
{
    let (w, h) = (s.b.x - s.a.x, s.b.y - s.a.y);
    assert((x - s.a.x) * h <= (z - s.a.x) * h) by (nonlinear_arith) requires h >= 0 && x <= z || h <= 0 && z <= x;
    assert(v - s.a.y <= u - s.a.y) by (nonlinear_arith) requires (v - s.a.y) * w <= (u - s.a.y) * w, w > 0;
}
// one column more
pub proof fn lemma_spread(g0: Seq<Vec<Fragment>>, g1: Seq<Vec<Fragment>>, g2: Seq<Vec<Fragment>>, f: Fragment, id: usize, s: XSegment, l: GridLayout, lo: int, hi: int)
    requires spread(g0, g1, id, s, l, lo, hi), 0 <= lo <= hi < g0.len(), g2.len() == g1.len(), f.index == id, f.x_segment == s, piece_box(f.rect, s, l, hi),
        forall|c: int| #![trigger g2[c]] 0 <= c < g1.len() ==> if c == hi { g2[c]@ == g1[c]@.push(f) } else { g2[c] == g1[c] },
    ensures spread(g0, g2, id, s, l, lo, hi + 1)
{
    broadcast use push_one;
    assert forall|c: int| #![trigger g2[c]] 0 <= c < g0.len() implies
        if lo <= c < hi + 1 { one_more(g0[c]@, g2[c]@, id, s, l, c) } else { g2[c] == g0[c] } by { let _ = g1[c]; }
}
pub proof fn lemma_flat(s: XSegment, x: int)
    requires seg_ok(s), s.a.x < s.b.x, s.a.y == s.b.y
    ensures floor_ok(s.a.y as int, x, s), ceil_ok(s.a.y as int, x, s)
{
    let w = s.b.x - s.a.x;
    assert((x - s.a.x) * 0 == 0 && 0 * w == 0 && 1 * w == w && (0 - 1) * w == -w) by (nonlinear_arith);
}
pub broadcast proof fn push_one(g: Seq<Fragment>, f: Fragment)
    ensures (#[trigger] g.push(f)).drop_last() == g, g.push(f).last() == f, g.push(f).len() == g.len() + 1
{
    assert(g.push(f).drop_last() =~= g);
}
impl GridLayout {
//@ fn split/grid_layout.rs GridLayout index
//@ spec
        requires layout_ok(*self), self.min_x <= x < 0x4000_0000
        ensures r == col(*self, x as int), r <= 0x7fff_ffff
//@ entry
        proof {
            let d = (x - self.min_x) as i32;
            let p = self.power;
            let u = d as u32;
            assert(d >= 0 && p <= 30 ==> (d >> p) as u32 == (d as u32) >> p && d >> p >= 0) by (bit_vector);
            lemma_u32_shr_is_div(u, p);
            lemma_step(*self);
        }
//@ endfn
//@ fn split/grid_layout.rs GridLayout pos
//@ spec
        requires layout_ok(*self), index <= 0x7fff_ffff, index * step(*self) <= 0x7fff_ffff, pos_of(*self, index as int) <= 0x7fff_ffff
        ensures r == pos_of(*self, index as int)
//@ entry
        proof {
            lemma_step(*self);
            let q = self.power;
            lemma_u64_shl_is_mul(index as u64, q as u64);
            assert(index << q == (index as u64) << (q as u64)) by (bit_vector) requires q <= 30;
            assert(index * step(*self) <= 0x7fff_ffff);
        }
//@ endfn
//@ fn split/grid_layout.rs GridLayout with_min_max
//@ spec
        requires -0x4000_0000 < min_x <= max_x < 0x4000_0000, max_power <= 32
        ensures
            r is None <==> max_x - min_x < 4,
            r is Some ==> layout_ok(r->Some_0) && r->Some_0.min_x == min_x && r->Some_0.max_x == max_x
                && col(r->Some_0, max_x as int) < pow2(max_power as nat) * 2,
//@ before power
        proof { lemma_ilog(dx as int, log as nat, max_power as nat); }
//@ after power
        proof { lemma_cols(GridLayout { min_x, max_x, power }, log as nat, max_power as nat); }
//@ endfn
}
impl Fragment {
//@ fn split/fragment.rs Fragment with_index_and_segment
//@ spec
        ensures r.index == index, r.x_segment == x_segment, r.rect.min_x == x_segment.a.x, r.rect.max_x == x_segment.b.x,
            r.rect.min_y == min_i(x_segment.a.y as int, x_segment.b.y as int), r.rect.max_y == max_i(x_segment.a.y as int, x_segment.b.y as int)
//@ endfn
}
// g1 is g0 with one fragment more in each of the columns lo ..< hi
pub open spec fn spread(g0: Seq<Vec<Fragment>>, g1: Seq<Vec<Fragment>>, id: usize, s: XSegment, l: GridLayout, lo: int, hi: int) -> bool {
    g1.len() == g0.len() && forall|c: int| #![trigger g1[c]] 0 <= c < g0.len() ==>
        if lo <= c < hi { one_more(g0[c]@, g1[c]@, id, s, l, c) } else { g1[c] == g0[c] }
}
// the vertical edges recorded for column c
pub open spec fn bordered(m: Map<usize, Vec<BorderVSegment>>, c: usize) -> Seq<BorderVSegment> {
    if m.contains_key(c) { m[c]@ } else { Seq::empty() }
}
pub open spec fn border_of(id: usize, s: XSegment) -> BorderVSegment {
    BorderVSegment { id, y_range: LineRange { min: min_i(s.a.y as int, s.b.y as int) as i32, max: max_i(s.a.y as int, s.b.y as int) as i32 } }
}
// m1 is m0 with the vertical edge s recorded when it runs along the left border of its column
pub open spec fn border_added(m0: Map<usize, Vec<BorderVSegment>>, m1: Map<usize, Vec<BorderVSegment>>, id: usize, s: XSegment, l: GridLayout) -> bool {
    let c0 = first_col(l, s);
    forall|c: usize| #![trigger bordered(m1, c)]
        bordered(m1, c) == if s.a.x == s.b.x && c == c0 && c0 > 0 && s.a.x == pos_of(l, c0) { bordered(m0, c).push(border_of(id, s)) } else { bordered(m0, c) }
}
// no column is entered without an edge
pub open spec fn no_blanks(m: Map<usize, Vec<BorderVSegment>>) -> bool { forall|c: usize| #[trigger] m.contains_key(c) ==> m[c]@.len() > 0 }
// what adding s as segment number id does to the buffer
pub open spec fn added(b0: FragmentBuffer, b1: FragmentBuffer, id: usize, s: XSegment) -> bool {
    b1.layout == b0.layout
    && spread(b0.groups@, b1.groups@, id, s, b0.layout, first_col(b0.layout, s), last_col(b0.layout, s) + 1)
    && border_added(b0.on_border@, b1.on_border@, id, s, b0.layout)
    && (no_blanks(b0.on_border@) ==> no_blanks(b1.on_border@))
}
impl FragmentBuffer {
//@ fn split/grid_layout.rs FragmentBuffer insert
//@ sub <<<?unsafe { self.groups.get_unchecked_mut(bin_index) }.push(fragment)>>> <<<(&mut self.groups[bin_index]).push(fragment)>>>
//@ spec
        requires bin_index < old(self).groups@.len()
        ensures final(self).layout == old(self).layout, final(self).on_border == old(self).on_border,
            final(self).groups@.len() == old(self).groups@.len(),
            forall|c: int| #![trigger final(self).groups@[c]] 0 <= c < old(self).groups@.len() ==>
                if c == bin_index { final(self).groups@[c]@ == old(self).groups@[c]@.push(fragment) } else { final(self).groups@[c] == old(self).groups@[c] }
//@ endfn
//@ fn split/grid_layout.rs FragmentBuffer insert_vertical
//@ spec
        requires fits(*old(self), fragment.x_segment), fragment.x_segment.a.x == fragment.x_segment.b.x,
            bin_index == first_col(old(self).layout, fragment.x_segment)
        ensures final(self).layout == old(self).layout,
            final(self).groups@.len() == old(self).groups@.len(),
            forall|c: int| #![trigger final(self).groups@[c]] 0 <= c < old(self).groups@.len() ==>
                if c == bin_index { final(self).groups@[c]@ == old(self).groups@[c]@.push(fragment) } else { final(self).groups@[c] == old(self).groups@[c] },
            border_added(old(self).on_border@, final(self).on_border@, fragment.index, fragment.x_segment, old(self).layout),
            no_blanks(old(self).on_border@) ==> no_blanks(final(self).on_border@)
//@ entry
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        proof {
            lemma_col(self.layout, fragment.x_segment.a.x as int);
            lemma_col_mono(self.layout, fragment.x_segment.a.x as int, self.layout.max_x as int);
            lemma_step(self.layout);
        }
//@ at <<<self.insert(fragment,>>>
        proof {
            let (m0, m1, b) = (old(self).on_border@, self.on_border@, border_of(fragment.index, fragment.x_segment));
            let rec = bin_index > 0 && fragment.x_segment.a.x == pos_of(self.layout, bin_index as int);
            assert(rec && m0.contains_key(bin_index) ==> m1.contains_key(bin_index));
            assert(rec && !m0.contains_key(bin_index) ==> bordered(m1, bin_index) =~= Seq::empty().push(b));
            assert(rec ==> bordered(m1, bin_index) =~= bordered(m0, bin_index).push(b));
        }
//@ endfn
//@ fn split/grid_layout.rs FragmentBuffer add_segment
//@ spec
        requires fits(*old(self), s)
        ensures added(*old(self), *final(self), segment_index, s)
//@ entry
        broadcast use push_one;
        let ghost l = self.layout;
        let ghost c0 = first_col(l, s);
        let ghost c1 = last_col(l, s);
        proof {
            lemma_fits(*self, s);
            if s.a.x < s.b.x { lemma_one_piece(l, s); }
            lemma_pos_mono(l, c0, c1);
            if c0 < c1 { lemma_pos_mono(l, c0 + 1, c1); }
            let q = l.power;
            lemma_u64_shl_is_mul(1, q as u64);
            assert(1u64 << q == 1u64 << (q as u64)) by (bit_vector) requires q <= 30;
        }
//@ exit
        proof { assert(spread(old(self).groups@, self.groups@, segment_index, s, l, c0, c1 + 1)); }
//@ loop 0
            invariant
                fits(*old(self), s), s.a.y != s.b.y, s.a.x < s.b.x, is_inc == (s.a.y <= s.b.y), x0 == s.a.x, y0 == s.a.y, l == old(self).layout,
                width == s.b.x - s.a.x, height == iabs(s.b.y - s.a.y), dw == step(self.layout),
                i0 == first_col(self.layout, s), i1 == last_col(self.layout, s), i0 < i1,
                s.a.x + w == pos_of(self.layout, i as int + 1),
                prev_x == max_i(s.a.x as int, pos_of(self.layout, i as int)),
                if is_inc { floor_ok(prev_y as int, prev_x as int, s) } else { ceil_ok(prev_y as int, prev_x as int, s) },
                s.a.y <= prev_y <= s.b.y || s.b.y <= prev_y <= s.a.y,
                self.layout == old(self).layout, self.on_border == old(self).on_border,
                spread(old(self).groups@, self.groups@, segment_index, s, self.layout, i0 as int, i as int),
//@ loopbody 0
            let ghost g1 = self.groups@;
            proof {
                lemma_fits(*old(self), s);
                lemma_pos_mono(l, i as int + 1, i1 as int);
                lemma_pos_mono(l, i as int, i as int + 1);
                lemma_pos_mono(l, i0 as int, i as int);
                lemma_rounded(s, w as int);
                let (v, z) = (prev_y as int, prev_x as int);
                let (q, m) = ((w * height) as int / width as int, (w * height) as int % width as int);
                let u = if m != 0 { q + 1 } else { q };
                if is_inc { lemma_ordered(s, v, z, y0 + u, s.a.x + w); } else { lemma_ordered(s, y0 - u, s.a.x + w, v, z); }
            }
//@ loopend 0
            proof { lemma_spread(old(self).groups@, g1, self.groups@, self.groups@[i as int]@.last(), segment_index, s, l, i0 as int, i as int); }
//@ after_loop 0
        proof {
            lemma_fits(*old(self), s);
            lemma_one_piece(l, s);
            lemma_pos_mono(l, i0 as int, i1 as int);
            if is_inc { lemma_ordered(s, prev_y as int, prev_x as int, s.b.y as int, s.b.x as int); } else { lemma_ordered(s, s.b.y as int, s.b.x as int, prev_y as int, prev_x as int); }
        }
        let ghost g1 = self.groups@;
//@ endfn
//@ fn split/grid_layout.rs FragmentBuffer add_horizontal
//@ spec
        requires fits(*old(self), s), s.a.y == s.b.y
        ensures added(*old(self), *final(self), segment_index, s)
//@ entry
        broadcast use push_one;
        let ghost l = self.layout;
        proof {
            lemma_fits(*self, s);
            lemma_one_piece(l, s);
            assert forall|x: int| floor_ok(s.a.y as int, x, s) && ceil_ok(s.a.y as int, x, s) by { lemma_flat(s, x); }
        }
//@ loop 0
            invariant
                fits(*old(self), s), s.a.y == s.b.y, s.a.x < s.b.x, y == s.a.y, l == old(self).layout,
                forall|x: int| #[trigger] floor_ok(s.a.y as int, x, s), forall|x: int| #[trigger] ceil_ok(s.a.y as int, x, s),
                i0 == first_col(self.layout, s), i1 == last_col(self.layout, s), i0 <= i <= i1,
                x0 == max_i(s.a.x as int, pos_of(self.layout, i as int)),
                self.layout == old(self).layout, self.on_border == old(self).on_border,
                spread(old(self).groups@, self.groups@, segment_index, s, self.layout, i0 as int, i as int),
            decreases i1 - i
//@ loopbody 0
            let ghost g1 = self.groups@;
            let ghost c = i as int;
            proof {
                lemma_fits(*old(self), s);
                lemma_pos_mono(l, i as int + 1, i1 as int);
                lemma_pos_mono(l, i0 as int, i as int);
                lemma_pos_mono(l, i as int, i as int + 1);
            }
//@ loopend 0
            proof { lemma_spread(old(self).groups@, g1, self.groups@, self.groups@[c]@.last(), segment_index, s, l, i0 as int, c); }
//@ after_loop 0
        let ghost g1 = self.groups@;
        proof {
            lemma_fits(*old(self), s);
            lemma_pos_mono(l, i0 as int, i1 as int);
        }
//@ exit
        proof { lemma_spread(old(self).groups@, g1, self.groups@, self.groups@[i1 as int]@.last(), segment_index, s, l, i0 as int, i1 as int); }
//@ endfn
}

// ---- no meeting point is lost: two segments meeting at the point (n/d, m/d) share a column whose pieces both hold it ----
pub open spec fn on_point(s: XSegment, n: int, m: int, d: int) -> bool {
    d > 0 && s.a.x * d <= n <= s.b.x * d && (n - s.a.x * d) * (s.b.y - s.a.y) == (m - s.a.y * d) * (s.b.x - s.a.x)
    && (s.a.x == s.b.x ==> min_i(s.a.y as int, s.b.y as int) * d <= m <= max_i(s.a.y as int, s.b.y as int) * d)
}
pub open spec fn box_has(r: IntRect, n: int, m: int, d: int) -> bool {
    r.min_x * d <= n <= r.max_x * d && r.min_y * d <= m <= r.max_y * d
}
pub open spec fn in_col(l: GridLayout, s: XSegment, c: int) -> bool { first_col(l, s) <= c <= last_col(l, s) }
pub proof fn lemma_in_box(r: IntRect, s: XSegment, l: GridLayout, c: int, n: int, m: int, d: int)
    requires seg_ok(s), layout_ok(l), piece_box(r, s, l, c), on_point(s, n, m, d), pos_of(l, c) * d <= n <= pos_of(l, c + 1) * d
    ensures box_has(r, n, m, d)
{
    if s.a.x < s.b.x {
        let (w, h) = (s.b.x - s.a.x, s.b.y - s.a.y);
        let (lo, hi) = if s.a.y <= s.b.y { (r.min_x as int, r.max_x as int) } else { (r.max_x as int, r.min_x as int) };
        assert(r.min_x * d <= n <= r.max_x * d);
        assert(floor_ok(r.min_y as int, lo, s) && ceil_ok(r.max_y as int, hi, s));
        let (v, u) = (r.min_y - s.a.y, r.max_y - s.a.y);
        let (k, q) = (n - s.a.x * d, m - s.a.y * d);
        assert((lo - s.a.x) * d == lo * d - s.a.x * d && (hi - s.a.x) * d == hi * d - s.a.x * d) by (nonlinear_arith);
        assert(((lo - s.a.x) * d) * h <= k * h) by (nonlinear_arith) requires h >= 0 && (lo - s.a.x) * d <= k || h <= 0 && (lo - s.a.x) * d >= k;
        assert(((hi - s.a.x) * d) * h >= k * h) by (nonlinear_arith) requires h >= 0 && (hi - s.a.x) * d >= k || h <= 0 && (hi - s.a.x) * d <= k;
        assert((v * d) * w <= q * w) by (nonlinear_arith) requires v * w <= (lo - s.a.x) * h, ((lo - s.a.x) * d) * h <= q * w, d > 0;
        assert(q * w <= (u * d) * w) by (nonlinear_arith) requires u * w >= (hi - s.a.x) * h, ((hi - s.a.x) * d) * h >= q * w, d > 0;
        assert(v * d <= q <= u * d) by (nonlinear_arith) requires (v * d) * w <= q * w, q * w <= (u * d) * w, w > 0;
        assert(v * d == r.min_y * d - s.a.y * d && u * d == r.max_y * d - s.a.y * d) by (nonlinear_arith) requires v == r.min_y - s.a.y, u == r.max_y - s.a.y;
    }
}
// t is vertical, runs along the left border of its column, and o ends on that border
pub open spec fn border_case(l: GridLayout, t: XSegment, o: XSegment) -> bool {
    t.a.x == t.b.x && o.a.x < o.b.x && o.b.x == t.a.x && first_col(l, t) > 0 && t.a.x == pos_of(l, first_col(l, t)) && last_col(l, o) == first_col(l, t) - 1
}
pub proof fn lemma_prev_col(l: GridLayout, x: int)
    requires layout_ok(l), l.min_x < x
    ensures col(l, x - 1) == col(l, x) || (col(l, x - 1) == col(l, x) - 1 && x == pos_of(l, col(l, x)))
{
    lemma_col(l, x);
    lemma_col(l, x - 1);
    lemma_col_mono(l, x - 1, x);
    let (p, q) = (col(l, x - 1), col(l, x));
    lemma_pos_mono(l, p + 1, p + 1);
    if p + 1 <= q { lemma_pos_mono(l, p + 1, q); }
    if p + 2 <= q { lemma_pos_mono(l, p + 2, q); lemma_step(l); }
}
pub proof fn lemma_meet(b: FragmentBuffer, t: XSegment, o: XSegment, n: int, m: int, d: int)
    requires fits(b, t), fits(b, o), on_point(t, n, m, d), on_point(o, n, m, d),
        // the point is not just an end of both
        !(n == t.b.x * d && n == o.a.x * d && m == t.b.y * d && m == o.a.y * d), !(n == o.b.x * d && n == t.a.x * d && m == o.b.y * d && m == t.a.y * d),
    ensures
        border_case(b.layout, t, o) || border_case(b.layout, o, t)
        || exists|c: int| #![trigger in_col(b.layout, t, c)] in_col(b.layout, t, c) && in_col(b.layout, o, c)
            && forall|r0: IntRect, r1: IntRect| #![trigger piece_box(r0, t, b.layout, c), piece_box(r1, o, b.layout, c)]
                piece_box(r0, t, b.layout, c) && piece_box(r1, o, b.layout, c) ==> box_has(r0, n, m, d) && box_has(r1, n, m, d)
{
    let l = b.layout;
    lemma_fits(b, t);
    lemma_fits(b, o);
    let x = n / d;
    lemma_fundamental_div_mod(n, d);
    lemma_mod_bound(n, d);
    assert(x * d <= n < (x + 1) * d) by (nonlinear_arith) requires n == d * x + n % d, 0 <= n % d < d;
    lemma_between(t, n, d, x);
    lemma_between(o, n, d, x);
    lemma_col(l, x);
    lemma_prev_or_first(l, x);
    let bx = min_i(t.b.x as int, o.b.x as int);
    if t.a.x < t.b.x && o.a.x < o.b.x {
        if x < bx {
            lemma_col_mono(l, t.a.x as int, x); lemma_col_mono(l, x, t.b.x - 1);
            lemma_col_mono(l, o.a.x as int, x); lemma_col_mono(l, x, o.b.x - 1);
            lemma_meet_at(l, t, o, n, m, d, x, col(l, x));
        } else {
            assert(n == x * d && x == bx) by (nonlinear_arith) requires x >= bx, n <= bx * d, x * d <= n, d > 0, x * d >= bx * d || x < bx;
            if t.a.x == x { lemma_end_point(t, o, n, m, d); }
            if o.a.x == x { lemma_end_point(o, t, n, m, d); }
            assert(t.a.x < x && o.a.x < x);
            lemma_col(l, x - 1);
            lemma_col_mono(l, t.a.x as int, x - 1); lemma_col_mono(l, x - 1, t.b.x - 1);
            lemma_col_mono(l, o.a.x as int, x - 1); lemma_col_mono(l, x - 1, o.b.x - 1);
            lemma_meet_at(l, t, o, n, m, d, x, col(l, x - 1));
        }
    } else {
        let (v, s) = if t.a.x == t.b.x { (t, o) } else { (o, t) };
        assert(n == x * d && x == v.a.x) by (nonlinear_arith) requires n == v.a.x * d, x * d <= n < (x + 1) * d, d > 0;
        lemma_col_mono(l, s.a.x as int, x);
        if s.a.x == s.b.x || x < s.b.x {
            if s.a.x < s.b.x { lemma_col_mono(l, x, s.b.x - 1); }
            lemma_meet_at(l, t, o, n, m, d, x, col(l, x));
        } else {
            assert(x == s.b.x);
            if col(l, x - 1) == col(l, x) {
                lemma_meet_at(l, t, o, n, m, d, x, col(l, x));
            } else {
                lemma_prev_col(l, x);
                lemma_col(l, x - 1);
                assert(border_case(l, v, s));
            }
        }
    }
}
pub proof fn lemma_prev_or_first(l: GridLayout, x: int)
    requires layout_ok(l), l.min_x <= x
    ensures l.min_x < x ==> col(l, x - 1) <= col(l, x)
{
    if l.min_x < x { lemma_col_mono(l, x - 1, x); }
}
pub proof fn lemma_between(s: XSegment, n: int, d: int, x: int)
    requires d > 0, s.a.x * d <= n <= s.b.x * d, x * d <= n < (x + 1) * d
    ensures s.a.x <= x <= s.b.x
{
    assert(s.a.x <= x) by (nonlinear_arith) requires s.a.x * d < (x + 1) * d, d > 0;
    assert(x <= s.b.x) by (nonlinear_arith) requires x * d <= s.b.x * d, d > 0;
}
// o ends where t starts
pub proof fn lemma_end_point(t: XSegment, o: XSegment, n: int, m: int, d: int)
    requires seg_ok(t), seg_ok(o), on_point(t, n, m, d), on_point(o, n, m, d), t.a.x == o.b.x, t.a.x < t.b.x, o.a.x < o.b.x
    ensures n == o.b.x * d, n == t.a.x * d, m == o.b.y * d, m == t.a.y * d
{
    let (w, h) = (t.b.x - t.a.x, t.b.y - t.a.y);
    assert(m - t.a.y * d == 0) by (nonlinear_arith) requires (m - t.a.y * d) * w == (n - t.a.x * d) * h, n - t.a.x * d == 0, w > 0;
    let (w2, h2) = (o.b.x - o.a.x, o.b.y - o.a.y);
    assert(w2 * d == n - o.a.x * d) by (nonlinear_arith) requires n == o.b.x * d, w2 == o.b.x - o.a.x;
    let q = m - o.a.y * d;
    assert(q * w2 == (w2 * d) * h2);
    assert(q == d * h2) by (nonlinear_arith) requires q * w2 == (w2 * d) * h2, w2 > 0;
    assert(d * h2 == o.b.y * d - o.a.y * d) by (nonlinear_arith) requires h2 == o.b.y - o.a.y;
}
pub proof fn lemma_meet_at(l: GridLayout, t: XSegment, o: XSegment, n: int, m: int, d: int, x: int, c: int)
    requires layout_ok(l), seg_ok(t), seg_ok(o), on_point(t, n, m, d), on_point(o, n, m, d), in_col(l, t, c), in_col(l, o, c),
        x * d <= n < (x + 1) * d, pos_of(l, c) <= x, x < pos_of(l, c + 1) || (x == pos_of(l, c + 1) && n == x * d)
    ensures exists|c: int| #![trigger in_col(l, t, c)] in_col(l, t, c) && in_col(l, o, c)
            && forall|r0: IntRect, r1: IntRect| #![trigger piece_box(r0, t, l, c), piece_box(r1, o, l, c)]
                piece_box(r0, t, l, c) && piece_box(r1, o, l, c) ==> box_has(r0, n, m, d) && box_has(r1, n, m, d)
{
    let (p, q) = (pos_of(l, c), pos_of(l, c + 1));
    assert(p * d <= x * d) by (nonlinear_arith) requires p <= x, d > 0;
    if x < q { assert((x + 1) * d <= q * d) by (nonlinear_arith) requires x + 1 <= q, d > 0; }
    assert forall|r0: IntRect, r1: IntRect| #![trigger piece_box(r0, t, l, c), piece_box(r1, o, l, c)]
        piece_box(r0, t, l, c) && piece_box(r1, o, l, c) implies box_has(r0, n, m, d) && box_has(r1, n, m, d) by {
        lemma_in_box(r0, t, l, c, n, m, d);
        lemma_in_box(r1, o, l, c, n, m, d);
    }
    assert(in_col(l, t, c));
}
}
fn main() {}
