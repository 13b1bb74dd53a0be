// ---- one pass that marks every meeting exactly leaves no meeting: from marks to pieces that are apart ----
//@ import bins.vx
//@ import planar.vx
verus! {
pub open spec fn seg_at<C: Send>(segs: Seq<Segment<C>>, k: int) -> XSegment { segs[k].x_segment }
pub open spec fn end_of(p: IntPoint, s: XSegment) -> bool { p == s.a || p == s.b }
pub open spec fn has_mark(marks: Seq<LineMark>, k: int, p: IntPoint) -> bool { 0 <= k <= usize::MAX && marks.contains(LineMark { index: k as usize, point: p }) }
// the places where the segment j meets the segment i are marked on i
pub open spec fn both_marked(marks: Seq<LineMark>, i: int, j: int, s: XSegment, o: XSegment, c: IntPoint) -> bool {
    on_line(c, s) && on_line(c, o) && has_mark(marks, i, c) && has_mark(marks, j, c)
}
pub open spec fn shown<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, i: int, j: int) -> bool {
    let (s, o) = (seg_at(segs, i), seg_at(segs, j));
    &&& inside(o.a, s) ==> has_mark(marks, i, o.a)
    &&& inside(o.b, s) ==> has_mark(marks, i, o.b)
    &&& proper_cross(s, o) ==> exists|c: IntPoint| #[trigger] both_marked(marks, i, j, s, o, c)
}
// every mark lies where another segment meets
pub open spec fn meets_at(s: XSegment, o: XSegment, p: IntPoint) -> bool { on_closed(p, o) && (end_of(p, o) || !all_collinear(o, s)) }
pub open spec fn true_mark<C: Send>(segs: Seq<Segment<C>>, m: LineMark) -> bool {
    inside(m.point, seg_at(segs, m.index as int)) && exists|k: int| 0 <= k < segs.len() && k != m.index && #[trigger] meets_at(seg_at(segs, m.index as int), seg_at(segs, k), m.point)
}
// any mark, exact or not, is a new point of its segment
pub open spec fn fair_mark<C: Send>(segs: Seq<Segment<C>>, m: LineMark) -> bool {
    &&& m.index < segs.len() && in_range(m.point) && !end_of(m.point, seg_at(segs, m.index as int)) && segs[0].x_segment.a.x <= m.point.x
    &&& exists|k: int| 0 <= k < segs.len() && #[trigger] in_box(m.point, seg_at(segs, k))
}
pub open spec fn segs_ok<C: Send>(segs: Seq<Segment<C>>) -> bool { forall|i: int| 0 <= i < segs.len() ==> seg_ok((#[trigger] segs[i]).x_segment) }
pub open spec fn planar<C: Send>(segs: Seq<Segment<C>>) -> bool {
    forall|i: int, j: int| 0 <= i < segs.len() && 0 <= j < segs.len() && i != j ==> apart((#[trigger] segs[i]).x_segment, (#[trigger] segs[j]).x_segment)
}

// ---- a piece ----
pub open spec fn is_piece(x: XSegment, s: XSegment, pts: Seq<IntPoint>) -> bool {
    &&& part_of_seg(x, s) && (x.a == s.a || pts.contains(x.a)) && (x.b == s.b || pts.contains(x.b))
    &&& forall|i: int| 0 <= i < pts.len() ==> le_pt(#[trigger] pts[i], x.a) || le_pt(x.b, pts[i])
}
pub open spec fn climb(pts: Seq<IntPoint>) -> bool { forall|i: int, j: int| 0 <= i < j < pts.len() ==> pt_lt(#[trigger] pts[i], #[trigger] pts[j]) }
pub proof fn lemma_cut_piece<C: WindingCount>(s: Segment<C>, pts: Seq<IntPoint>, t: int)
    requires
        pt_lt(s.x_segment.a, s.x_segment.b), climb(pts), forall|i: int| 0 <= i < pts.len() ==> inside(#[trigger] pts[i], s.x_segment), 0 <= t < cut(s, pts).len()
    ensures is_piece(cut(s, pts)[t].x_segment, s.x_segment, pts)
{
    let x = cut(s, pts)[t].x_segment;
    let (a, b) = (s.x_segment.a, s.x_segment.b);
    lemma_ends_on(s.x_segment);
    if pts.len() > 0 {
        let all = pts.push(b);
        lemma_chain_len(a, all, s.count);
        let p = if t == 0 { a } else { all[t - 1] };
        let q = all[t];
        if t > 0 { assert(inside(pts[t - 1], s.x_segment)); }
        if t < pts.len() { assert(inside(pts[t], s.x_segment)); }
        assert(pt_lt(p, q));
        assert(x == XSegment { a: p, b: q });
        assert forall|i: int| 0 <= i < pts.len() implies le_pt(#[trigger] pts[i], x.a) || le_pt(x.b, pts[i]) by {
            if i < t - 1 { assert(pt_lt(pts[i], pts[t - 1])); }
            if i > t { assert(pt_lt(pts[t], pts[i])); }
        }
    }
}
pub open spec fn piece_of<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, x: XSegment, k: int) -> bool { 0 <= k < segs.len() && is_piece(x, seg_at(segs, k), pts_of(marks, k)) }
pub proof fn lemma_pieces_of<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, n: int, t: int) -> (k: int)
    requires
        segs_ok(segs), 0 <= n <= segs.len(), 0 <= t < pieces(segs, marks, n).len(),
        forall|k: int| 0 <= k < segs.len() ==> climb(#[trigger] pts_of(marks, k)),
        forall|k: int, i: int| 0 <= k < segs.len() && 0 <= i < pts_of(marks, k).len() ==> inside(#[trigger] pts_of(marks, k)[i], seg_at(segs, k))
    ensures piece_of(segs, marks, pieces(segs, marks, n)[t].x_segment, k)
    decreases n
{
    if n <= 0 { 0 } else {
        let p = pieces(segs, marks, n - 1);
        if t < p.len() { lemma_pieces_of(segs, marks, n - 1, t) }
        else {
            assert(seg_ok(segs[n - 1].x_segment));
            assert(climb(pts_of(marks, n - 1)));
            lemma_cut_piece(segs[n - 1], pts_of(marks, n - 1), t - p.len());
            n - 1
        }
    }
}
// ---- pieces of marked segments are apart ----
pub open spec fn exact<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < segs.len() && 0 <= j < segs.len() && i != j ==> #[trigger] shown(segs, marks, i, j)
    &&& forall|m: LineMark| #[trigger] marks.contains(m) ==> m.index < segs.len() && true_mark(segs, m)
}
pub proof fn lemma_has_pts(marks: Seq<LineMark>, k: int, p: IntPoint)
    requires has_mark(marks, k, p)
    ensures pts_of(marks, k).contains(p)
    decreases marks.len()
{
    let m = LineMark { index: k as usize, point: p };
    let i = choose|i: int| 0 <= i < marks.len() && marks[i] == m;
    let t = pts_of(marks.drop_last(), k);
    if i == marks.len() - 1 { assert(t.push(p)[t.len() as int] == p); }
    else {
        assert(marks.drop_last()[i] == m);
        lemma_has_pts(marks.drop_last(), k, p);
        let q = choose|q: int| 0 <= q < t.len() && t[q] == p;
        assert(pts_of(marks, k)[q] == p);
    }
}
pub proof fn lemma_pts_has(marks: Seq<LineMark>, k: int, i: int)
    requires 0 <= i < pts_of(marks, k).len()
    ensures has_mark(marks, k, pts_of(marks, k)[i])
    decreases marks.len()
{
    let (d, t) = (marks.drop_last(), pts_of(marks.drop_last(), k));
    if i < t.len() {
        lemma_pts_has(d, k, i);
        let m = LineMark { index: k as usize, point: t[i] };
        let q = choose|q: int| 0 <= q < d.len() && d[q] == m;
        assert(marks[q] == m);
    } else { assert(marks[marks.len() - 1] == LineMark { index: k as usize, point: pts_of(marks, k)[i] }); }
}
pub proof fn lemma_not_marked(marks: Seq<LineMark>, x: XSegment, s: XSegment, k: int, e: IntPoint)
    requires is_piece(x, s, pts_of(marks, k)), inside(e, x), has_mark(marks, k, e)
    ensures false
{
    lemma_has_pts(marks, k, e);
    let q = choose|q: int| 0 <= q < pts_of(marks, k).len() && pts_of(marks, k)[q] == e;
    assert(le_pt(pts_of(marks, k)[q], x.a) || le_pt(x.b, pts_of(marks, k)[q]));
}
// a point inside the segment i where the segment k meets it is marked
pub proof fn lemma_meeting<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, i: int, k: int, e: IntPoint)
    requires
        segs_ok(segs), exact(segs, marks), 0 <= i < segs.len(), 0 <= k < segs.len(), i != k, inside(e, seg_at(segs, i)), meets_at(seg_at(segs, i), seg_at(segs, k), e)
    ensures has_mark(marks, i, e)
{
    let (s, o) = (seg_at(segs, i), seg_at(segs, k));
    assert(shown(segs, marks, i, k));
    assert(seg_ok(segs[i].x_segment) && seg_ok(segs[k].x_segment));
    if !end_of(e, o) {
        assert(inside(e, o));
        lemma_inside_cross(s, o, e);
        let c = choose|c: IntPoint| #[trigger] both_marked(marks, i, k, s, o, c);
        if c != e { lemma_common(s, o, e, c); }
    }
}
pub proof fn lemma_end_outside<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, x: XSegment, y: XSegment, i: int, j: int, e: IntPoint)
    requires segs_ok(segs), exact(segs, marks), piece_of(segs, marks, x, i), piece_of(segs, marks, y, j), end_of(e, y), inside(e, x)
    ensures false
{
    let (s, o) = (seg_at(segs, i), seg_at(segs, j));
    assert(seg_ok(segs[i].x_segment) && seg_ok(segs[j].x_segment));
    lemma_part_inside(s, x, e);
    if !end_of(e, o) {
        let p = pts_of(marks, j);
        assert(p.contains(e));
        let q = choose|q: int| 0 <= q < p.len() && p[q] == e;
        lemma_pts_has(marks, j, q);
        let m = LineMark { index: j as usize, point: e };
        assert(has_mark(marks, j, e));
        if i == j { lemma_not_marked(marks, x, s, i, e); }
        assert(marks.contains(m));
        assert(true_mark(segs, m));
        if !all_collinear(s, o) {
            lemma_meeting(segs, marks, i, j, e);
        } else {
            let k = choose|k: int| 0 <= k < segs.len() && k != m.index && #[trigger] meets_at(seg_at(segs, m.index as int), seg_at(segs, k), m.point);
            assert(seg_ok(segs[k].x_segment));
            let z = seg_at(segs, k);
            if k != i {
                if all_collinear(z, s) && !end_of(e, z) {
                    lemma_common(z, o, s.a, s.b);
                }
                lemma_meeting(segs, marks, i, k, e);
            }
        }
    } else if i != j {
        lemma_ends_on(o);
        lemma_meeting(segs, marks, i, j, e);
    }
    lemma_not_marked(marks, x, s, i, e);
}
pub proof fn lemma_pieces_apart<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, x: XSegment, y: XSegment, i: int, j: int)
    requires segs_ok(segs), exact(segs, marks), piece_of(segs, marks, x, i), piece_of(segs, marks, y, j)
    ensures apart(x, y)
{
    let (s, o) = (seg_at(segs, i), seg_at(segs, j));
    if inside(y.a, x) { lemma_end_outside(segs, marks, x, y, i, j, y.a); }
    if inside(y.b, x) { lemma_end_outside(segs, marks, x, y, i, j, y.b); }
    if inside(x.a, y) { lemma_end_outside(segs, marks, y, x, j, i, x.a); }
    if inside(x.b, y) { lemma_end_outside(segs, marks, y, x, j, i, x.b); }
    if proper_cross(x, y) {
        lemma_parts_cross(s, o, x, y);
        if i == j {
            lemma_part_side(s, y, x.a);
        } else {
            assert(shown(segs, marks, i, j));
            let c = choose|c: IntPoint| #[trigger] both_marked(marks, i, j, s, o, c);
            assert(pt_lt(x.a, c) && pt_lt(c, x.b));
            lemma_has_pts(marks, i, c);
            let q = choose|q: int| 0 <= q < pts_of(marks, i).len() && pts_of(marks, i)[q] == c;
            assert(le_pt(pts_of(marks, i)[q], x.a) || le_pt(x.b, pts_of(marks, i)[q]));
        }
    }
}
// ---- exact marks in the order in which they are applied ----
pub proof fn lemma_slope(s: XSegment, p: IntPoint, q: IntPoint)
    requires pt_lt(s.a, s.b), on_line(p, s), on_line(q, s), p.x <= q.x
    ensures
        s.a.x < s.b.x && p.x == q.x ==> p == q,
        s.a.x < s.b.x ==> le_to(p.y, q.y, s.a.y <= s.b.y), s.a.x == s.b.x ==> p.x == q.x && s.a.y < s.b.y
{
    lemma_along(s, p, q);
    let (ux, uy, wx, wy) = (dx(s.a, s.b), dy(s.a, s.b), dx(p, q), dy(p, q));
    if ux > 0 {
        if uy >= 0 { assert(uy * wx >= 0) by (nonlinear_arith) requires uy >= 0, wx >= 0; assert(wy >= 0) by (nonlinear_arith) requires ux * wy >= 0, ux > 0; }
        else { assert(uy * wx <= 0) by (nonlinear_arith) requires uy < 0, wx >= 0; assert(wy <= 0) by (nonlinear_arith) requires ux * wy <= 0, ux > 0; }
        if wx == 0 { assert(uy * wx == 0) by (nonlinear_arith) requires wx == 0; assert(wy == 0) by (nonlinear_arith) requires ux * wy == 0, ux > 0; }
    } else {
        assert(uy * wx == 0) by (nonlinear_arith) requires ux * wy - uy * wx == 0, ux == 0;
        assert(wx == 0) by (nonlinear_arith) requires uy * wx == 0, uy > 0;
    }
}
pub proof fn lemma_exact_steady<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, k: int)
    requires segs_ok(segs), exact(segs, marks), 0 <= k < segs.len()
    ensures steady(marks, k, segs[k].x_segment, segs[k].x_segment.a.y <= segs[k].x_segment.b.y)
{
    let s = segs[k].x_segment;
    let up = s.a.y <= s.b.y;
    assert(seg_ok(s));
    assert forall|i: int| 0 <= i < marks.len() && (#[trigger] marks[i]).index == k implies le_to(s.a.y, marks[i].point.y, up) && le_to(marks[i].point.y, s.b.y, up) by {
        assert(marks.contains(marks[i]));
        lemma_inside_y(marks[i].point, s);
    }
    assert forall|i: int, j: int| 0 <= i < marks.len() && 0 <= j < marks.len() && (#[trigger] marks[i]).index == k && (#[trigger] marks[j]).index == k && marks[i].point.x < marks[j].point.x
            implies le_to(marks[i].point.y, marks[j].point.y, up) by {
        assert(marks.contains(marks[i]) && marks.contains(marks[j]));
        lemma_slope(s, marks[i].point, marks[j].point);
    }
}
pub proof fn lemma_climb<C: Send>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, k: int, n: int)
    requires
        segs_ok(segs), exact(segs, marks), 0 <= k < segs.len(), marks.no_duplicates(), onward(marks, k, segs[k].x_segment.a.y <= segs[k].x_segment.b.y), 0 <= n <= marks.len()
    ensures climb(pts_of(marks.take(n), k))
    decreases n
{
    if n > 0 {
        let (s, d) = (segs[k].x_segment, marks.take(n - 1));
        assert(seg_ok(s));
        lemma_climb(segs, marks, k, n - 1);
        assert(marks.take(n).drop_last() =~= d);
        let (p, m) = (pts_of(d, k), marks[n - 1]);
        if m.index == k {
            assert forall|i: int, j: int| 0 <= i < j < p.push(m.point).len() implies pt_lt(#[trigger] p.push(m.point)[i], #[trigger] p.push(m.point)[j]) by {
                if j == p.len() {
                    lemma_pts_has(d, k, i);
                    let q = choose|q: int| 0 <= q < d.len() && d[q] == (LineMark { index: k as usize, point: p[i] });
                    assert(marks[q].index == k && marks[n - 1].index == k);
                    assert(marks.contains(marks[q]) && marks.contains(m));
                    assert(next_ok(marks[q].point, m.point, s.a.y <= s.b.y));
                    lemma_slope(s, marks[q].point, m.point);
                    assert(marks[q] != marks[n - 1]);
                } else { assert(pt_lt(p[i], p[j])); }
            }
        }
    }
}
// ---- the edges of the result are pieces ----
pub proof fn lemma_runs_from<C: WindingCount>(s: Seq<Segment<C>>, i: int) -> (j: int)
    requires 0 <= i < runs(s).len()
    ensures 0 <= j < s.len(), s[j].x_segment == runs(s)[i].x_segment
    decreases s.len()
{
    let r = runs(s.drop_last());
    if i < r.len() && !(i == r.len() - 1 && r.last().x_segment == s.last().x_segment) { lemma_runs_from(s.drop_last(), i) } else { s.len() - 1 }
}
pub proof fn lemma_live_from<C: WindingCount>(s: Seq<Segment<C>>, i: int) -> (j: int)
    requires 0 <= i < live(s).len()
    ensures 0 <= j < s.len(), s[j] == live(s)[i]
    decreases s.len()
{
    if i < live(s.drop_last()).len() { lemma_live_from(s.drop_last(), i) } else { s.len() - 1 }
}
pub proof fn lemma_divided_from<C: WindingCount>(r: Seq<Segment<C>>, segs: Seq<Segment<C>>, marks: Seq<LineMark>, i: int) -> (j: int)
    requires divided(r, segs, marks), 0 <= i < r.len()
    ensures 0 <= j < pieces(segs, marks, segs.len() as int).len(), pieces(segs, marks, segs.len() as int)[j].x_segment == r[i].x_segment
{
    let s = choose|s: Seq<Segment<C>>| #[trigger] sorted(s) && same_segs(pieces(segs, marks, segs.len() as int), s) && r == live(runs(s));
    let a = lemma_live_from(runs(s), i);
    let b = lemma_runs_from(s, a);
    lemma_bag_in(pieces(segs, marks, segs.len() as int), s, b)
}
pub proof fn lemma_pass_planar<C: WindingCount>(segs: Seq<Segment<C>>, marks: Seq<LineMark>, r: Seq<Segment<C>>)
    requires
        segs_ok(segs), exact(segs, marks), marks.no_duplicates(), divided(r, segs, marks),
        forall|k: int, up: bool| 0 <= k < segs.len() && #[trigger] steady(marks, k, segs[k].x_segment, up) ==> onward(marks, k, up)
    ensures planar(r)
{
    let n = segs.len() as int;
    assert forall|k: int| 0 <= k < n implies climb(#[trigger] pts_of(marks, k)) by {
        lemma_exact_steady(segs, marks, k);
        lemma_climb(segs, marks, k, marks.len() as int);
        assert(marks.take(marks.len() as int) =~= marks);
    }
    assert forall|k: int, i: int| 0 <= k < n && 0 <= i < pts_of(marks, k).len() implies inside(#[trigger] pts_of(marks, k)[i], seg_at(segs, k)) by { lemma_pts_has(marks, k, i); }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies apart((#[trigger] r[i]).x_segment, (#[trigger] r[j]).x_segment) by {
        let a = lemma_divided_from(r, segs, marks, i);
        let b = lemma_divided_from(r, segs, marks, j);
        let ka = lemma_pieces_of(segs, marks, n, a);
        let kb = lemma_pieces_of(segs, marks, n, b);
        lemma_pieces_apart(segs, marks, r[i].x_segment, r[j].x_segment, ka, kb);
    }
}
}
fn main() {}
