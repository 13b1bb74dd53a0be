//@ append core/link.rs
use i_float::int::point::IntPoint;
use crate::geom::x_segment::XSegment;
use crate::vp_lib::{Mesh, P, mix, ip, cross, apart};
// what lies directly below the edge k, to the right of its start
pub fn floor(e: &[(P, P)], k: usize) -> Option<usize> {
    let p = e[k].0;
    let mut best: Option<usize> = None;
    for i in 0..e.len() {
        let (a, b) = e[i];
        if i == k || a.0 > p.0 || b.0 <= p.0 { continue; }
        // height over the start, then the slope
        if a == p { if cross(p, b, e[k].1) <= 0 { continue; } } else if cross(a, b, p) <= 0 { continue; }
        if let Some(o) = best { if !higher(e[i], e[o], p.0) { continue; } }
        best = Some(i);
    }
    best
}
fn higher(s: (P, P), o: (P, P), x: i32) -> bool {
    let h = |t: (P, P)| { let (dx, dy) = (t.1.0 as i128 - t.0.0 as i128, t.1.1 as i128 - t.0.1 as i128); (t.0.1 as i128 * dx + dy * (x as i128 - t.0.0 as i128), dx, dy) };
    let (n0, d0, y0) = h(s);
    let (n1, d1, y1) = h(o);
    if n0 * d1 != n1 * d0 { n0 * d1 > n1 * d0 } else { y0 * d1 > y1 * d0 }
}
pub fn inside(rule: usize, c: i32) -> u8 { (match rule { 0 => c.rem_euclid(2) == 1, 1 => c != 0, 2 => c > 0, _ => c < 0 }) as u8 }
pub fn sgs<C: WindingCount>(e: &[(P, P)], c: &[C]) -> Vec<Segment<C>> { e.iter().zip(c.iter()).map(|(&(a, b), &count)| Segment { x_segment: XSegment { a: ip(a), b: ip(b) }, count }).collect() }
fn by_rule(rule: usize, list: bool, g: &[Segment<ShapeCountBoolean>]) -> Vec<SegmentFill> {
    match rule {
        0 => FillSolver::fill::<EvenOddStrategy, ShapeCountBoolean>(list, g),
        1 => FillSolver::fill::<NonZeroStrategy, ShapeCountBoolean>(list, g),
        2 => FillSolver::fill::<PositiveStrategy, ShapeCountBoolean>(list, g),
        _ => FillSolver::fill::<NegativeStrategy, ShapeCountBoolean>(list, g),
    }
}
fn by_rule_string(rule: usize, list: bool, g: &[Segment<ShapeCountString>]) -> Vec<SegmentFill> {
    match rule {
        0 => FillSolver::fill::<EvenOddStrategyString, ShapeCountString>(list, g),
        1 => FillSolver::fill::<NonZeroStrategyString, ShapeCountString>(list, g),
        2 => FillSolver::fill::<PositiveStrategyString, ShapeCountString>(list, g),
        _ => FillSolver::fill::<NegativeStrategyString, ShapeCountString>(list, g),
    }
}
// the edges of a mesh whose triangles have winding numbers: (edge, subject and clip on its left, on its right)
pub fn numbered<S: Src>(s: &mut S, string: bool) -> Vec<(P, P, [i32; 4])> {
    let m = Mesh::new(s, 9);
    let mut z = s.u64();
    let deep = s.i32_in(1, 4);
    let w: Vec<(i32, i32)> = (0..m.subj.len()).map(|t| { let mut v = |b: bool| if b { 1 + (mix(&mut z) % deep as u64) as i32 - if mix(&mut z) % 3 == 0 { deep + 1 } else { 0 } } else { 0 }; (v(m.subj[t]), v(m.clip[t])) }).collect();
    let sides = m.sides();
    let mut set = std::collections::BTreeSet::new();
    for &(a, b) in sides.keys() { set.insert(if a < b { (a, b) } else { (b, a) }); }
    let mut r = vec![];
    for (a, b) in set {
        let f = |t: Option<&usize>| t.map(|&t| w[t]).unwrap_or((0, 0));
        let (l, q) = (f(sides.get(&(a, b))), f(sides.get(&(b, a))));
        let bits = if string { (mix(&mut z) % 4) as i32 * (mix(&mut z) % 2) as i32 } else { 0 };
        if if string { l.0 != q.0 || bits != 0 } else { l != q } { r.push((a, b, if string { [l.0, bits, q.0, bits] } else { [l.0, l.1, q.0, q.1] })); }
    }
    r
}
//@ body areas
pub fn areas<S: Src>(s: &mut S) {
    let e = numbered(s, false);
    let rule = s.usize_in(0, 3);
    let list = s.bool();
    s.note("rule", &rule);
    s.note("list", &list);
    let p: Vec<(P, P)> = e.iter().map(|v| (v.0, v.1)).collect();
    let c: Vec<ShapeCountBoolean> = e.iter().map(|v| ShapeCountBoolean { subj: v.2[0] - v.2[2], clip: v.2[1] - v.2[3] }).collect();
    let r = by_rule(rule, list, &sgs(&p, &c));
    vp_check!(r.len() == e.len(), "each edge has its fill");
    for (v, &f) in e.iter().zip(r.iter()) {
        let want = inside(rule, v.2[0]) | inside(rule, v.2[2]) << 1 | inside(rule, v.2[1]) << 2 | inside(rule, v.2[3]) << 3;
        vp_check!(f == want, "the fill of an edge tells which of its two sides are inside, by the winding numbers there");
    }
}
//@ body lines
pub fn lines<S: Src>(s: &mut S) {
    let e = numbered(s, true);
    let rule = s.usize_in(0, 3);
    let list = s.bool();
    s.note("rule", &rule);
    s.note("list", &list);
    let p: Vec<(P, P)> = e.iter().map(|v| (v.0, v.1)).collect();
    let c: Vec<ShapeCountString> = e.iter().map(|v| ShapeCountString { subj: v.2[0] - v.2[2], clip: v.2[1] as u8 }).collect();
    let r = by_rule_string(rule, list, &sgs(&p, &c));
    for (v, &f) in e.iter().zip(r.iter()) {
        let want = inside(rule, v.2[0]) | inside(rule, v.2[2]) << 1 | (v.2[1] as u8) << 2;
        vp_check!(f == want, "the fill of an edge tells which of its two sides are inside and which ways the line runs along it");
    }
}
//@ body steps
pub fn steps<S: Src>(s: &mut S) {
    let e = apart(s);
    s.note("edges", &e);
    let rule = s.usize_in(0, 3);
    let list = s.bool();
    let string = s.bool();
    s.note("rule", &rule);
    s.note("list", &list);
    let c: Vec<(i32, i32)> = e.iter().map(|_| (s.i32_in(-2, 2), s.i32_in(-2, 2))).collect();
    let mut top = vec![(0, 0); e.len()];
    let mut want = vec![0u8; e.len()];
    let mut order: Vec<usize> = (0..e.len()).collect();
    // an edge comes after the one below it
    order.sort_by(|&i, &j| e[i].0.cmp(&e[j].0).then_with(|| cross(e[i].0, e[j].1, e[i].1).cmp(&0)));
    for &k in order.iter() {
        let b = floor(&e, k).map(|j| top[j]).unwrap_or((0, 0));
        top[k] = (b.0 + c[k].0, b.1 + c[k].1);
        want[k] = inside(rule, top[k].0) | inside(rule, b.0) << 1;
        want[k] |= if string { ((c[k].1 & 3) as u8) << 2 } else { inside(rule, top[k].1) << 2 | inside(rule, b.1) << 3 };
    }
    let r = if string {
        by_rule_string(rule, list, &sgs(&e, &c.iter().map(|&(a, b)| ShapeCountString { subj: a, clip: (b & 3) as u8 }).collect::<Vec<_>>()))
    } else {
        by_rule(rule, list, &sgs(&e, &c.iter().map(|&(a, b)| ShapeCountBoolean { subj: a, clip: b }).collect::<Vec<_>>()))
    };
    vp_check!(r == want, "the count below an edge is the count above what lies directly below it, and its own adds to it");
}
//@ append mesh/boolean.rs
use crate::core::link::vp::{numbered, inside, sgs, floor};
use crate::vp_lib::{P, apart};
//@ body outline
pub fn outline<S: Src>(s: &mut S) {
    let e = numbered(s, false);
    let list = s.bool();
    s.note("list", &list);
    let p: Vec<(P, P)> = e.iter().map(|v| (v.0, v.1)).collect();
    let bold: Vec<bool> = e.iter().map(|_| s.bool()).collect();
    let c: Vec<OffsetCountBoolean> = e.iter().zip(bold.iter()).map(|(v, &bold)| OffsetCountBoolean { subj: v.2[0] - v.2[2], bold }).collect();
    let r = FillSolver::fill::<SubjectOffsetStrategy, OffsetCountBoolean>(list, &sgs(&p, &c));
    for (i, v) in e.iter().enumerate() {
        let want = inside(2, v.2[0]) | inside(2, v.2[2]) << 1;
        vp_check!(r[i] & 3 == want, "the fill of an edge tells which of its two sides are inside the outline");
        let l = OverlayLink::new(crate::geom::id_point::IdPoint::new(0, crate::vp_lib::ip(v.0)), crate::geom::id_point::IdPoint::new(0, crate::vp_lib::ip(v.1)), r[i]);
        vp_check!(l.is_bold() == bold[i], "an edge of the outline stays one");
    }
}
//@ body outline_steps
pub fn outline_steps<S: Src>(s: &mut S) {
    let e = apart(s);
    s.note("edges", &e);
    let list = s.bool();
    let c: Vec<i32> = e.iter().map(|_| s.i32_in(-2, 2)).collect();
    let r = FillSolver::fill::<SubjectOffsetStrategy, OffsetCountBoolean>(list, &sgs(&e, &c.iter().map(|&subj| OffsetCountBoolean { subj, bold: subj % 2 == 0 }).collect::<Vec<_>>()));
    let mut top: Vec<Option<i32>> = vec![None; e.len()];
    fn above(e: &[(P, P)], c: &[i32], top: &mut Vec<Option<i32>>, k: usize) -> i32 {
        if let Some(t) = top[k] { return t; }
        let b = match floor(e, k) { Some(j) => above(e, c, top, j), None => 0 };
        top[k] = Some(b + c[k]);
        b + c[k]
    }
    for k in 0..e.len() {
        let t = above(&e, &c, &mut top, k);
        vp_check!(r[k] & 3 == inside(2, t) | inside(2, t - c[k]) << 1, "the count below an edge is the count above what lies directly below it, and its own adds to it");
    }
}
