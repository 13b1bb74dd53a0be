//@ append split/solver.rs
use std::collections::BTreeMap;
use crate::core::solver::{MultithreadOptions, Precision, Strategy};
use crate::segm::winding_count::ShapeCountBoolean;
type Seg = Segment<ShapeCountBoolean>;
fn area(p: IntPoint, q: IntPoint, r: IntPoint) -> i128 {
    (q.x as i128 - p.x as i128) * (r.y as i128 - p.y as i128) - (q.y as i128 - p.y as i128) * (r.x as i128 - p.x as i128)
}
fn lt(a: IntPoint, b: IntPoint) -> bool { (a.x, a.y) < (b.x, b.y) }
fn inside(p: IntPoint, s: &XSegment) -> bool { area(s.a, s.b, p) == 0 && lt(s.a, p) && lt(p, s.b) }
// the edges share a point that is not an end of both
fn conflict(t: &XSegment, o: &XSegment) -> bool {
    let opp = |a: i128, b: i128| a.signum() * b.signum() < 0;
    opp(area(t.a, t.b, o.a), area(t.a, t.b, o.b)) && opp(area(o.a, o.b, t.a), area(o.a, o.b, t.b))
        || inside(t.a, o) || inside(t.b, o) || inside(o.a, t) || inside(o.b, t) || (t.a == o.a && t.b == o.b)
}
fn edges<S: Src>(s: &mut S) -> Vec<Seg> {
    let n = if s.one_in(3) { s.usize_in(2, 4) } else { s.usize_in(3, 26) };
    let m = [2, 3, 5, 9, 40, 700, 100_000, 0x1fff_ffff][s.usize_in(0, 7)];
    // sometimes most edges lie in one part of the width, so that the columns differ
    let (n, w0, w1) = if s.one_in(3) { (n + 16, [-m, -m / 2, 0, m / 2][s.usize_in(0, 3)], m / 2) } else { (n, -m, 2 * m) };
    let mut v: Vec<Seg> = vec![];
    for i in 0..n {
        let (x0, x1) = if i < 2 { (-m, m) } else { (w0, w0 + w1) };
        let mut p = |s: &mut S| IntPoint::new(s.i32_in(x0, x1), s.i32_in(-m, m));
        let (mut a, mut b) = (p(s), p(s));
        match s.usize_in(0, 9) {
            0 => b.x = a.x,
            1 => b.y = a.y,
            2 => if let Some(e) = v.last() { a = e.x_segment.b },
            3 => if let Some(e) = v.first() {
                // on the line of an edge
                let e = e.x_segment;
                let (dx, dy) = (e.b.x as i64 - e.a.x as i64, e.b.y as i64 - e.a.y as i64);
                let (k, l) = (s.i32_in(-2, 2) as i64, s.i32_in(-2, 2) as i64);
                let at = |k: i64| IntPoint::new((e.a.x as i64 + k * dx / 2).clamp(-0x3fff_fff0, 0x3fff_fff0) as i32, (e.a.y as i64 + k * dy / 2).clamp(-0x3fff_fff0, 0x3fff_fff0) as i32);
                a = at(k); b = at(l);
            },
            _ => {}
        }
        if a == b { continue; }
        let c = ShapeCountBoolean { subj: s.i32_in(-1, 1), clip: if s.one_in(3) { s.i32_in(-1, 1) } else { 0 } };
        if c.subj == 0 && c.clip == 0 { continue; }
        v.push(Segment { x_segment: if lt(a, b) { XSegment { a, b } } else { XSegment { a: b, b: a } }, count: c });
    }
    v
}
// what leaves minus what enters each point
fn boundary(v: &[Seg]) -> BTreeMap<(i32, i32), (i64, i64)> {
    let mut m = BTreeMap::new();
    for e in v {
        let mut add = |p: IntPoint, k: i64| { let c = m.entry((p.x, p.y)).or_insert((0i64, 0i64)); c.0 += k * e.count.subj as i64; c.1 += k * e.count.clip as i64; };
        add(e.x_segment.a, 1);
        add(e.x_segment.b, -1);
    }
    m.retain(|_, c| *c != (0, 0));
    m
}
fn key(v: &[Seg]) -> Vec<(i32, i32, i32, i32, i32, i32)> {
    v.iter().map(|e| (e.x_segment.a.x, e.x_segment.a.y, e.x_segment.b.x, e.x_segment.b.y, e.count.subj, e.count.clip)).collect()
}
// a flat little contour: rounding may leave nothing of it
fn sliver<S: Src>(s: &mut S) -> Vec<Seg> {
    let pts: Vec<IntPoint> = match s.usize_in(0, 9) {
        0 => [(2, 1), (6, 2), (4, 1), (0, 2), (7, 1)].iter().map(|p| IntPoint::new(p.0, p.1)).collect(),
        1 => [(5, 1), (0, 2), (4, 1), (2, 3), (4, 0), (5, 3)].iter().map(|p| IntPoint::new(p.0, p.1)).collect(),
        _ => {
            let (w, h, n) = (s.i32_in(1, 12), s.i32_in(1, 4), s.usize_in(3, 7));
            (0..n).map(|_| IntPoint::new(s.i32_in(0, w), s.i32_in(0, h))).collect()
        }
    };
    let mut v: Vec<Seg> = vec![];
    for (i, &a) in pts.iter().enumerate() {
        let b = pts[(i + 1) % pts.len()];
        if a != b { v.push(if lt(a, b) { Segment { x_segment: XSegment { a, b }, count: ShapeCountBoolean { subj: 1, clip: 0 } } } else { Segment { x_segment: XSegment { a: b, b: a }, count: ShapeCountBoolean { subj: -1, clip: 0 } } }); }
    }
    v
}
fn split_one<S: Src>(s: &mut S, strategy: Strategy, par: bool) {
    let v = edges(s);
    split_any(s, v, strategy, par);
}
fn split_any<S: Src>(s: &mut S, v: Vec<Seg>, strategy: Strategy, par: bool) {
    if v.is_empty() { return; }
    let precision = [Precision::HIGH, Precision::MEDIUM, Precision::LOW][s.usize_in(0, 2)];
    s.note("edges", &key(&v));
    s.note("strategy", &strategy);
    s.note("precision", &precision);
    let solver = Solver { strategy, precision, multithreading: if par { Some(MultithreadOptions { par_sort_min_size: s.usize_in(0, 30) }) } else { None } };
    let b0 = boundary(&v);
    let list = v.clone().split_segments(Solver { strategy: Strategy::List, precision, multithreading: None });
    let r = v.split_segments(solver);
    s.note("result", &key(&r));
    vp_check!(boundary(&r) == b0, "splitting keeps what leaves and enters every point");
    vp_check!(r.windows(2).all(|w| w[0].x_segment < w[1].x_segment), "the edges are in order, each once");
    vp_check!(r.iter().all(|e| lt(e.x_segment.a, e.x_segment.b) && (e.count.subj != 0 || e.count.clip != 0)), "edges run forward and are not empty");
    for (i, t) in r.iter().enumerate() {
        for o in &r[..i] {
            vp_check!(!conflict(&t.x_segment, &o.x_segment), "after splitting no two edges cross, overlap or touch inside one another");
        }
    }
    s.note("list result", &key(&list));
    vp_check!(key(&r) == key(&list), "every strategy splits at the same points");
}
//@ body split_list weight=2
pub fn split_list<S: Src>(s: &mut S) { split_one(s, Strategy::List, false) }
//@ body split_tree weight=2
pub fn split_tree<S: Src>(s: &mut S) { split_one(s, Strategy::Tree, false) }
//@ body split_frag weight=4
pub fn split_frag<S: Src>(s: &mut S) { split_one(s, Strategy::Frag, false) }
//@ body split_frag_parallel weight=1
pub fn split_frag_parallel<S: Src>(s: &mut S) { split_one(s, Strategy::Frag, true) }
//@ body split_slivers weight=2
pub fn split_slivers<S: Src>(s: &mut S) {
    let v = sliver(s);
    let strategy = [Strategy::Tree, Strategy::Frag, Strategy::List][s.usize_in(0, 2)];
    split_any(s, v, strategy, false)
}
