//@ append bind/solver.rs
use i_float::int::point::IntPoint;
use crate::vp_lib::*;
use crate::core::graph::OverlayGraph;
use crate::core::overlay::{Overlay, ShapeType, ContourDirection};
use crate::core::overlay_rule::OverlayRule;
use crate::core::fill_rule::FillRule;
use i_shape::int::shape::IntShapes;
use std::collections::{BTreeMap, BTreeSet};
fn plain(shapes: &IntShapes) -> Vec<Vec<Vec<P>>> { shapes.iter().map(|s| s.iter().map(|c| c.iter().map(pp).collect()).collect()).collect() }
fn dir(cw: bool) -> ContourDirection { if cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise } }
// how often the contour goes around the triangle, counterclockwise
fn turns(c: &[P], t: [P; 3]) -> i32 {
    let (x, y) = (t[0].0 as i64 + t[1].0 as i64 + t[2].0 as i64, t[0].1 as i64 + t[1].1 as i64 + t[2].1 as i64);
    let mut n = 0;
    for i in 0..c.len() {
        let (a, b) = (c[i], c[(i + 1) % c.len()]);
        let (ax, ay, bx, by) = (a.0 as i64 * 3 - x, a.1 as i64 * 3 - y, b.0 as i64 * 3 - x, b.1 as i64 * 3 - y);
        if (ay > 0) != (by > 0) {
            let k = ax as i128 * by as i128 - ay as i128 * bx as i128;
            if by > ay && k > 0 { n += 1; }
            if by < ay && k < 0 { n -= 1; }
        }
    }
    n
}
// each shape goes around a triangle of the result once or not at all, its holes taken off; exactly one shape goes around it
fn check(m: &Mesh, rule: OverlayRule, shapes: &[Vec<Vec<P>>], cw: bool) {
    let sign = if cw { -1 } else { 1 };
    for t in 0..m.subj.len() {
        let tri = m.tri(t);
        let mut sum = 0;
        for shape in shapes.iter() {
            let out = sign * turns(&shape[0], tri);
            let n = out + shape[1..].iter().map(|h| sign * turns(h, tri)).sum::<i32>();
            vp_check!(n == 0 || n == 1 && out == 1, "each hole lies in the outer contour of its shape and in none of its other holes");
            sum += n;
        }
        vp_check!(sum == m.inside(rule, Some(&t)) as i32, "each place of the result is in exactly one shape, others in none");
    }
}
//@ body nesting weight=3
pub fn nesting<S: Src>(s: &mut S) {
    let top = if s.one_in(16) { 16 } else { 6 };
    let m = Mesh::new(s, top);
    let rule = RULES[s.usize_in(0, 6)];
    let (cw, simple) = (s.bool(), s.bool());
    s.note("rule", &(rule, cw, simple));
    let g = OverlayGraph::new(Solver::default(), m.links());
    let r = plain(&g.extract_shapes_custom(rule, dir(cw), simple, 0));
    check(&m, rule, &r, cw);
}
//@ body nesting_vectors weight=2
pub fn nesting_vectors<S: Src>(s: &mut S) {
    let top = if s.one_in(16) { 16 } else { 6 };
    let m = Mesh::new(s, top);
    let rule = RULES[s.usize_in(0, 6)];
    s.note("rule", &rule);
    let g = OverlayGraph::new(Solver::default(), m.links());
    let r = g.extract_shape_vectors(rule);
    let p: Vec<Vec<Vec<P>>> = r.iter().map(|s| s.iter().map(|c| c.iter().map(|e| pp(&e.a)).collect()).collect()).collect();
    check(&m, rule, &p, true);
}
//@ body nesting_overlay weight=2
pub fn nesting_overlay<S: Src>(s: &mut S) {
    let m = Mesh::new(s, 8);
    let rule = RULES[s.usize_in(0, 6)];
    let (cw, simple) = (s.bool(), s.bool());
    s.note("rule", &(rule, cw, simple));
    let mut o = Overlay::new(8);
    for t in 0..m.subj.len() {
        let c: Vec<IntPoint> = m.tri(t).iter().map(|&p| ip(p)).collect();
        if m.subj[t] { o.add_contour(&c, ShapeType::Subject); }
        if m.clip[t] { o.add_contour(&c, ShapeType::Clip); }
    }
    let r = plain(&o.overlay_custom(rule, FillRule::NonZero, dir(cw), simple, 0, Solver::default()));
    check(&m, rule, &r, cw);
}
//@ body unsorted weight=2
pub fn unsorted<S: Src>(s: &mut S) {
    let top = if s.one_in(16) { 16 } else { 6 };
    let m = Mesh::new(s, top);
    let rule = RULES[s.usize_in(0, 6)];
    let cw = s.bool();
    s.note("rule", &(rule, cw));
    // the holes in another order, given back to the outer contours
    let g = OverlayGraph::new(Solver::default(), m.links());
    let r = g.extract_shapes_custom(rule, dir(cw), true, 0);
    let mut shapes: IntShapes = r.iter().map(|s| vec![s[0].clone()]).collect();
    let mut holes: Vec<IntPath> = r.iter().flat_map(|s| s[1..].iter().cloned()).collect();
    let mut z = s.u64();
    for i in 0..holes.len() {
        let j = (mix(&mut z) % holes.len() as u64) as usize;
        holes.swap(i, j);
        let n = holes[i].len();
        holes[i].rotate_left((mix(&mut z) % n as u64) as usize);
    }
    shapes.join_unsorted_holes(&Solver::default(), holes, cw);
    check(&m, rule, &plain(&shapes), cw);
}
//@ body anchor
pub fn anchor<S: Src>(s: &mut S) {
    let n = s.usize_in(3, 9);
    let k = s.i32_in(1, 1 << 29);
    let c: Vec<IntPoint> = (0..n).map(|_| { let (x, y) = (s.i32_in(-2, 2), s.i32_in(-2, 2)); IntPoint::new(x * (k / 2), y * (k / 2) + if k < 1000 { 0 } else { s.i32_in(-1, 1) }) }).collect();
    s.note("contour", &c);
    s.assume((0..n).all(|i| c[i] != c[(i + 1) % n]));
    let g = c.left_bottom_segment();
    let a = *c.iter().min().unwrap();
    vp_check!(g.a == a, "the anchor of a hole starts at its most left point");
    let mut ends = vec![];
    for i in 0..n { for j in [(i + 1) % n, (i + n - 1) % n] { if c[i] == a { ends.push(c[j]); } } }
    vp_check!(ends.contains(&g.b), "the anchor is an edge of the hole");
    vp_check!(ends.iter().all(|&e| cross(pp(&a), pp(&g.b), pp(&e)) >= 0), "no edge at the most left point is below the anchor");
}
//@ body floors weight=2
pub fn floors<S: Src>(s: &mut S) {
    // rows of segments over one another: the anchor's parent is the owner of the nearest one below
    let rows = s.usize_in(1, 9);
    let shapes = s.usize_in(1, 70);
    let mut segs = vec![];
    for r in 0..rows {
        let mut x = 0;
        for _ in 0..s.usize_in(1, 5) {
            let l = s.i32_in(1, 12);
            let id = s.usize_in(0, shapes - 1);
            segs.push((r, x, x + l, id));
            x += l + if s.bool() { 0 } else { s.i32_in(0, 3) };
        }
    }
    // pieces tilt, staying in their row; some start on the middle of another
    let mut list: Vec<(VSegment, usize)> = vec![];
    for &(r, a, b, id) in segs.iter() {
        let flat = s.bool();
        let y = r as i32 * 10;
        list.push((VSegment { a: IntPoint::new(2 * a, y + if flat { 0 } else { s.i32_in(0, 1) }), b: IntPoint::new(2 * b, y + if flat { 0 } else { s.i32_in(0, 1) }) }, id));
        if flat && s.bool() { list.push((VSegment { a: IntPoint::new(a + b, y), b: IntPoint::new(a + b + s.i32_in(1, 3), y + if s.bool() { 3 } else { -3 }) }, s.usize_in(0, shapes - 1))); }
    }
    let mut anchors = vec![];
    for h in 0..s.usize_in(1, 6) {
        let (r, x) = (s.usize_in(0, rows - 1), s.i32_in(0, 80));
        let a = IntPoint::new(x, r as i32 * 10 + 5 + s.i32_in(-1, 1));
        let v = VSegment { a, b: IntPoint::new(x + s.i32_in(1, 5), r as i32 * 10 + 5 + s.i32_in(-1, 1)) };
        // the owner of the highest piece below
        let height = |g: &VSegment| { let (dx, dy) = ((g.b.x - g.a.x) as i64, (g.b.y - g.a.y) as i64); (((g.a.y as i64 * dx + dy * (x - g.a.x) as i64) * 1_000_000).div_euclid(dx), dy * 1000 / dx) };
        let best = list.iter().filter(|(g, _)| g.a.x <= x && g.b.x > x && cross(pp(&g.a), pp(&g.b), pp(&a)) > 0).max_by_key(|(g, _)| height(g));
        if let Some((_, id)) = best { if anchors.iter().all(|(q, _): &(VSegment, usize)| q.a != a) { anchors.push((v, *id)); } }
        let _ = h;
    }
    s.note("segments", &list);
    s.note("anchors", &anchors);
    let mut hs: Vec<IdSegment> = anchors.iter().enumerate().map(|(i, (v, _))| IdSegment::with_segment(ContourIndex::new_hole(i), *v)).collect();
    let mut sg: Vec<IdSegment> = list.iter().map(|(v, id)| IdSegment::with_segment(ContourIndex::new_shape(*id), *v)).collect();
    hs.sort_by_a_then_by_angle(&Solver::default());
    sg.sort_by_a_then_by_angle(&Solver::default());
    let b = ShapeBinder::bind(shapes, hs, sg);
    vp_check!(b.parent_for_child.iter().zip(anchors.iter()).all(|(p, (_, id))| p == id), "a hole gets the owner of the nearest edge below its anchor");
}
