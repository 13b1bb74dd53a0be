//@ append core/extract.rs
use crate::vp_lib::*;
use crate::core::solver::Solver;
use crate::core::overlay::{Overlay, ShapeType};
use crate::core::fill_rule::FillRule;
use std::collections::BTreeMap;
// each contour closes, follows the boundary with the result on its inner side, and uses every edge once
fn check(next: &BTreeMap<P, Vec<P>>, shapes: &[Vec<Vec<P>>], cw: bool, simple: bool, count: Option<usize>) {
    let mut used: BTreeMap<(P, P), usize> = BTreeMap::new();
    for shape in shapes.iter() {
        vp_check!(!shape.is_empty(), "a shape has an outer contour");
        for (k, c) in shape.iter().enumerate() {
            vp_check!(c.len() >= 3, "a contour has at least three points");
            let ar = area2(c);
            vp_check!(ar != 0 && (ar < 0) == (cw == (k == 0)), "outer contours have the main direction, holes the opposite");
            for i in 0..c.len() {
                let (a, b) = if cw { (c[(i + 1) % c.len()], c[i]) } else { (c[i], c[(i + 1) % c.len()]) };
                let l = atoms(next, a, b);
                vp_check!(l.is_some() && a != b, "each edge of a contour follows the boundary with the result on its inner side");
                for e in l.unwrap() { *used.entry(e).or_insert(0) += 1; }
                if simple { vp_check!(cross(c[i], c[(i + 1) % c.len()], c[(i + 2) % c.len()]) != 0, "a simplified contour keeps no point on a straight line"); }
            }
        }
    }
    vp_check!(used.values().all(|&k| k == 1), "no kept edge is used twice");
    if let Some(n) = count { vp_check!(used.len() == n, "every kept edge is used"); }
}
fn plain(shapes: &IntShapes) -> Vec<Vec<Vec<P>>> { shapes.iter().map(|s| s.iter().map(|c| c.iter().map(pp).collect()).collect()).collect() }
fn sorted(shapes: &[Vec<Vec<P>>]) -> Vec<Vec<P>> { let mut l: Vec<Vec<P>> = shapes.iter().flatten().map(|c| rotated(c)).collect(); l.sort(); l }
fn dir(cw: bool) -> ContourDirection { if cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise } }
//@ body contours weight=3
pub fn contours<S: Src>(s: &mut S) {
    let top = if s.one_in(6) { 14 } else { 5 };
    let m = Mesh::new(s, top);
    let rule = RULES[s.usize_in(0, 6)];
    let (cw, simple) = (s.bool(), s.bool());
    s.note("rule", &(rule, cw, simple));
    let g = OverlayGraph::new(Solver::default(), m.links());
    let b = m.boundary(rule);
    let r = plain(&g.extract_shapes_custom(rule, dir(cw), simple, 0));
    check(&next_of(&b), &r, cw, simple, Some(b.len()));
    // a minimum area drops exactly the smaller contours
    let all = sorted(&r);
    let areas: Vec<i128> = all.iter().map(|c| area2(c).abs() / 2).collect();
    if areas.is_empty() { return; }
    let min = areas[s.usize_in(0, areas.len() - 1)] + s.i32_in(0, 1) as i128;
    s.note("min area", &min);
    let q = sorted(&plain(&g.extract_shapes_custom(rule, dir(cw), simple, min as usize)));
    let want: Vec<Vec<P>> = all.into_iter().filter(|c| area2(c).abs() / 2 >= min).collect();
    vp_check!(q == want, "a minimum area drops the contours with less area and keeps the others");
}
//@ body vectors weight=2
pub fn vectors<S: Src>(s: &mut S) {
    let top = if s.one_in(6) { 14 } else { 5 };
    let m = Mesh::new(s, top);
    let rule = RULES[s.usize_in(0, 6)];
    s.note("rule", &rule);
    let g = OverlayGraph::new(Solver::default(), m.links());
    let b = m.boundary(rule);
    let fills: BTreeMap<(P, P), u8> = m.edges().into_iter().map(|(a, b, f)| ((a, b), f)).collect();
    let r = g.extract_shape_vectors(rule);
    for shape in r.iter() { for path in shape.iter() {
        for i in 0..path.len() {
            let (e, f) = (path[i], path[(i + 1) % path.len()]);
            vp_check!(e.b == f.a, "each edge of a path starts where the one before ends");
            let (a, b) = (pp(&e.a), pp(&e.b));
            let want = if a < b { fills.get(&(a, b)).copied() } else { fills.get(&(b, a)).map(|f| (f & 1) << 1 | (f & 2) >> 1 | (f & 4) << 1 | (f & 8) >> 1) };
            vp_check!(want == Some(e.fill), "an edge carries the fills on its left and right");
        }
    } }
    let p: Vec<Vec<Vec<P>>> = r.iter().map(|s| s.iter().map(|c| c.iter().map(|e| pp(&e.a)).collect()).collect()).collect();
    check(&next_of(&b), &p, true, false, Some(b.len()));
    let mut l: Vec<(P, P, u8)> = g.extract_separate_vectors().iter().map(|e| (pp(&e.a), pp(&e.b), e.fill)).collect();
    l.sort();
    vp_check!(l == m.edges(), "the separate vectors are the edges of the graph");
}
//@ body overlay weight=3
pub fn overlay<S: Src>(s: &mut S) {
    let m = Mesh::new(s, 5);
    let rule = RULES[s.usize_in(0, 6)];
    let (cw, simple) = (s.bool(), s.bool());
    s.note("rule", &(rule, cw, simple));
    let mut o = Overlay::new(8);
    let flip = s.bool();
    for t in 0..m.subj.len() {
        let mut c: Vec<IntPoint> = m.tri(t).iter().map(|&p| ip(p)).collect();
        if flip { c.reverse(); }
        if m.subj[t] { o.add_contour(&c, ShapeType::Subject); }
        if m.clip[t] { o.add_contour(&c, ShapeType::Clip); }
    }
    let b = m.boundary(rule);
    let fill = if flip { FillRule::NonZero } else { FillRule::EvenOdd };
    if s.bool() {
        let r = plain(&o.overlay_custom(rule, fill, dir(cw), simple, 0, Solver::default()));
        check(&next_of(&b), &r, cw, simple, Some(b.len()));
    } else if s.bool() {
        let r = plain(&o.into_graph(fill).extract_shapes_custom(rule, dir(cw), simple, 0));
        check(&next_of(&b), &r, cw, simple, Some(b.len()));
    } else {
        let r = o.into_shape_vectors(fill, rule, Solver::default());
        let p: Vec<Vec<Vec<P>>> = r.iter().map(|s| s.iter().map(|c| c.iter().map(|e| pp(&e.a)).collect()).collect()).collect();
        check(&next_of(&b), &p, true, false, Some(b.len()));
    }
}
//@ body offset
pub fn offset<S: Src>(s: &mut S) {
    let top = if s.one_in(6) { 14 } else { 5 };
    let m = Mesh::new(s, top);
    let cw = s.bool();
    let many = s.usize_in(1, 12) as u64;
    let mut z = s.u64();
    s.note("direction, bold", &(cw, many, z));
    let b = m.boundary(OverlayRule::Subject);
    let mut bold = std::collections::BTreeSet::new();
    let mut links: Vec<OverlayLink> = m.links().into_iter().map(|l| OverlayLink { fill: l.fill & 3, ..l }).filter(|l| s.one_in(1) && (l.fill == 1 || l.fill == 2)).collect();
    for l in links.iter_mut() { if mix(&mut z) % many == 0 { l.fill |= 4; bold.insert((pp(&l.a.point), pp(&l.b.point))); } }
    let g = OverlayGraph::new(Solver::default(), links);
    let next = next_of(&b);
    let r = plain(&g.extract_offset(dir(cw), 0));
    check(&next, &r, cw, true, None);
    let all = plain(&g.extract_shapes_custom(OverlayRule::Subject, dir(cw), true, 0));
    let is_bold = |c: &Vec<P>| (0..c.len()).any(|i| {
        let (a, b) = if cw { (c[(i + 1) % c.len()], c[i]) } else { (c[i], c[(i + 1) % c.len()]) };
        atoms(&next, a, b).unwrap_or_default().iter().any(|e| bold.contains(e) || bold.contains(&(e.1, e.0)))
    });
    // shapes with a bold edge on the outside, with those holes that have one
    let kept: Vec<Vec<Vec<P>>> = all.iter().filter(|s| is_bold(&s[0])).map(|s| s.iter().filter(|c| is_bold(c)).cloned().collect()).collect();
    vp_check!(sorted(&r) == sorted(&kept), "an offset keeps exactly the contours with a new edge, but for those in a shape without one outside");
    let by_shape = |l: &[Vec<Vec<P>>]| { let mut o: Vec<_> = l.iter().map(|s| (sorted(&[vec![s[0].clone()]]), sorted(&[s[1..].to_vec()]))).collect(); o.sort(); o };
    vp_check!(by_shape(&r) == by_shape(&kept), "an offset has its holes in the shapes they lie in");
}
