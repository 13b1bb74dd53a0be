//@ append vector/extract_vectors.rs
use crate::vp_lib::*;
use crate::vector::edge::{SUBJ_LEFT, SUBJ_RIGHT, CLIP_LEFT, CLIP_RIGHT, Reverse, ToPath};
use crate::core::overlay::{Overlay, ShapeType};
use crate::core::fill_rule::FillRule;
use crate::core::solver::{Strategy, Precision};
use std::collections::{BTreeMap, BTreeSet};
// what is on both sides of an edge: in the subject, in the clip
type Sides<'a> = dyn Fn(P, P) -> ((bool, bool), (bool, bool)) + 'a;
fn bits(f: ((bool, bool), (bool, bool))) -> u8 {
    let ((sl, cl), (sr, cr)) = f;
    (if sl { SUBJ_LEFT } else { 0 }) | (if sr { SUBJ_RIGHT } else { 0 }) | (if cl { CLIP_LEFT } else { 0 }) | (if cr { CLIP_RIGHT } else { 0 })
}
fn holds(rule: OverlayRule, f: (bool, bool)) -> bool {
    match rule {
        OverlayRule::Subject => f.0,
        OverlayRule::Clip => f.1,
        OverlayRule::Intersect => f.0 && f.1,
        OverlayRule::Union => f.0 || f.1,
        OverlayRule::Difference => f.0 && !f.1,
        OverlayRule::InverseDifference => f.1 && !f.0,
        OverlayRule::Xor => f.0 != f.1,
    }
}
fn check(rule: OverlayRule, all: &BTreeSet<(P, P)>, sides: &Sides, r: &[VectorShape]) {
    let mut want: BTreeSet<(P, P)> = all.iter().copied().filter(|&(a, b)| { let (l, q) = sides(a, b); !holds(rule, l) && holds(rule, q) }).collect();
    for shape in r.iter() {
        vp_check!(!shape.is_empty(), "a shape has an outline");
        for (k, c) in shape.iter().enumerate() {
            vp_check!(c.len() > 2, "a contour is not a point or a line");
            let p: Vec<P> = c.iter().map(|e| pp(&e.a)).collect();
            vp_check!(c.to_path().iter().map(pp).collect::<Vec<_>>() == p, "the path of a contour is the starts of its edges");
            vp_check!((area2(&p) < 0) == (k == 0), "outlines go around clockwise, holes counterclockwise");
            for (i, e) in c.iter().enumerate() {
                vp_check!(e.b == c[(i + 1) % c.len()].a, "each edge ends where the next one starts");
                let (a, b) = (pp(&e.a), pp(&e.b));
                vp_check!(want.remove(&(a, b)), "each edge of the border is on one contour, once, the result on its right");
                vp_check!(e.fill == bits(sides(a, b)), "an edge says what is on its left and on its right");
            }
        }
    }
    vp_check!(want.is_empty(), "no edge of the border is left out");
}
//@ body contours weight=3
pub fn contours<S: Src>(s: &mut S) {
    let top = if s.one_in(16) { 16 } else { 6 };
    let m = Mesh::new(s, top);
    let rule = RULES[s.usize_in(0, 6)];
    s.note("rule", &rule);
    let t = m.sides();
    let all: BTreeSet<(P, P)> = t.keys().flat_map(|&(a, b)| [(a, b), (b, a)]).collect();
    let at = |k: Option<&usize>| k.map(|&k| (m.subj[k], m.clip[k])).unwrap_or((false, false));
    let g = OverlayGraph::new(Solver::default(), m.links());
    check(rule, &all, &|a, b| (at(t.get(&(a, b))), at(t.get(&(b, a)))), &g.extract_shape_vectors(rule));
    let q = g.extract_separate_vectors();
    let mut e: Vec<(P, P, u8)> = q.iter().map(|e| (pp(&e.a), pp(&e.b), e.fill)).collect();
    let mut w = m.edges();
    e.sort();
    w.sort();
    vp_check!(e == w, "one separate edge for every link, with its ends and its fill");
}
//@ body overlay weight=3
pub fn overlay<S: Src>(s: &mut S) {
    let m = Mesh::new(s, 6);
    let rule = RULES[s.usize_in(0, 6)];
    let k = s.usize_in(0, 3);
    let fr = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive, FillRule::Negative][k];
    let st = [Strategy::List, Strategy::Tree, Strategy::Frag, Strategy::Auto][s.usize_in(0, 3)];
    s.note("rule", &rule);
    s.note("fill rule", &k);
    let mut z = s.u64();
    let mut winding = |inside: &Vec<bool>| -> Vec<i32> { inside.iter().map(|&b| if !b { 0 } else { [1, 1, -1, 2, -2, 3][(mix(&mut z) % 6) as usize] }).collect() };
    let (ws, wc) = (winding(&m.subj), winding(&m.clip));
    s.note("windings", &(&ws, &wc));
    let mut o = Overlay::new(8);
    for (w, shape) in [(&ws, ShapeType::Subject), (&wc, ShapeType::Clip)] {
        for t in 0..w.len() {
            let mut c: Vec<IntPoint> = m.tri(t).iter().map(|&p| ip(p)).collect();
            if w[t] < 0 { c.reverse(); }
            for _ in 0..w[t].abs() { o.add_contour(&c, shape); }
        }
    }
    let full = |w: i32| match k { 0 => w.rem_euclid(2) == 1, 1 => w != 0, 2 => w > 0, _ => w < 0 };
    let t = m.sides();
    let all: BTreeSet<(P, P)> = t.keys().flat_map(|&(a, b)| [(a, b), (b, a)]).collect();
    let at = |k: Option<&usize>| k.map(|&k| (full(ws[k]), full(wc[k]))).unwrap_or((false, false));
    let sides = |a: P, b: P| (at(t.get(&(a, b))), at(t.get(&(b, a))));
    let solver = Solver { strategy: st, precision: Precision::ABSOLUTE, ..Solver::default() };
    if s.bool() {
        check(rule, &all, &sides, &o.into_shape_vectors(fr, rule, solver));
        return;
    }
    let mut once: BTreeMap<(P, P), u8> = BTreeMap::new();
    for e in o.into_separate_vectors(fr, solver).iter() {
        let (a, b) = (pp(&e.a), pp(&e.b));
        vp_check!(all.contains(&(a, b)), "separate edges are edges of the input, cut where they cross");
        vp_check!(e.fill == bits(sides(a, b)), "a separate edge says what is on its left and on its right");
        vp_check!(once.insert((a.min(b), a.max(b)), e.fill).is_none(), "an edge comes once");
    }
    for &(a, b) in all.iter() {
        let (l, r) = sides(a, b);
        vp_check!(l == r || once.contains_key(&(a.min(b), a.max(b))), "no edge between places filled differently is left out");
    }
}
//@ body turned
pub fn turned<S: Src>(s: &mut S) {
    let f = s.usize_in(0, 15) as u8;
    let d = 1 << s.i32_in(0, 29);
    let (a, b) = (IntPoint::new(s.i32_in(-d, d), s.i32_in(-d, d)), IntPoint::new(s.i32_in(-d, d), s.i32_in(-d, d)));
    s.note("edge", &(a, b, f));
    s.assume(a != b);
    let has = |f: u8, m: u8| f & m != 0;
    let r = f.reverse();
    vp_check!(has(r, SUBJ_LEFT) == has(f, SUBJ_RIGHT) && has(r, SUBJ_RIGHT) == has(f, SUBJ_LEFT) && has(r, CLIP_LEFT) == has(f, CLIP_RIGHT) && has(r, CLIP_RIGHT) == has(f, CLIP_LEFT) && r < 16, "turned around, left and right change places");
    let e = VectorEdge::new(f, a, b);
    vp_check!(e.a == a && e.b == b && e.fill == if a < b { f } else { r }, "an edge against the order of its link has the turned fill");
}
