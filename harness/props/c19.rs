//@ append lib.rs
// the parts a filled area of a mesh falls into along cut edges
pub struct Cuts { pub sides: BTreeMap<(P, P), usize>, pub part: Vec<usize>, pub count: usize }
impl Cuts {
    pub fn new(m: &Mesh, fill: &[bool], cut: &std::collections::BTreeSet<(P, P)>) -> Self {
        let sides = m.sides();
        let mut part = vec![usize::MAX; fill.len()];
        let mut count = 0;
        for t in 0..fill.len() {
            if !fill[t] || part[t] != usize::MAX { continue; }
            let mut st = vec![t];
            part[t] = count;
            while let Some(q) = st.pop() {
                let c = m.tri(q);
                for i in 0..3 {
                    let (a, b) = (c[i], c[(i + 1) % 3]);
                    if cut.contains(&(a.min(b), a.max(b))) { continue; }
                    if let Some(&o) = sides.get(&(b, a)) { if fill[o] && part[o] == usize::MAX { part[o] = count; st.push(o); } }
                }
            }
            count += 1;
        }
        Cuts { sides, part, count }
    }
    // the part on the left of the edge
    pub fn left(&self, a: P, b: P) -> usize { self.sides.get(&(a, b)).map(|&t| self.part[t]).unwrap_or(usize::MAX) }
    // each part is one shape: its outline, and its holes, all the way round once
    pub fn check(&self, m: &Mesh, shapes: &[Vec<Vec<P>>], cw: bool) {
        let next = next_of(&self.sides.keys().flat_map(|&(a, b)| [(a, b), (b, a)]).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>());
        let mut want: std::collections::BTreeSet<(P, P)> = Default::default();
        for &(a, b) in self.sides.keys() { if self.left(a, b) != usize::MAX && self.left(a, b) != self.left(b, a) { want.insert((a, b)); } }
        let mut met = vec![false; self.count];
        for shape in shapes.iter() {
            vp_check!(!shape.is_empty(), "a shape has an outline");
            let mut owner = None;
            for (k, c) in shape.iter().enumerate() {
                let mut c = c.clone();
                vp_check!(c.len() > 2, "a contour is not a point or a line");
                let a = area2(&c);
                vp_check!((a > 0) != (cw != (k > 0)) && a != 0, "the outline goes around in the direction asked for, holes the other way");
                if cw { c.reverse(); }
                for i in 0..c.len() {
                    let e = atoms(&next, c[i], c[(i + 1) % c.len()]);
                    vp_check!(e.is_some() && c[i] != c[(i + 1) % c.len()], "contours run along outlines and lines");
                    for (a, b) in e.unwrap() {
                        vp_check!(want.remove(&(a, b)), "each side of an outline or a line is on one contour, once, the part on its left");
                        let p = self.left(a, b);
                        vp_check!(*owner.get_or_insert(p) == p, "a shape is one part");
                    }
                }
            }
            let p = owner.unwrap();
            vp_check!(!met[p], "a part is one shape");
            met[p] = true;
        }
        vp_check!(want.is_empty(), "each part comes back whole");
        let _ = m;
    }
}
pub fn rotated_all(shapes: &[Vec<Vec<P>>]) -> Vec<Vec<P>> {
    let mut r: Vec<Vec<P>> = shapes.iter().flatten().map(|c| rotated(c)).collect();
    r.sort();
    r
}
//@ append string/extract.rs
use crate::core::solver::Solver;
use crate::core::link::OverlayLink;
use crate::geom::id_point::IdPoint;
use crate::vp_lib::{Mesh, Cuts, P, ip, pp, mix, area2, rotated, rotated_all};
use std::collections::BTreeSet;
fn plain(shapes: &IntShapes) -> Vec<Vec<Vec<P>>> { shapes.iter().map(|s| s.iter().map(|c| c.iter().map(pp).collect()).collect()).collect() }
//@ body parts weight=3
pub fn parts<S: Src>(s: &mut S) {
    let top = if s.one_in(16) { 14 } else { 6 };
    let m = Mesh::new(s, top);
    let cw = s.bool();
    let often = s.usize_in(0, 8) as u64;
    let mut z = s.u64();
    let sides = m.sides();
    let (mut links, mut cut) = (vec![], BTreeSet::new());
    let all: BTreeSet<(P, P)> = sides.keys().map(|&(a, b)| (a.min(b), a.max(b))).collect();
    for &(a, b) in all.iter() {
        let f = |t: Option<&usize>| t.map(|&t| m.subj[t]).unwrap_or(false);
        let (l, r) = (f(sides.get(&(a, b))), f(sides.get(&(b, a))));
        let line = if mix(&mut z) % 8 < often { 1 + (mix(&mut z) % 3) as u8 } else { 0 };
        if line != 0 { cut.insert((a, b)); }
        // an inner outline is no cut
        if l != r || line != 0 || l && mix(&mut z) % 4 == 0 { links.push((a, b, l as u8 | ((r as u8) << 1) | (line << 2))); }
    }
    s.note("clockwise", &cw);
    s.note("links", &links);
    let l = |v: &Vec<(P, P, u8)>| v.iter().map(|&(a, b, f)| OverlayLink::new(IdPoint::new(0, ip(a)), IdPoint::new(0, ip(b)), f)).collect::<Vec<_>>();
    let dir = if cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let g = StringGraph::new(Solver::default(), l(&links));
    let r = plain(&g.extract_shapes_custom(StringRule::Slice, dir, 0));
    Cuts::new(&m, &m.subj, &cut).check(&m, &r, cw);
    if !cw { vp_check!(plain(&g.extract_shapes(StringRule::Slice)) == r, "counterclockwise and nothing dropped if not asked"); }
    // loops of less than an area are left out
    let mut areas: Vec<i128> = r.iter().flatten().map(|c| area2(c).abs() / 2).collect();
    areas.sort();
    if areas.is_empty() { return; }
    let least = (areas[(mix(&mut z) % areas.len() as u64) as usize] + (mix(&mut z) % 2) as i128) as usize;
    s.note("minimum area", &least);
    let q = plain(&g.extract_shapes_custom(StringRule::Slice, dir, least));
    let mut want: Vec<Vec<P>> = r.iter().flatten().filter(|c| least == 0 || area2(c).abs() / 2 >= least as i128).map(|c| rotated(c)).collect();
    want.sort();
    vp_check!(rotated_all(&q) == want, "loops below the minimum area are dropped, others stay");
}
//@ append string/slice.rs
use crate::core::solver::{Solver, Strategy, Precision};
use crate::core::overlay::ContourDirection;
use crate::vp_lib::{Mesh, Cuts, P, mix, ip, pp, next_of, atoms};
use i_float::int::point::IntPoint;
use i_shape::int::shape::IntContour;
use std::collections::BTreeSet;
fn plain(shapes: &IntShapes) -> Vec<Vec<Vec<P>>> { shapes.iter().map(|s| s.iter().map(|c| c.iter().map(pp).collect()).collect()).collect() }
//@ body slicing weight=4
pub fn slicing<S: Src>(s: &mut S) {
    let m = Mesh::new(s, 5);
    let rule = s.usize_in(0, 3);
    let fr = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive, FillRule::Negative][rule];
    let how = s.usize_in(0, 5);
    let strategy = [Strategy::List, Strategy::Tree, Strategy::Frag, Strategy::Auto][s.usize_in(0, 3)];
    let mut z = s.u64();
    s.note("rule", &rule);
    s.note("call", &how);
    s.note("strategy", &strategy);
    let ws: &[i32] = if s.bool() { &[1] } else { &[1, -1, 2] };
    let w: Vec<i32> = (0..m.subj.len()).map(|t| if m.subj[t] { ws[(mix(&mut z) % ws.len() as u64) as usize] } else { 0 }).collect();
    s.note("windings", &w);
    let mut shapes: IntShapes = vec![];
    for t in 0..w.len() {
        let mut c: Vec<IntPoint> = m.tri(t).iter().map(|&p| ip(p)).collect();
        if w[t] < 0 { c.reverse(); }
        for _ in 0..w[t].abs() { shapes.push(vec![c.clone()]); }
    }
    let fill: Vec<bool> = w.iter().map(|&c| match rule { 0 => c.rem_euclid(2) == 1, 1 => c != 0, 2 => c > 0, _ => c < 0 }).collect();
    let mut all: BTreeSet<(P, P)> = BTreeSet::new();
    for &(a, b) in m.sides().keys() { all.insert((a, b)); all.insert((b, a)); }
    let next = next_of(&all.iter().copied().collect::<Vec<_>>());
    let starts: Vec<P> = next.keys().copied().collect();
    let (mut cut, mut paths): (BTreeSet<(P, P)>, Vec<Vec<P>>) = (BTreeSet::new(), vec![]);
    for _ in 0..(if how < 2 { 1 } else { s.usize_in(0, 8) }) {
        let mut p = starts[(mix(&mut z) % starts.len() as u64) as usize];
        let mut line = vec![p];
        for _ in 0..(if how == 0 || how == 2 { 1 } else { s.usize_in(1, 8) }) {
            let q = next[&p][(mix(&mut z) % next[&p].len() as u64) as usize];
            let (dx, dy) = (q.0 - p.0, q.1 - p.1);
            let mut e = q;
            for _ in 0..mix(&mut z) % 5 { let f = (e.0 + dx, e.1 + dy); if all.contains(&(e, f)) { e = f; } }
            p = e;
            line.push(p);
        }
        for v in line.windows(2) { for (a, b) in atoms(&next, v[0], v[1]).unwrap() { cut.insert((a.min(b), a.max(b))); } }
        paths.push(line);
    }
    s.note("lines", &paths);
    let pts: Vec<IntPath> = paths.iter().map(|v| v.iter().map(|&p| ip(p)).collect()).collect();
    let lines: Vec<IntLine> = pts.iter().flat_map(|v| v.windows(2).map(|w| [w[0], w[1]]).collect::<Vec<_>>()).collect();
    // one shape, or one contour, if that is all there is
    let shape: IntShape = shapes.iter().map(|v| v[0].clone()).collect();
    let single: Option<&IntContour> = if shape.len() == 1 { Some(&shape[0]) } else { None };
    let of = mix(&mut z) % 3;
    macro_rules! on { ($f:ident, $a:expr) => { match (of, single) { (0, Some(c)) => c.$f($a, fr), (0 | 1, _) => shape.$f($a, fr), _ => shapes.$f($a, fr) } } }
    let (mut cw, r) = (false, match how {
        0 => on!(slice_by_line, lines[0]),
        1 => on!(slice_by_path, &pts[0]),
        2 | 3 => on!(slice_by_lines, &lines),
        4 => on!(slice_by_paths, &pts),
        _ => vec![],
    });
    let r = if how == 5 {
        cw = s.bool();
        let mut o = StringOverlay::new(0);
        o.add_shapes(&shapes);
        o.add_string_paths(&pts);
        let solver = Solver { strategy, precision: Precision::ABSOLUTE, ..Default::default() };
        o.into_graph_with_solver(fr, solver).extract_shapes_custom(StringRule::Slice, if cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise }, 0)
    } else { r };
    Cuts::new(&m, &fill, &cut).check(&m, &plain(&r), cw);
}
//@ body leaving weight=1
pub fn leaving<S: Src>(s: &mut S) {
    // each place: as many filled sides to walk out of as into
    let mut o = StringOverlay::new(0);
    let k = s.i32_in(2, 9);
    let big = 1 << s.i32_in(0, 20);
    let mut z = s.u64();
    let mut pt = |z: &mut u64| ip(((mix(z) % k as u64) as i32 * big, (mix(z) % k as u64) as i32 * big));
    let shapes: Vec<Vec<IntPoint>> = (0..s.usize_in(0, 5)).map(|_| (0..3 + mix(&mut z) % 4).map(|_| pt(&mut z)).collect()).collect();
    let lines: Vec<Vec<IntPoint>> = (0..s.usize_in(0, 5)).map(|_| (0..2 + mix(&mut z) % 4).map(|_| pt(&mut z)).collect()).collect();
    let rule = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive, FillRule::Negative][s.usize_in(0, 3)];
    s.note("shapes", &shapes);
    s.note("lines", &lines);
    s.note("rule", &format!("{rule:?}"));
    o.add_shape_contours(&shapes);
    o.add_string_paths(&lines);
    let solver = Solver { strategy: [Strategy::List, Strategy::Tree, Strategy::Frag, Strategy::Auto][s.usize_in(0, 3)], precision: Precision::ABSOLUTE, ..Default::default() };
    let g = o.into_graph_with_solver(rule, solver);
    let mut sum = std::collections::BTreeMap::new();
    for l in g.links.iter() {
        vp_check!(l.a.point < l.b.point, "an edge goes from its lower to its higher end");
        let n = (l.fill & 1) as i32 - ((l.fill >> 1) & 1) as i32;
        *sum.entry(l.a.point).or_insert(0) += n;
        *sum.entry(l.b.point).or_insert(0) -= n;
    }
    vp_check!(sum.values().all(|&n| n == 0), "as many filled sides lead out of a place as into it");
    let (mut total, mut n) = (0i128, 0);
    let r = g.extract_shapes(StringRule::Slice);
    for c in plain(&r).iter().flatten() { total += crate::vp_lib::area2(c); n += 1; }
    let mut want = 0i128;
    // both sides of a cut cancel
    for l in g.links.iter() { want += ((l.fill & 1) as i128 - ((l.fill >> 1) & 1) as i128) * (l.a.point.x as i128 * l.b.point.y as i128 - l.a.point.y as i128 * l.b.point.x as i128); }
    vp_check!(total == want, "the parts have the area of the filled region");
    let _ = n;
}
