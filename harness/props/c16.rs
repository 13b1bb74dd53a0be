//@ append string/clip.rs
use crate::core::solver::Solver;
use crate::vp_lib::{Mesh, P, ip, pp, apart};
use std::collections::BTreeSet;
//@ body pieces weight=2
pub fn pieces<S: Src>(s: &mut S) {
    let e = if s.bool() { apart(s) } else { Mesh::new(s, 6).edges().iter().map(|v| (v.0, v.1)).collect() };
    let most = s.usize_in(1, 4);
    let l: Vec<(P, P, u8)> = e.iter().map(|&(a, b)| (a, b, (s.usize_in(0, 3) | if s.usize_in(0, 3) < most { s.usize_in(0, 3) << 2 } else { 0 }) as u8)).collect();
    s.note("links", &l);
    let links = l.iter().map(|&(a, b, f)| OverlayLink::new(IdPoint::new(0, ip(a)), IdPoint::new(0, ip(b)), f)).collect();
    let r = StringGraph::new(Solver::default(), links).into_clip_string_lines();
    let mut left: BTreeSet<(P, P)> = BTreeSet::new();
    for &(a, b, f) in l.iter() {
        if f & 4 != 0 { left.insert((a, b)); }
        if f & 8 != 0 { left.insert((b, a)); }
    }
    for path in r.iter() {
        let p: Vec<P> = path.iter().map(pp).collect();
        vp_check!(p.len() >= 2, "a path has a piece");
        for w in p.windows(2) { vp_check!(left.remove(&(w[0], w[1])), "each step of a path is a kept piece of a line in its own direction, used once"); }
        let (a, b) = (p[0], p[p.len() - 1]);
        vp_check!(!left.iter().any(|v| v.0 == b) || !left.iter().any(|v| v.1 == a), "a path stops only where no piece goes on");
    }
    vp_check!(left.is_empty(), "every kept piece of a line is on a path");
}
//@ append string/overlay.rs
use crate::core::solver::{Strategy, Precision};
use crate::vp_lib::{Mesh, P, mix, ip, pp, next_of, atoms};
use std::collections::BTreeSet;
//@ body clipping weight=3
pub fn clipping<S: Src>(s: &mut S) {
    let m = Mesh::new(s, 5);
    let (invert, boundary_included) = (s.bool(), s.bool());
    let rule = s.usize_in(0, 3);
    let strategy = [Strategy::List, Strategy::Tree, Strategy::Frag, Strategy::Auto][s.usize_in(0, 3)];
    let mut z = s.u64();
    s.note("invert, with boundary", &(invert, boundary_included));
    s.note("rule", &rule);
    s.note("strategy", &strategy);
    // a winding number for each triangle
    let w: Vec<i32> = (0..m.subj.len()).map(|t| if m.subj[t] { [1, -1, 2][(mix(&mut z) % 3) as usize] } else { 0 }).collect();
    let mut o = StringOverlay::new(16);
    for t in 0..w.len() {
        let mut c: Vec<IntPoint> = m.tri(t).iter().map(|&p| ip(p)).collect();
        if w[t] < 0 { c.reverse(); }
        for _ in 0..w[t].abs() { o.add_shape_contour(&c); }
    }
    s.note("windings", &w);
    let sides = m.sides();
    let mut all: BTreeSet<(P, P)> = BTreeSet::new();
    for &(a, b) in sides.keys() { all.insert((a, b)); all.insert((b, a)); }
    let next = next_of(&all.iter().copied().collect::<Vec<_>>());
    let mut asked: BTreeSet<(P, P)> = BTreeSet::new();
    let mut lines: Vec<Vec<P>> = vec![];
    let starts: Vec<P> = next.keys().copied().collect();
    for _ in 0..s.usize_in(0, 8) {
        let mut p = starts[(mix(&mut z) % starts.len() as u64) as usize];
        let mut line = vec![p];
        for _ in 0..s.usize_in(0, 8) {
            // some steps straight on
            let q = next[&p][(mix(&mut z) % next[&p].len() as u64) as usize];
            let (dx, dy) = (q.0 - p.0, q.1 - p.1);
            let mut e = q;
            for _ in 0..mix(&mut z) % 3 { let f = (e.0 + dx, e.1 + dy); if all.contains(&(e, f)) { e = f; } }
            p = e;
            line.push(p);
            if mix(&mut z) % 9 == 0 { line.push(p); }
        }
        let pts: Vec<IntPoint> = line.iter().map(|&p| ip(p)).collect();
        match mix(&mut z) % 4 {
            0 => { o.add_string_paths(&[pts]); }
            1 if line.len() >= 3 && atoms(&next, line[line.len() - 1], line[0]).is_some() => { o.add_string_contour(&pts); line.push(line[0]); }
            2 => { for v in pts.windows(2) { o.add_string_line([v[0], v[1]]); } }
            _ => { o.add_string_path(&pts); }
        }
        for v in line.windows(2) { for a in atoms(&next, v[0], v[1]).unwrap() { asked.insert(a); } }
        lines.push(line);
    }
    s.note("lines", &lines);
    let inside = |t: Option<&usize>| { let c = t.map(|&t| w[t]).unwrap_or(0); match rule { 0 => c.rem_euclid(2) == 1, 1 => c != 0, 2 => c > 0, _ => c < 0 } };
    let mut want: BTreeSet<(P, P)> = asked.iter().copied().filter(|&(a, b)| {
        let (l, r) = (inside(sides.get(&(a, b))), inside(sides.get(&(b, a))));
        (if boundary_included { l || r } else { l && r }) != invert
    }).collect();
    let fr = [FillRule::EvenOdd, FillRule::NonZero, FillRule::Positive, FillRule::Negative][rule];
    let solver = Solver { strategy, precision: Precision::ABSOLUTE, ..Default::default() };
    let r = if s.bool() { o.clip_string_lines_with_solver(fr, ClipRule { invert, boundary_included }, solver) } else { o.clip_string_lines(fr, ClipRule { invert, boundary_included }) };
    for path in r.iter() {
        vp_check!(path.len() >= 2, "a path has a piece");
        for v in path.windows(2) {
            let a = atoms(&next, pp(&v[0]), pp(&v[1]));
            vp_check!(a.is_some() && v[0] != v[1], "a path runs along the lines");
            for a in a.unwrap() { vp_check!(want.remove(&a), "a path has only what is to be kept of the lines, in their direction, once"); }
        }
    }
    vp_check!(want.is_empty(), "all that is to be kept of the lines comes back");
}
//@ body adding
pub fn adding<S: Src>(s: &mut S) {
    let mut o = StringOverlay::new(4);
    let mut want: Vec<(P, P, u8)> = vec![];
    let span = s.i32_in(1, 1_000_000);
    for _ in 0..s.usize_in(0, 4) {
        let paths: Vec<Vec<P>> = (0..s.usize_in(0, 3)).map(|_| (0..s.usize_in(0, 5)).map(|_| (s.i32_in(-2, 2) * span, s.i32_in(-2, 2) * span)).collect()).collect();
        s.note("paths", &paths);
        let p: Vec<IntPath> = paths.iter().map(|v| v.iter().map(|&p| ip(p)).collect()).collect();
        let closed = match s.usize_in(0, 4) {
            0 => { for v in p.iter() { o.add_string_path(v); } false }
            1 => { o.add_string_paths(&p); false }
            2 => { for v in p.iter() { o.add_string_contour(v); } true }
            3 => { o.add_string_contours(&p); true }
            _ => { let l: Vec<IntLine> = p.iter().flat_map(|v| v.windows(2).map(|w| [w[0], w[1]]).collect::<Vec<_>>()).collect(); o.add_string_lines(&l); false }
        };
        s.note("closed", &closed);
        for v in paths.iter() {
            if v.len() < 2 { continue; }
            let mut st: Vec<(P, P)> = v.windows(2).map(|w| (w[0], w[1])).collect();
            if closed { st.push((v[v.len() - 1], v[0])); }
            for (a, b) in st { if a < b { want.push((a, b, 1)); } else if b < a { want.push((b, a, 2)); } }
        }
    }
    let mut got: Vec<(P, P, u8)> = o.segments.iter().map(|v| (pp(&v.x_segment.a), pp(&v.x_segment.b), v.count.clip)).collect();
    vp_check!(o.segments.iter().all(|v| v.count.subj == 0), "a line winds around nothing");
    got.sort();
    want.sort();
    vp_check!(got == want, "each step of a line is one edge that carries its direction");
}
