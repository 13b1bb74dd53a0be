//@ append core/extract.rs
use crate::core::solver::Solver;
use crate::geom::id_point::IdPoint;
fn cross(u: (i128, i128), v: (i128, i128)) -> i128 { u.0 * v.1 - u.1 * v.0 }
fn dot(u: (i128, i128), v: (i128, i128)) -> i128 { u.0 * v.0 + u.1 * v.1 }
fn dir(c: IntPoint, p: IntPoint) -> (i128, i128) { (p.x as i128 - c.x as i128, p.y as i128 - c.y as i128) }
// the turn from u, as a pair to compare: which half, then the position in it
fn earlier(u: (i128, i128), p: (i128, i128), q: (i128, i128), cw: bool) -> bool {
    let k = if cw { -1 } else { 1 };
    let class = |v| { let c = k * cross(u, v); if c > 0 { 0 } else if c < 0 { 2 } else if dot(u, v) < 0 { 1 } else { 3 } };
    let (a, b) = (class(p), class(q));
    a < b || a == b && k * cross(p, q) > 0
}
fn star<S: Src>(s: &mut S) -> (IntPoint, Vec<IntPoint>) {
    let m = [1, 2, 4, 30, 1000, 0x3fff_ffff][s.usize_in(0, 5)];
    let mut p = |s: &mut S| IntPoint::new(s.i32_in(-m, m), s.i32_in(-m, m));
    let c = if s.one_in(2) { IntPoint::new(0, 0) } else { p(s) };
    let mut v: Vec<IntPoint> = vec![];
    for _ in 0..s.usize_in(2, 7) {
        let mut q = p(s);
        if s.one_in(4) && !v.is_empty() {
            let r = v[s.usize_in(0, v.len() - 1)];
            // opposite or nearly so
            q = IntPoint::new((2 * c.x as i64 - r.x as i64).clamp(-0x3fff_ffff, 0x3fff_ffff) as i32, (2 * c.y as i64 - r.y as i64 + s.i32_in(-1, 1) as i64).clamp(-0x3fff_ffff, 0x3fff_ffff) as i32);
        }
        if q == c { continue; }
        let d = dir(c, q);
        if v.iter().any(|r| { let e = dir(c, *r); cross(d, e) == 0 && dot(d, e) > 0 }) { continue; }
        v.push(q);
    }
    (c, v)
}
//@ body nearest_of weight=2
pub fn nearest_of<S: Src>(s: &mut S) {
    use crate::core::nearest_vector::NearestVector;
    let (c, v) = star(s);
    if v.len() < 2 { return; }
    let cw = s.bool();
    s.note("center", &c); s.note("ends", &v); s.note("clockwise", &cw);
    let u = dir(c, v[0]);
    let mut n = NearestVector::new(c, v[0], v[1], 1, cw);
    let mut best = 1;
    vp_check!(n.best_id == best, "the first vector is the nearest one at the start");
    for i in 2..v.len() {
        n.add(v[i], i);
        if earlier(u, dir(c, v[i]), dir(c, v[best]), cw) { best = i; }
        s.note("best", &n.best_id);
        vp_check!(n.best_id == best, "the best vector is the one reached first when turning from the target in the given direction");
    }
}
//@ body nearest_pair weight=1
pub fn nearest_pair<S: Src>(s: &mut S) {
    use crate::core::nearest_vector::NearestVector;
    let m = 3;
    let mut p = |s: &mut S| IntPoint::new(s.i32_in(-m, m), s.i32_in(-m, m));
    let c = IntPoint::new(s.i32_in(-1, 1), s.i32_in(-1, 1));
    let (a, b, d) = (p(s), p(s), p(s));
    let cw = s.bool();
    s.assume(a != c && b != c && d != c);
    let (u, v, w) = (dir(c, a), dir(c, b), dir(c, d));
    s.assume(!(cross(u, v) == 0 && dot(u, v) > 0) && !(cross(u, w) == 0 && dot(u, w) > 0));
    s.note("center", &c); s.note("ends", &(a, b, d)); s.note("clockwise", &cw);
    let mut n = NearestVector::new(c, a, b, 1, cw);
    n.add(d, 2);
    vp_check!((n.best_id == 2) == earlier(u, w, v, cw), "of two vectors the one reached first is kept, and the first one if they point the same way");
}
//@ body next_link weight=3
pub fn next_link<S: Src>(s: &mut S) {
    let (c, v) = star(s);
    if v.len() < 2 { return; }
    let cw = s.bool();
    let mut links = vec![];
    let mut indices = vec![];
    let mut visited = vec![];
    for (i, p) in v.iter().enumerate() {
        // links of other nodes in between
        while s.one_in(4) { links.push(OverlayLink::new(IdPoint::new(90, IntPoint::new(5, 5)), IdPoint::new(91, IntPoint::new(6, 5)), 1)); visited.push(s.bool()); }
        let (n, f) = (IdPoint::new(0, c), IdPoint::new(i + 1, *p));
        indices.push(links.len());
        visited.push(s.one_in(3));
        links.push(if (c.x, c.y) < (p.x, p.y) { OverlayLink::new(n, f, 1) } else { OverlayLink::new(f, n, 1) });
    }
    let target = indices[s.usize_in(0, v.len() - 1)];
    let k = indices.iter().position(|&i| i == target).unwrap();
    visited[target] = true;
    for _ in 0..v.len() { let (i, j) = (s.usize_in(0, v.len() - 1), s.usize_in(0, v.len() - 1)); indices.swap(i, j); }
    let at: Vec<(usize, IntPoint)> = indices.iter().map(|&i| (i, if links[i].a.id == 0 { links[i].b.point } else { links[i].a.point })).collect();
    s.note("center", &c); s.note("links", &at); s.note("visited", &visited); s.note("target", &target); s.note("clockwise", &cw);
    let free: Vec<_> = at.iter().filter(|(i, _)| !visited[*i]).collect();
    if free.is_empty() { return; }
    let u = dir(c, v[k]);
    let g = OverlayGraph { solver: Solver::AUTO, nodes: vec![], links };
    let r = g.find_nearest_link_to(target, 0, cw, &indices, &visited);
    s.note("chosen", &r);
    let b = free.iter().find(|(i, _)| *i == r);
    vp_check!(b.is_some(), "the next link is one of the node that was not walked yet");
    let d = dir(c, b.unwrap().1);
    vp_check!(free.iter().all(|(_, p)| !earlier(u, dir(c, *p), d, cw)), "no link that was not walked yet comes before the chosen one in the turn");
}
