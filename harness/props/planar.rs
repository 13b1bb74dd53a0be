//@ append lib.rs
// Triangles on a grid, each in the subject, the clip, both or none, under an integer affine map that keeps orientation:
// an exact planar subdivision whose Boolean results are known triangle by triangle.
use i_float::int::point::IntPoint;
use std::collections::BTreeMap;
use crate::core::overlay_rule::OverlayRule;
use crate::core::link::OverlayLink;
use crate::geom::id_point::IdPoint;
pub type P = (i32, i32);
pub struct Mesh { pub w: i32, pub h: i32, pub subj: Vec<bool>, pub clip: Vec<bool>, pub diag: Vec<bool>, pub map: [i32; 6] }
pub fn mix(z: &mut u64) -> u64 {
    *z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut v = *z;
    v = (v ^ (v >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    v = (v ^ (v >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    v ^ (v >> 31)
}
fn colour(w: i32, h: i32, z: &mut u64) -> Vec<bool> {
    let n = (w * h * 2) as usize;
    let mut c = vec![false; n];
    match mix(z) % 6 {
        0 => { for v in c.iter_mut() { *v = mix(z) % 2 == 0; } }
        1 => { for v in c.iter_mut() { *v = mix(z) % 5 != 0; } }
        2 => { for k in 0..(n / 2) { let b = mix(z) % 2 == 0; c[2 * k] = b; c[2 * k + 1] = b; } }
        3 => {
            // rings
            let (cx, cy) = (w / 2, h / 2);
            for k in 0..(n / 2) {
                let (x, y) = (k as i32 % w, k as i32 / w);
                let b = ((x - cx).abs().max((y - cy).abs())) % 2 == 0;
                c[2 * k] = b ^ (mix(z) % 13 == 0);
                c[2 * k + 1] = b ^ (mix(z) % 13 == 0);
            }
        }
        4 => {
            // many single cells
            for k in 0..(n / 2) { let (x, y) = (k as i32 % w, k as i32 / w); if x % 2 == 0 && y % 2 == 0 { c[2 * k] = true; c[2 * k + 1] = mix(z) % 4 != 0; } else if mix(z) % 9 == 0 { c[2 * k] = true; } }
        }
        _ => {
            for _ in 0..(1 + mix(z) % 5) {
                let (x0, y0) = ((mix(z) % w as u64) as i32, (mix(z) % h as u64) as i32);
                let (x1, y1) = (x0 + (mix(z) % w as u64) as i32, y0 + (mix(z) % h as u64) as i32);
                for y in y0..=y1.min(h - 1) { for x in x0..=x1.min(w - 1) { let k = (y * w + x) as usize; c[2 * k] = !c[2 * k]; c[2 * k + 1] = !c[2 * k + 1]; } }
            }
        }
    }
    c
}
impl Mesh {
    pub fn new<S: Src>(s: &mut S, max: usize) -> Self { let b = s.i32_in(1, 20); Self::scaled(s, max, 1 << b) }
    pub fn scaled<S: Src>(s: &mut S, max: usize, big: i32) -> Self {
        let w = s.usize_in(1, max) as i32;
        let h = s.usize_in(1, max) as i32;
        let mut z = s.u64();
        let maps = [[1, 0, 0, 1], [0, -1, 1, 0], [-1, 0, 0, -1], [0, 1, -1, 0], [2, 1, -1, 3], [1, -2, 1, 1], [3, 5, -2, 1], [-1, 1, -3, -2], [1, 1, -1, 0], [1, 0, 1, 1]];
        let m = maps[(mix(&mut z) % maps.len() as u64) as usize];
        let k = if mix(&mut z) % 2 == 0 { 1 } else { big };
        let subj = colour(w, h, &mut z);
        let clip = if mix(&mut z) % 3 == 0 { vec![false; subj.len()] } else { colour(w, h, &mut z) };
        let d = mix(&mut z) % 3;
        let diag = (0..w * h).map(|_| if d == 2 { mix(&mut z) % 2 == 0 } else { d == 1 }).collect();
        let (ox, oy) = ((mix(&mut z) % 2001) as i32 - 1000, (mix(&mut z) % 2001) as i32 - 1000);
        let r = Mesh { w, h, subj, clip, diag, map: [m[0] * k, m[1] * k, m[2] * k, m[3] * k, ox, oy] };
        s.note("grid", &(w, h));
        s.note("map", &r.map);
        s.note("subj", &r.subj);
        s.note("clip", &r.clip);
        s.note("diag", &r.diag);
        r
    }
    pub fn pt(&self, x: i32, y: i32) -> P { let m = &self.map; (m[0] * x + m[1] * y + m[4], m[2] * x + m[3] * y + m[5]) }
    // corners counterclockwise
    pub fn tri(&self, t: usize) -> [P; 3] {
        let k = t / 2;
        let (x, y) = (k as i32 % self.w, k as i32 / self.w);
        let c = match (self.diag[k], t % 2) {
            (false, 0) => [(x, y), (x + 1, y), (x + 1, y + 1)],
            (false, _) => [(x, y), (x + 1, y + 1), (x, y + 1)],
            (true, 0) => [(x, y), (x + 1, y), (x, y + 1)],
            (true, _) => [(x + 1, y), (x + 1, y + 1), (x, y + 1)],
        };
        [self.pt(c[0].0, c[0].1), self.pt(c[1].0, c[1].1), self.pt(c[2].0, c[2].1)]
    }
    // by directed edge: the triangle on its left
    pub fn sides(&self) -> BTreeMap<(P, P), usize> {
        let mut m = BTreeMap::new();
        for t in 0..self.subj.len() { let c = self.tri(t); for i in 0..3 { m.insert((c[i], c[(i + 1) % 3]), t); } }
        m
    }
    pub fn inside(&self, rule: OverlayRule, t: Option<&usize>) -> bool {
        let (s, c) = match t { Some(&t) => (self.subj[t], self.clip[t]), None => (false, false) };
        match rule {
            OverlayRule::Subject => s,
            OverlayRule::Clip => c,
            OverlayRule::Intersect => s && c,
            OverlayRule::Union => s || c,
            OverlayRule::Difference => s && !c,
            OverlayRule::InverseDifference => c && !s,
            OverlayRule::Xor => s != c,
        }
    }
    // the edges between differently filled triangles, from the lower to the higher end, with the fill bits of both sides
    pub fn edges(&self) -> Vec<(P, P, u8)> {
        let m = self.sides();
        let mut r = BTreeMap::new();
        for &(a, b) in m.keys() {
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            let (l, q) = (m.get(&(a, b)), m.get(&(b, a)));
            let f = |t: Option<&usize>| match t { Some(&t) => (self.subj[t] as u8, self.clip[t] as u8), None => (0, 0) };
            let (t, o) = (f(l), f(q));
            if t != o { r.insert((a, b), t.0 | (o.0 << 1) | (t.1 << 2) | (o.1 << 3)); }
        }
        r.into_iter().map(|((a, b), f)| (a, b, f)).collect()
    }
    pub fn links(&self) -> Vec<OverlayLink> {
        self.edges().into_iter().map(|(a, b, f)| OverlayLink::new(IdPoint::new(0, ip(a)), IdPoint::new(0, ip(b)), f)).collect()
    }
    // the boundary of the result, directed with the result on the left
    pub fn boundary(&self, rule: OverlayRule) -> Vec<(P, P)> {
        let m = self.sides();
        m.iter().filter(|(e, t)| self.inside(rule, Some(t)) && !self.inside(rule, m.get(&(e.1, e.0)))).map(|(e, _)| *e).collect()
    }
    // the connected parts of the result: a number for each triangle in it
    pub fn parts(&self, rule: OverlayRule) -> Vec<usize> {
        let m = self.sides();
        let mut p: Vec<usize> = vec![usize::MAX; self.subj.len()];
        let mut n = 0;
        for t in 0..p.len() {
            if p[t] != usize::MAX || !self.inside(rule, Some(&t)) { continue; }
            let mut st = vec![t];
            p[t] = n;
            while let Some(q) = st.pop() {
                let c = self.tri(q);
                for i in 0..3 {
                    if let Some(&o) = m.get(&(c[(i + 1) % 3], c[i])) { if p[o] == usize::MAX && self.inside(rule, Some(&o)) { p[o] = n; st.push(o); } }
                }
            }
            n += 1;
        }
        p
    }
}
pub const RULES: [OverlayRule; 7] = [OverlayRule::Subject, OverlayRule::Clip, OverlayRule::Intersect, OverlayRule::Union, OverlayRule::Difference, OverlayRule::InverseDifference, OverlayRule::Xor];
pub fn ip(p: P) -> IntPoint { IntPoint::new(p.0, p.1) }
pub fn pp(p: &IntPoint) -> P { (p.x, p.y) }
pub fn cross(a: P, b: P, c: P) -> i128 { (b.0 as i128 - a.0 as i128) * (c.1 as i128 - a.1 as i128) - (b.1 as i128 - a.1 as i128) * (c.0 as i128 - a.0 as i128) }
fn dot(a: P, b: P, c: P) -> i128 { (b.0 as i128 - a.0 as i128) * (c.0 as i128 - a.0 as i128) + (b.1 as i128 - a.1 as i128) * (c.1 as i128 - a.1 as i128) }
// twice the signed area
pub fn area2(c: &[P]) -> i128 { (0..c.len()).map(|i| { let (a, b) = (c[i], c[(i + 1) % c.len()]); a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128 }).sum() }
pub fn rotated(c: &[P]) -> Vec<P> {
    (0..c.len()).map(|i| { let mut v = c[i..].to_vec(); v.extend_from_slice(&c[..i]); v }).min().unwrap_or_default()
}
// cut the edge p-q into edges of the boundary (next: the ends of the boundary edges from each point)
pub fn atoms(next: &BTreeMap<P, Vec<P>>, p: P, q: P) -> Option<Vec<(P, P)>> {
    let mut r = vec![];
    let mut a = p;
    while a != q {
        let b = *next.get(&a)?.iter().find(|&&b| cross(a, b, q) == 0 && dot(a, b, q) > 0 && dot(b, a, q) <= 0)?;
        r.push((a, b));
        a = b;
    }
    Some(r)
}
pub fn next_of(edges: &[(P, P)]) -> BTreeMap<P, Vec<P>> {
    let mut m: BTreeMap<P, Vec<P>> = BTreeMap::new();
    for &(a, b) in edges { m.entry(a).or_default().push(b); }
    m
}
// edges that meet only in their ends
pub fn apart<S: Src>(s: &mut S) -> Vec<(P, P)> {
    let n = s.usize_in(0, 40);
    let k = s.i32_in(2, 14);
    let mut z = s.u64();
    let big: i32 = if s.bool() { 1 } else { 1 << s.i32_in(1, 26) };
    let (ox, oy) = (s.i32_in(-1000, 1000), s.i32_in(-1000, 1000));
    let flip = s.bool();
    let near = s.bool();
    let mut r: Vec<(P, P)> = vec![];
    for _ in 0..n {
        let mut c = |_: i32| (mix(&mut z) % k as u64) as i32;
        let a = if near && !r.is_empty() { let q = r[(mix(&mut z) % r.len() as u64) as usize]; if mix(&mut z) % 2 == 0 { q.0 } else { q.1 } } else { (c(0), c(1)) };
        let mut c = |_: i32| (mix(&mut z) % k as u64) as i32;
        let b = (c(0), c(1));
        if a == b { continue; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if r.iter().all(|&(p, q)| clear(a, b, p, q)) { r.push((a, b)); }
    }
    let m = |p: P| if flip { (p.1 * big + ox, p.0 * big + oy) } else { (p.0 * big + ox, p.1 * big + oy) };
    let mut r: Vec<(P, P)> = r.into_iter().map(|(a, b)| { let (a, b) = (m(a), m(b)); if a < b { (a, b) } else { (b, a) } }).collect();
    r.sort();
    r
}
fn within(a: P, b: P, p: P) -> bool { cross(a, b, p) == 0 && a.min(b) <= p && p <= a.max(b) }
fn clear(a: P, b: P, p: P, q: P) -> bool {
    if (a, b) == (p, q) { return false; }
    for (o, e, f) in [(a, p, q), (b, p, q)] { if o != e && o != f && within(e, f, o) { return false; } }
    for (o, e, f) in [(p, a, b), (q, a, b)] { if o != e && o != f && within(e, f, o) { return false; } }
    let (s0, s1, s2, s3) = (cross(a, b, p).signum(), cross(a, b, q).signum(), cross(p, q, a).signum(), cross(p, q, b).signum());
    !(s0 * s1 < 0 && s2 * s3 < 0)
}
