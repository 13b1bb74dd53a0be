//@ append lib.rs
// what a stroke or an outline has to cover, worked out apart from the code, in f64
use std::collections::BTreeMap;
use std::f64::consts::PI;
use i_float::float::compatible::FloatPointCompatible;
use i_float::float::number::FloatNumber;
use crate::mesh::boolean::OffsetCountBoolean;
use crate::mesh::style::{LineCap, LineJoin};
use crate::segm::segment::Segment;
pub type P = [f64; 2];
pub fn add(a: P, b: P, k: f64) -> P { [a[0] + k * b[0], a[1] + k * b[1]] }
pub fn sub(a: P, b: P) -> P { [a[0] - b[0], a[1] - b[1]] }
pub fn dot(a: P, b: P) -> f64 { a[0] * b[0] + a[1] * b[1] }
pub fn cross(a: P, b: P) -> f64 { a[0] * b[1] - a[1] * b[0] }
pub fn len(a: P) -> f64 { dot(a, a).sqrt() }
pub fn unit(a: P) -> P { let l = len(a); [a[0] / l, a[1] / l] }
pub fn left(a: P) -> P { [-a[1], a[0]] }
pub fn rot(v: P, a: f64) -> P { [v[0] * a.cos() - v[1] * a.sin(), v[0] * a.sin() + v[1] * a.cos()] }
pub fn to_side(p: P, a: P, b: P) -> f64 {
    let d = sub(b, a);
    let t = if dot(d, d) == 0.0 { 0.0 } else { (dot(sub(p, a), d) / dot(d, d)).clamp(0.0, 1.0) };
    len(sub(p, add(a, d, t)))
}
pub fn sides(c: &[P]) -> impl Iterator<Item = (P, P)> + '_ { (0..c.len()).map(move |i| (c[i], c[(i + 1) % c.len()])) }
pub fn far_from(p: P, c: &[P]) -> f64 { sides(c).map(|(a, b)| to_side(p, a, b)).fold(f64::MAX, f64::min) }
// how often a closed line turns round a point
pub fn winding(p: P, c: &[P]) -> i32 {
    sides(c).map(|(a, b)| {
        let up = (a[1] <= p[1]) as i32 - (b[1] <= p[1]) as i32;
        if up != 0 && (cross(sub(b, a), sub(p, a)) > 0.0) == (up > 0) { up } else { 0 }
    }).sum()
}
fn boxed_off(p: P, c: &[P], e: f64) -> bool {
    (0..2).any(|k| c.iter().all(|q| q[k] > p[k] + e) || c.iter().all(|q| q[k] < p[k] - e))
}
pub fn inside(p: P, c: &[P], e: f64) -> bool { !boxed_off(p, c, 0.0) && winding(p, c) != 0 && far_from(p, c) > e }
pub fn outside(p: P, c: &[P], e: f64) -> bool { boxed_off(p, c, e) || winding(p, c) == 0 && far_from(p, c) > e }

// what a band is made of: pieces that are surely covered, pieces outside of which nothing is
pub struct Band { pub full: Vec<Vec<P>>, pub reach: Vec<Vec<P>> }
#[derive(Clone, Debug)]
pub enum Join { Bevel, Miter(f64), Round(f64) }
#[derive(Clone, Debug)]
pub enum Cap { Butt, Round(f64), Square, Custom(Vec<P>) }
impl Join {
    pub fn any<S: Src>(s: &mut S) -> Join {
        let a = s.i32_in(-5, 110) as f64 * 0.01 * PI;
        match s.usize_in(0, 4) { 0 => Join::Bevel, 1 | 2 => Join::Miter(a), _ => Join::Round(0.4 * a) }
    }
    pub fn style<T: FloatNumber>(&self) -> LineJoin<T> {
        match *self { Join::Bevel => LineJoin::Bevel, Join::Miter(a) => LineJoin::Miter(T::from_float(a)), Join::Round(a) => LineJoin::Round(T::from_float(a)) }
    }
    // the outer corner between two directions, from one side at r to the other, seen from c; `out` is 1 for the left side
    pub fn corner(&self, c: P, d0: P, d1: P, r: f64, out: f64, band: &mut Band) {
        let (n0, n1) = ([left(d0)[0] * out, left(d0)[1] * out], [left(d1)[0] * out, left(d1)[1] * out]);
        let (a, b) = (add(c, n0, r), add(c, n1, r));
        let turn = dot(d0, d1).clamp(-1.0, 1.0).acos();
        let bevel = vec![c, a, b];
        let x = cross(d0, d1).abs();
        match *self {
            Join::Bevel => { band.full.push(bevel.clone()); band.reach.push(bevel); }
            Join::Miter(m) => {
                let m = m.clamp(0.01 * PI, 0.99 * PI);
                let tip = |h: f64| { let l = r * (0.5 * h).tan(); vec![c, a, add(a, d0, l), add(b, d1, -l), b] };
                let (sharp, cut) = (tip(turn), tip(PI - m));
                if x < 2e-4 { band.full.push(bevel.clone()); band.reach.push(bevel); if x > 5e-5 && turn < 1.0 { band.reach.push(sharp); } else if x > 5e-5 { band.reach.push(cut); } return }
                let near = (turn - (PI - m)).abs() < 1e-3;
                if near { band.full.push(bevel); band.reach.push(tip(PI - m - 2e-3)); band.reach.push(tip(PI - m + 2e-3)) }
                else { let t = if turn > PI - m { cut } else { sharp }; band.full.push(t.clone()); band.reach.push(t) }
            }
            Join::Round(k) => {
                let k = k.clamp(0.01 * PI, 0.25 * PI);
                // steps of one length, as many as fit
                let n = (turn / k).round().max(1.0) as usize;
                let arc = |n: usize, r: f64| -> Vec<P> { let mut v = vec![c]; for i in 0..=n { v.push(add(c, rot(n0, -out * turn * i as f64 / n as f64), r)) } v };
                if turn < k * 1.001 { band.full.push(bevel) } else {
                    let n0 = if n > 1 { n - 1 } else { 1 };
                    let d = 0.5 * turn / n0 as f64;
                    band.full.push(arc(24, r * d.cos() * 0.999));
                }
                let d = 0.5 * turn / 24.0;
                band.reach.push(arc(24, r / d.cos()));
            }
        }
    }
}
impl Cap {
    pub fn any<S: Src>(s: &mut S) -> Cap {
        match s.usize_in(0, 5) {
            0 | 1 => Cap::Butt, 2 => Cap::Square, 3 => Cap::Round(s.i32_in(-5, 40) as f64 * 0.01 * PI),
            _ => {
                let n = s.usize_in(0, 4);
                let mut v: Vec<P> = (0..n).map(|_| { let (a, q) = (s.i32_in(-15, 15) as f64 * 0.1, s.i32_in(2, 60) as f64 * 0.1); rot([q, 0.0], a) }).collect();
                v.sort_by(|a, b| a[1].atan2(a[0]).total_cmp(&b[1].atan2(b[0])));
                Cap::Custom(v)
            }
        }
    }
    pub fn style<T: FloatNumber>(&self) -> LineCap<[T; 2], T> where [T; 2]: FloatPointCompatible<T> {
        match self {
            Cap::Butt => LineCap::Butt, Cap::Square => LineCap::Square, Cap::Round(a) => LineCap::Round(T::from_float(*a)),
            Cap::Custom(v) => LineCap::Custom(v.iter().map(|p| [T::from_float(p[0]), T::from_float(p[1])]).collect()),
        }
    }
    // the end at c of a line that runs on in direction d
    pub fn end(&self, c: P, d: P, r: f64, band: &mut Band) {
        let n = left(d);
        let at = |p: P| add(add(c, d, r * p[0]), n, r * p[1]);
        match self {
            Cap::Butt => {}
            Cap::Square => { let q: Vec<P> = [[0.0, -1.0], [1.0, -1.0], [1.0, 1.0], [0.0, 1.0]].iter().map(|&p| at(p)).collect(); band.full.push(q.clone()); band.reach.push(q) }
            Cap::Round(a) => {
                let a = a.clamp(0.01 * PI, 0.25 * PI);
                let arc = |k: f64| -> Vec<P> { (0..=24).map(|i| { let w = PI * (i as f64 / 24.0 - 0.5); at([k * w.cos(), k * w.sin()]) }).collect() };
                // steps no longer than the smallest whole number of them needs
                let m = PI / (0.999 * PI / a).floor().max(2.0);
                band.full.push(arc((0.5 * m).cos() * 0.999)); band.reach.push(arc(1.003))
            }
            Cap::Custom(v) => {
                let mut q = vec![c, at([0.0, -1.0])];
                q.extend(v.iter().map(|&p| at(p)));
                q.push(at([0.0, 1.0]));
                band.full.push(q.clone()); band.reach.push(q)
            }
        }
    }
}
// without points that repeat the one before
pub fn plain(path: &[P], closed: bool) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    for p in path { if v.last() != Some(p) { v.push(*p) } }
    if closed { while v.len() > 1 && v.first() == v.last() { v.pop(); } }
    if v.len() < 2 { v.clear() }
    v
}
pub fn stroke_of(path: &[P], closed: bool, r: f64, join: &Join, c0: &Cap, c1: &Cap, band: &mut Band) -> bool {
    let v = plain(path, closed);
    let n = v.len();
    if n < 2 { return true }
    let k = if closed { n } else { n - 1 };
    let dir: Vec<P> = (0..k).map(|i| unit(sub(v[(i + 1) % n], v[i]))).collect();
    // on the inner side of a corner the bands only meet where its sides are long enough: elsewhere they may
    // cancel each other, and bands of other paths drawn with them
    let long = |i: usize| len(sub(v[(i + 1) % n], v[i])) > 2.0 * r;
    let all = (0..k).all(long);
    let mut b = Band { full: vec![], reach: vec![] };
    for i in 0..k {
        let (p, q, h) = (v[i], v[(i + 1) % n], left(dir[i]));
        let quad = vec![add(p, h, r), add(p, h, -r), add(q, h, -r), add(q, h, r)];
        b.full.push(quad.clone()); b.reach.push(quad);
        if i + 1 < k || closed {
            let e = dir[(i + 1) % k];
            let x = cross(dir[i], e);
            join.corner(q, dir[i], e, r, if x > 0.0 { -1.0 } else { 1.0 }, &mut b);
            // a straight reversal has no side of its own
            if x.abs() < 1e-3 && dot(dir[i], e) < 0.0 { join.corner(q, dir[i], e, r, if x > 0.0 { 1.0 } else { -1.0 }, &mut Band { full: vec![], reach: vec![] }) }
        }
    }
    if !closed {
        c0.end(v[0], [-dir[0][0], -dir[0][1]], r, &mut b);
        c1.end(v[n - 1], dir[k - 1], r, &mut b);
    }
    band.full.append(&mut b.full);
    band.reach.append(&mut b.reach);
    all
}
pub fn balanced(e: &[Segment<OffsetCountBoolean>]) {
    let mut out: BTreeMap<(i32, i32), i32> = BTreeMap::new();
    for s in e.iter() {
        vp_check!(s.x_segment.a < s.x_segment.b, "no edge of a stroke has zero length");
        vp_check!(s.count.subj == 1 || s.count.subj == -1, "an edge of a stroke counts once");
        *out.entry((s.x_segment.a.x, s.x_segment.a.y)).or_insert(0) += s.count.subj;
        *out.entry((s.x_segment.b.x, s.x_segment.b.y)).or_insert(0) -= s.count.subj;
    }
    vp_check!(out.values().all(|&n| n == 0), "as many edges of a stroke come to a point as leave it");
}
pub struct Dice(pub u64);
impl Dice { pub fn next(&mut self) -> f64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 11) as f64 / (1u64 << 53) as f64 } }
pub fn probes(band: &Band, seed: u64, e: f64) -> Vec<P> {
    let mut d = Dice(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let mut v = vec![];
    for q in band.reach.iter().chain(band.full.iter()) {
        for _ in 0..6 {
            let (i, t) = ((d.next() * q.len() as f64) as usize, d.next());
            let (a, b) = (q[i], q[(i + 1) % q.len()]);
            let m = add(a, sub(b, a), t);
            if len(sub(b, a)) > 0.0 {
                let n = unit(left(sub(b, a)));
                for k in [1.5, -1.5, 20.0, -20.0, 200.0, -200.0] { v.push(add(m, n, k * e)) }
            }
            let j = (d.next() * q.len() as f64) as usize;
            v.push(add(m, sub(q[j], m), d.next()));
        }
    }
    // edges that lie on each other up to rounding may leave slivers between them
    v.retain(|&p| band.reach.iter().chain(band.full.iter()).all(|q| boxed_off(p, q, e) || far_from(p, q) > e));
    v
}
pub fn shapes_at<T: FloatNumber>(shapes: &[Vec<Vec<[T; 2]>>], p: P) -> i32 where [T; 2]: FloatPointCompatible<T> {
    shapes.iter().flatten().map(|c| winding(p, &doubles(c))).sum()
}
pub fn doubles<T: FloatNumber>(c: &[[T; 2]]) -> Vec<P> where [T; 2]: FloatPointCompatible<T> { c.iter().map(|q| [q.x().to_f64(), q.y().to_f64()]).collect() }
pub fn area(c: &[P]) -> f64 { 0.5 * sides(c).map(|(a, b)| cross(a, b)).sum::<f64>() }
pub fn grid_path<S: Src>(s: &mut S, max: usize) -> Vec<P> {
    let n = s.usize_in(0, max);
    let (k, spread) = ([1.0, 0.5, 3.0][s.usize_in(0, 2)], [3, 8, 30][s.usize_in(0, 2)]);
    let mut v: Vec<P> = vec![];
    for _ in 0..n {
        let q = s.usize_in(0, 9);
        if q == 0 && !v.is_empty() { v.push(v[v.len() - 1]) }
        else if q == 1 && v.len() > 1 { v.push(v[v.len() - 2]) }
        else if q == 2 && v.len() > 1 { let l = v.len(); v.push(add(v[l - 1], sub(v[l - 1], v[l - 2]), 1.0)) }
        else { v.push([s.i32_in(-spread, spread) as f64 * k, s.i32_in(-spread, spread) as f64 * k]) }
    }
    v
}

// contours whose turns never cross each other: star-shaped about their centre
pub fn star<S: Src>(s: &mut S, x: f64, y: f64, lo: i32, hi: i32) -> Vec<P> {
    let n = s.usize_in(3, 7);
    let a0 = s.i32_in(0, 62) as f64 * 0.1;
    (0..n).map(|i| { let q = s.i32_in(lo, hi) as f64 * 0.5; let v = rot([q, 0.0], a0 + 2.0 * PI * i as f64 / n as f64); [x + v[0], y + v[1]] }).collect()
}
// what the offset of a contour by d covers: out for d > 0, in for d < 0
pub struct Shift { c: Vec<P>, d: f64, pub long: bool, pub band: Band }
impl Shift {
    pub fn new(c: &[P], d: f64, join: &Join) -> Self {
        let (n, side, r) = (c.len(), if d < 0.0 { 1.0 } else { -1.0 }, d.abs());
        let dir: Vec<P> = (0..n).map(|i| unit(sub(c[(i + 1) % n], c[i]))).collect();
        let mut band = Band { full: vec![], reach: vec![] };
        for i in 0..n {
            let (p, q, h) = (c[i], c[(i + 1) % n], left(dir[i]));
            let quad = vec![p, add(p, h, side * r), add(q, h, side * r), q];
            band.full.push(quad.clone()); band.reach.push(quad);
            let e = dir[(i + 1) % n];
            if cross(dir[i], e) * side < 0.0 { join.corner(q, dir[i], e, r, side, &mut band) }
        }
        // on the other side of a corner the bands only meet where its sides are long enough
        let long = (0..n).all(|i| len(sub(c[(i + 1) % n], c[i])) > 2.0 * r);
        Self { c: c.to_vec(), d, long, band }
    }
    // 1 where it surely covers, 0 where it surely does not
    pub fn at(&self, p: P, e: f64) -> Option<i32> {
        let band = self.band.full.iter().any(|q| inside(p, q, e));
        let clear = self.band.reach.iter().all(|q| outside(p, q, e));
        let (i, o) = (inside(p, &self.c, e), outside(p, &self.c, e));
        if o && clear { return Some(0) }
        if !self.long { return None }
        if self.d < 0.0 {
            if o || band { Some(0) } else if i && clear { Some(1) } else { None }
        } else if i || band { Some(1) } else { None }
    }
}
