//@ append segm/build.rs
use std::collections::BTreeMap;
use crate::segm::winding_count::{ShapeCountBoolean, ShapeCountString};
fn gcd(a: i32, b: i32) -> i32 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
type Net = BTreeMap<((i32, i32), (i32, i32)), i64>;
// the directed edge a -> b as net primitive steps: the finest measure that cancels on reversal and adds along a line
fn steps(net: &mut Net, a: IntPoint, b: IntPoint, k: i64) {
    if a == b { return; }
    let (dx, dy) = (b.x - a.x, b.y - a.y);
    let g = gcd(dx, dy);
    let (vx, vy) = (dx / g, dy / g);
    for i in 0..g {
        let p = (a.x + i * vx, a.y + i * vy);
        let q = (p.0 + vx, p.1 + vy);
        if p < q { *net.entry((p, q)).or_insert(0) += k; } else { *net.entry((q, p)).or_insert(0) -= k; }
    }
}
fn clean(net: Net) -> Net { net.into_iter().filter(|e| e.1 != 0).collect() }
fn contour_of<S: Src>(s: &mut S, p: &[IntPoint]) -> Net {
    let mut net = Net::new();
    for i in 0..p.len() { steps(&mut net, p[i], p[(i + 1) % p.len()], 1); }
    let _ = s;
    clean(net)
}
fn points<S: Src>(s: &mut S) -> Vec<IntPoint> {
    let n = s.usize_in(0, 9);
    let m = [1, 2, 3, 6][s.usize_in(0, 3)];
    let (ox, oy) = if s.one_in(4) { (s.i32_in(-(1 << 29), 1 << 29), s.i32_in(-(1 << 29), 1 << 29)) } else { (0, 0) };
    let k = if s.one_in(3) { 1 << s.i32_in(0, 6) } else { 1 };
    let mut p: Vec<IntPoint> = (0..n).map(|_| IntPoint::new(ox + k * s.i32_in(-m, m), oy + k * s.i32_in(-m, m))).collect();
    // walks with repeats, spikes and an explicitly closed end
    if n > 0 && s.one_in(3) { let q = p[0]; p.push(q); }
    if n > 1 && s.one_in(4) { let i = s.usize_in(0, n - 1); let q = p[i]; p.insert(i, q); }
    p
}
fn run<S: Src, C: WindingCount + PartialEq + std::fmt::Debug>(s: &mut S, unit: fn(&C, ShapeType) -> Option<i64>) {
    let shape = if s.bool() { ShapeType::Subject } else { ShapeType::Clip };
    let p = points(s);
    s.note("contour", &p);
    s.note("shape", &shape);
    let (d, i) = C::with_shape_type(shape);
    let keep = vec![Segment { x_segment: XSegment { a: IntPoint::new(-5, -7), b: IntPoint::new(9, 9) }, count: d }, Segment { x_segment: XSegment { a: IntPoint::new(0, 1), b: IntPoint::new(0, 2) }, count: i }];
    let mut v = if s.bool() { keep.clone() } else { vec![] };
    let old = v.clone();
    v.append_path_iter(p.iter().copied(), shape);
    s.note("segments", &v);
    vp_check!(v.len() >= old.len() && (0..old.len()).all(|i| v[i] == old[i]), "segments already there stay as they were");
    let mut net = Net::new();
    for e in &v[old.len()..] {
        vp_check!((e.x_segment.a.x, e.x_segment.a.y) < (e.x_segment.b.x, e.x_segment.b.y), "a segment runs from its smaller to its greater end and is not a point");
        let k = unit(&e.count, shape);
        vp_check!(k.is_some(), "a segment of a contour counts one forward or one backward for its own shape");
        steps(&mut net, e.x_segment.a, e.x_segment.b, k.unwrap());
    }
    let want = contour_of(s, &p);
    vp_check!(clean(net) == want, "the segments carry the windings of the contour: nothing lost, nothing added");
}
//@ body contour_boolean weight=3
pub fn contour_boolean<S: Src>(s: &mut S) {
    run::<S, ShapeCountBoolean>(s, |c, t| {
        let (own, other) = if t == ShapeType::Subject { (c.subj, c.clip) } else { (c.clip, c.subj) };
        if other == 0 && (own == 1 || own == -1) { Some(own as i64) } else { None }
    });
}
//@ body contour_string weight=2
pub fn contour_string<S: Src>(s: &mut S) {
    run::<S, ShapeCountString>(s, |c, t| {
        if t == ShapeType::Subject { if c.clip == 0 && (c.subj == 1 || c.subj == -1) { Some(c.subj as i64) } else { None } }
        else if c.subj != 0 { None }
        // a polyline edge carries one of the two direction bits
        else { match c.clip { 0b10 => Some(1), 0b01 => Some(-1), _ => None } }
    });
}
