//@ append split/cross_solver.rs
fn lt(a: IntPoint, b: IntPoint) -> bool { (a.x, a.y) < (b.x, b.y) }
const M30: i32 = 0x3fff_ffff;
fn pt<S: Src>(s: &mut S, m: i32) -> IntPoint { IntPoint { x: s.i32_in(-m, m), y: s.i32_in(-m, m) } }
fn seg<S: Src>(s: &mut S, a: IntPoint, b: IntPoint) -> XSegment {
    s.assume(a != b);
    if lt(a, b) { XSegment { a, b } } else { XSegment { a: b, b: a } }
}
fn mid(a: i32, b: i32, k: i64, n: i64) -> i64 { (a as i64 * (n - k) + b as i64 * k) / n }
//@ body cross_point_accuracy weight=3
pub fn cross_point_accuracy<S: Src>(s: &mut S) {
    let m = match s.usize_in(0, 4) { 0 => 9, 1 => 500, 2 => 1_000_000, _ => M30 };
    let (a, b) = (pt(s, m), pt(s, m));
    let t = seg(s, a, b);
    // the other goes through a place of t
    let n = s.i32_in(2, 1000) as i64;
    let k = s.i32_in(0, 1000) as i64 % n;
    let h = pt(s, m);
    let j = s.i32_in(0, 30) as i64;
    let (cx, cy) = (mid(t.a.x, t.b.x, k, n), mid(t.a.y, t.b.y, k, n));
    let f = |x: i64| x.clamp(-(M30 as i64), M30 as i64) as i32;
    let o = seg(s, IntPoint { x: f(cx - (h.x as i64 >> j)), y: f(cy - (h.y as i64 >> j)) }, IntPoint { x: f(cx + h.x as i64), y: f(cy + h.y as i64) });
    let (t, o) = if s.bool() { (t, o) } else { (o, t) };
    s.note("target", &t); s.note("other", &o);
    let c = |p: IntPoint| (p.x as i128, p.y as i128);
    let ((ax, ay), (bx, by), (ox, oy), (dx, dy)) = (c(t.a), c(t.b), c(o.a), c(o.b));
    let cr = |ux: i128, uy: i128, vx: i128, vy: i128| (ux * vy - uy * vx).signum();
    let s1 = cr(bx - ax, by - ay, ox - ax, oy - ay) * cr(bx - ax, by - ay, dx - ax, dy - ay);
    let s2 = cr(dx - ox, dy - oy, ax - ox, ay - oy) * cr(dx - ox, dy - oy, bx - ox, by - oy);
    s.assume(s1 < 0 && s2 < 0);
    let p = CrossSolver::cross_point(&t, &o);
    s.note("result", &p);
    let num = (ox - ax) * (dy - ay) - (oy - ay) * (dx - ax);
    let den = (by - ay) * (ox - dx) - (bx - ax) * (oy - dy);
    let ex = ((p.x as i128 - ax) * den - (bx - ax) * num).abs();
    let ey = ((p.y as i128 - ay) * den - (by - ay) * num).abs();
    vp_check!(ex < den.abs() && ey < den.abs(), "the crossing point is less than a unit from the exact crossing in each coordinate");
    let bx_ok = |q: XSegment| q.a.x.min(q.b.x) <= p.x && p.x <= q.a.x.max(q.b.x) && q.a.y.min(q.b.y) <= p.y && p.y <= q.a.y.max(q.b.y);
    vp_check!(bx_ok(t) && bx_ok(o), "the crossing point stays in the boxes of both segments");
    // both segments oblique and the products small: nearest point
    if bx != ax && by != ay {
        let small = ((bx - ax) * num).abs() <= u64::MAX as i128 && ((by - ay) * num).abs() <= u64::MAX as i128;
        if small { vp_check!(2 * ex <= den.abs() && 2 * ey <= den.abs(), "the crossing of oblique segments whose products fit 64 bits is the nearest point"); }
    }
}
fn wide<S: Src>(s: &mut S) -> (u64, u64, u64) {
    let d = s.u64();
    let (q, r) = (s.u64(), s.u64());
    s.assume(d > 0);
    // quotient below 2^64
    let k = s.i32_in(0, 63) as u32;
    let v = (q >> k) as u128 * d as u128 + (r % d) as u128;
    ((v >> 64) as u64, v as u64, d)
}
//@ body division_accuracy weight=2
pub fn division_accuracy<S: Src>(s: &mut S) {
    let (h, l, d) = wide(s);
    // the callers' divisors are below 2^63 (a difference of two products of 31-bit numbers)
    s.assume(d < 1 << 63);
    let v = (h as u128) << 64 | l as u128;
    s.assume(v / (d as u128) < u64::MAX as u128);
    s.note("high", &h); s.note("low", &l); s.note("divisor", &d);
    let r = UInt128 { high: h, low: l }.divide_with_rounding(d);
    s.note("result", &r);
    let q = (v / d as u128) as u64;
    let rem = (v % d as u128) as u64;
    vp_check!(r == q || (r == q + 1 && rem > 0), "the quotient is less than one off");
    let nearest = if rem >= (d + 1) >> 1 { q + 1 } else { q };
    if h == 0 { vp_check!(r == nearest, "a dividend of 64 bits is divided to the nearest, halves up"); }
    else if r != nearest {
        vp_check!(r == q, "a wide quotient is the floor or the nearest");
        panic!("known: a wide dividend is truncated, not rounded");
    }
}
//@ body product_128 weight=1
pub fn product_128<S: Src>(s: &mut S) {
    let (a, b) = (s.u64(), s.u64());
    s.note("a", &a); s.note("b", &b);
    let r = UInt128::multiply(a, b);
    vp_check!((r.high as u128) << 64 | r.low as u128 == a as u128 * b as u128, "the 128 bit product is exact");
}
