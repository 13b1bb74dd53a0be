//@ append split/cross_solver.rs
pub(crate) const M30: i32 = 0x3fff_ffff;
fn area(p: IntPoint, q: IntPoint, r: IntPoint) -> i128 {
    // p, q, r clockwise positive
    let (ax, ay) = (q.x as i128 - p.x as i128, q.y as i128 - p.y as i128);
    ax * (q.y as i128 - r.y as i128) - ay * (q.x as i128 - r.x as i128)
}
fn lt(a: IntPoint, b: IntPoint) -> bool { (a.x, a.y) < (b.x, b.y) }
fn inside(p: IntPoint, s: &XSegment) -> bool { area(s.a, s.b, p) == 0 && lt(s.a, p) && lt(p, s.b) }
fn opp(a: i128, b: i128) -> bool { a.signum() * b.signum() < 0 }
fn proper(t: &XSegment, o: &XSegment) -> bool {
    opp(area(t.a, t.b, o.a), area(t.a, t.b, o.b)) && opp(area(o.a, o.b, t.a), area(o.a, o.b, t.b))
}
fn collinear4(t: &XSegment, o: &XSegment) -> bool {
    area(t.a, t.b, o.a) == 0 && area(t.a, t.b, o.b) == 0 && area(o.a, o.b, t.a) == 0 && area(o.a, o.b, t.b) == 0
}
// error of p against the exact crossing of the lines, times den
fn errs(p: IntPoint, t: &XSegment, o: &XSegment) -> (i128, i128, i128) {
    let c = |p: IntPoint| (p.x as i128, p.y as i128);
    let ((ax, ay), (bx, by), (cx, cy), (dx, dy)) = (c(t.a), c(t.b), c(o.a), c(o.b));
    let num = (cx - ax) * (dy - ay) - (cy - ay) * (dx - ax);
    let den = (by - ay) * (cx - dx) - (bx - ax) * (cy - dy);
    ((p.x as i128 - ax) * den - (bx - ax) * num, (p.y as i128 - ay) * den - (by - ay) * num, den)
}
fn near(p: IntPoint, t: &XSegment, o: &XSegment) -> bool {
    let (ex, ey, d) = errs(p, t, o);
    ex.abs() < d.abs() && ey.abs() < d.abs()
}
fn dist(p: IntPoint, t: &XSegment, o: &XSegment) -> f64 {
    let (ex, ey, d) = errs(p, t, o);
    (ex as f64 / d as f64).hypot(ey as f64 / d as f64)
}
fn in_box(p: IntPoint, s: &XSegment) -> bool {
    s.a.x.min(s.b.x) <= p.x && p.x <= s.a.x.max(s.b.x) && s.a.y.min(s.b.y) <= p.y && p.y <= s.a.y.max(s.b.y)
}
fn pt<S: Src>(s: &mut S, m: i32) -> IntPoint { IntPoint { x: s.i32_in(-m, m), y: s.i32_in(-m, m) } }
fn seg<S: Src>(s: &mut S, a: IntPoint, b: IntPoint) -> XSegment {
    s.assume(a != b);
    if lt(a, b) { XSegment { a, b } } else { XSegment { a: b, b: a } }
}
fn clampp(x: i64, y: i64) -> IntPoint { IntPoint { x: x.clamp(-(M30 as i64), M30 as i64) as i32, y: y.clamp(-(M30 as i64), M30 as i64) as i32 } }
// segments from tiny grids (degenerate positions), the whole range, nearly parallel and short ones
pub(crate) fn pair<S: Src>(s: &mut S) -> (XSegment, XSegment) {
    let k = s.usize_in(0, 7);
    let (t, o) = match k {
        0 | 1 => { let m = s.i32_in(1, 4); (pt(s, m), pt(s, m)) }
        2 => { let m = s.i32_in(2, 60); (pt(s, m), pt(s, m)) }
        3 => { let m = s.i32_in(1000, 2_000_000); (pt(s, m), pt(s, m)) }
        _ => (pt(s, M30), pt(s, M30)),
    };
    let t = seg(s, t, o);
    let o = match k {
        0 | 1 => { let m = s.i32_in(1, 4); (pt(s, m), pt(s, m)) }
        2 => { let m = s.i32_in(2, 60); (pt(s, m), pt(s, m)) }
        3 => { let m = s.i32_in(1000, 2_000_000); (pt(s, m), pt(s, m)) }
        4 => (pt(s, M30), pt(s, M30)),
        5 => { // crosses near an end of t
            let e = s.i32_in(1, 50);
            let (p, q) = (pt(s, e), pt(s, e));
            let w = if s.bool() { t.a } else { t.b };
            (clampp(w.x as i64 + p.x as i64, w.y as i64 + p.y as i64), clampp(w.x as i64 + q.x as i64, w.y as i64 + q.y as i64))
        }
        6 => { // nearly parallel
            let e = s.i32_in(1, 9);
            let (p, q) = (pt(s, e), pt(s, e));
            (clampp(t.a.x as i64 + p.x as i64, t.a.y as i64 + p.y as i64), clampp(t.b.x as i64 + q.x as i64, t.b.y as i64 + q.y as i64))
        }
        _ => { // across the middle, any size
            let p = pt(s, M30);
            let n = s.i32_in(0, 31) as i64;
            let (mx, my) = ((t.a.x as i64 + t.b.x as i64) / 2, (t.a.y as i64 + t.b.y as i64) / 2);
            let (hx, hy) = ((p.x as i64) >> n, (p.y as i64) >> n);
            (clampp(mx - hx, my - hy), clampp(mx + hx, my + hy))
        }
    };
    let o = seg(s, o.0, o.1);
    let sw = s.bool();
    if sw { (o, t) } else { (t, o) }
}
//@ body crossing_classified weight=3
pub fn crossing_classified<S: Src>(s: &mut S) {
    let (t, o) = pair(s);
    let e = s.usize_in(0, 12) as u32;
    let r = (1i64 << e) + if s.bool() { 0 } else { s.usize_in(0, 3) as i64 };
    s.note("target", &t); s.note("other", &o); s.note("radius", &r);
    let res = CrossSolver::cross(&t, &o, r);
    let col = collinear4(&t, &o);
    let touch = !col && (inside(o.a, &t) || inside(o.b, &t) || inside(t.a, &o) || inside(t.b, &o));
    let prop = proper(&t, &o);
    let c = match res {
        None => { vp_check!(!col && !touch && !prop, "segments that cross, touch or are collinear are reported"); return; }
        Some(c) => c,
    };
    vp_check!(col || touch || prop, "segments that only share ends or do not meet are not reported");
    let p = c.point;
    let ends = [(t.a, 0), (t.b, 0), (o.a, 1), (o.b, 1)];
    match c.cross_type {
        CrossType::Overlay => { vp_check!(col, "an overlay is reported for collinear segments only"); }
        CrossType::Pure => {
            vp_check!(prop, "a pure crossing is interior to both segments");
            vp_check!(near(p, &t, &o), "the crossing point is less than a unit from the exact crossing");
            vp_check!(in_box(p, &t) && in_box(p, &o), "the crossing point is inside the boxes of both segments");
            let on = area(t.a, p, t.b) == 0 && area(o.a, p, o.b) == 0;
            vp_check!(c.is_round != on, "a crossing is marked as rounded exactly when it is not on both lines");
            if c.is_round {
                for (e, _) in ends {
                    vp_check!(dist(e, &t, &o) > (r as f64).sqrt() - 1.5, "an end within the snap radius of the crossing takes it over");
                }
            }
        }
        CrossType::TargetEnd | CrossType::OtherEnd => {
            let own = if matches!(c.cross_type, CrossType::TargetEnd) { 0 } else { 1 };
            vp_check!(ends.iter().any(|&(e, k)| e == p && k == own), "an end crossing is at an end of the named segment");
            if c.is_round {
                vp_check!(prop, "only a proper crossing is snapped");
                let d = dist(p, &t, &o);
                vp_check!(d < (r as f64).sqrt() + 1.5, "a crossing is snapped within the radius only");
                for (e, _) in ends {
                    vp_check!(dist(e, &t, &o) > d - 3.0, "a crossing is snapped to the nearest end");
                }
                let other = if own == 0 { &o } else { &t };
                vp_check!(area(other.a, p, other.b) != 0, "a snapped end is off the other segment");
            } else {
                vp_check!(!col && inside(p, if own == 0 { &o } else { &t }), "an exact end crossing is interior to the other segment");
            }
        }
    }
}
//@ body collinear_mask
pub fn collinear_mask<S: Src>(s: &mut S) {
    let m = if s.bool() { 5 } else { 1000 };
    let e = if s.bool() { 3 } else { 200_000 };
    let d = pt(s, e);
    s.assume(d.x != 0 || d.y != 0);
    let b = pt(s, 1000);
    let mut q = [b; 4];
    for e in q.iter_mut() { let k = s.i32_in(-m, m); e.x += k * d.x; e.y += k * d.y; }
    let t = seg(s, q[0], q[1]);
    let o = seg(s, q[2], q[3]);
    s.note("target", &t); s.note("other", &o);
    let r = CrossSolver::collinear(&t, &o);
    vp_check!(r.is_target_a() == inside(t.a, &o), "the start of the target is marked exactly when it is inside the other");
    vp_check!(r.is_target_b() == inside(t.b, &o), "the end of the target is marked exactly when it is inside the other");
    vp_check!(r.is_other_a() == inside(o.a, &t), "the start of the other is marked exactly when it is inside the target");
    vp_check!(r.is_other_b() == inside(o.b, &t), "the end of the other is marked exactly when it is inside the target");
    vp_check!((r == 0) == !(inside(t.a, &o) || inside(t.b, &o) || inside(o.a, &t) || inside(o.b, &t)), "the mask is empty exactly when no end is inside");
}
//@ body end_mask_bits kani
pub fn end_mask_bits<S: Src>(s: &mut S) {
    let (a, b, c, d) = (s.bool(), s.bool(), s.bool(), s.bool());
    s.note("bits", &(a, b, c, d));
    let m = CollinearMask::new(a, b, c, d);
    vp_check!(m.is_target_a() == a && m.is_target_b() == b && m.is_other_a() == c && m.is_other_b() == d, "a mask answers what it was made of");
}
//@ body std_contracts kani nonative
pub fn std_contracts<S: Src>(s: &mut S) {
    let a = s.i64();
    let g = a.signum();
    vp_check!(g == if a > 0 { 1 } else if a < 0 { -1 } else { 0 }, "i64::signum as assumed");
    vp_check!(a.unsigned_abs() as i128 == if a >= 0 { a as i128 } else { -(a as i128) }, "i64::unsigned_abs as assumed");
    let (x, y) = (s.u64(), s.u64());
    let (r, c) = x.overflowing_add(y);
    let t = x as u128 + y as u128;
    vp_check!(c == (t > u64::MAX as u128) && r as u128 == if c { t - (1u128 << 64) } else { t }, "u64::overflowing_add as assumed");
}
