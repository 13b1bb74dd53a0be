//@ append split/grid_layout.rs
use crate::geom::x_segment::XSegment;
use i_float::int::point::IntPoint;
fn lt(a: IntPoint, b: IntPoint) -> bool { (a.x, a.y) < (b.x, b.y) }
fn edges<S: Src>(s: &mut S) -> Vec<XSegment> {
    let m = [3, 9, 40, 700, 100_000, 0x3fff_fffe][s.usize_in(0, 5)];
    let (x0, w) = (s.i32_in(-m, m) / 2, if s.one_in(2) { m / 2 } else { s.i32_in(1, 4 + m / 4) });
    let n = s.usize_in(1, 12);
    let mut v = vec![];
    for _ in 0..n {
        let mut p = |s: &mut S| IntPoint::new(x0 + s.i32_in(-w, w), s.i32_in(-m, m));
        let (mut a, mut b) = (p(s), p(s));
        match s.usize_in(0, 7) { 0 => b.x = a.x, 1 => b.y = a.y, 2 => { a.x = x0; b.x = x0 }, 3 => { b.y = (a.y + s.i32_in(-2, 2)).clamp(-m, m) }, _ => {} }
        if a == b { continue; }
        v.push(if lt(a, b) { XSegment { a, b } } else { XSegment { a: b, b: a } });
    }
    v.sort_by(|a, b| (a.a.x, a.a.y, a.b.x, a.b.y).cmp(&(b.a.x, b.a.y, b.b.x, b.b.y)));
    v
}
fn floor(a: i128, b: i128) -> i128 { a.div_euclid(b) }
fn ceil(a: i128, b: i128) -> i128 { -(-a).div_euclid(b) }
// y of s at x, rounded down and up
fn heights(s: &XSegment, x: i128) -> (i128, i128) {
    let (w, h) = (s.b.x as i128 - s.a.x as i128, s.b.y as i128 - s.a.y as i128);
    let t = (x - s.a.x as i128) * h;
    (s.a.y as i128 + floor(t, w), s.a.y as i128 + ceil(t, w))
}
//@ body grid_layout weight=1
pub fn grid_layout<S: Src>(s: &mut S) {
    let m = [12, 700, 0x3fff_ffff][s.usize_in(0, 2)];
    let (p, q) = (s.i32_in(-m, m), s.i32_in(-m, m));
    let (lo, hi) = (p.min(q), p.max(q));
    let pw = s.usize_in(0, 14) as u32;
    s.note("min", &lo); s.note("max", &hi); s.note("max_power", &pw);
    let l = match GridLayout::with_min_max(lo, hi, pw) { Some(l) => l, None => { vp_check!(hi - lo < 4, "a layout is refused only for less than four units of width"); return; } };
    vp_check!(l.index(lo) == 0, "the first column starts at the left end");
    vp_check!((l.index(hi) as u64) < 2u64 << pw.max(l.power * 0), "there are at most twice two to the asked power columns");
    for _ in 0..6 {
        let x = if s.one_in(3) { hi } else { s.i32_in(lo, hi) };
        let c = l.index(x);
        let step = 1i64 << l.power;
        vp_check!(l.pos(c) as i64 <= x as i64 && (x as i64) < l.pos(c) as i64 + step, "a coordinate lies in the column the layout gives it");
        vp_check!(c == 0 || (l.pos(c) as i64 - l.pos(c - 1) as i64) == step, "columns follow each other without gaps");
    }
}
//@ body pieces weight=6
pub fn pieces<S: Src>(s: &mut S) {
    let v = edges(s);
    if v.is_empty() { return; }
    s.note("edges", &v);
    let lo = v.iter().map(|e| e.a.x).min().unwrap();
    let hi = v.iter().map(|e| e.b.x).max().unwrap();
    let pw = s.usize_in(0, 7) as u32;
    s.note("max_power", &pw);
    let layout = match GridLayout::with_min_max(lo, hi, pw) { Some(l) => l, None => return };
    let mut b = FragmentBuffer::new(layout);
    b.init_fragment_buffer(v.iter().copied());
    for (i, e) in v.iter().enumerate() { b.add_segment(i, *e); }
    let cols = b.groups.len();
    vp_check!(cols == b.layout.index(hi) + 1, "there is a column for every coordinate");
    // the columns as the edges see them
    let (x0, step) = (lo as i128, 1i128 << b.layout.power);
    let mut total = 0;
    for (i, e) in v.iter().enumerate() {
        let c0 = (e.a.x as i128 - x0) / step;
        let c1 = if e.a.x == e.b.x { c0 } else { (e.b.x as i128 - 1 - x0) / step };
        for c in 0..cols {
            let here: Vec<&Fragment> = b.groups[c].iter().filter(|f| f.index == i).collect();
            let want = (c0 <= c as i128 && c as i128 <= c1) as usize;
            vp_check!(here.len() == want, "an edge has one piece in each column it spans and none elsewhere");
            total += want;
            if want == 0 { continue; }
            let f = here[0];
            vp_check!(f.x_segment == *e, "a piece keeps its edge");
            let r = &f.rect;
            let (bx0, bx1) = (x0 + c as i128 * step, x0 + (c as i128 + 1) * step);
            vp_check!(r.min_x as i128 == bx0.max(e.a.x as i128) && r.max_x as i128 == bx1.min(e.b.x as i128), "a piece reaches from border to border or to the ends of the edge");
            let (y0, y1) = if e.a.x == e.b.x {
                (e.a.y.min(e.b.y) as i128, e.a.y.max(e.b.y) as i128)
            } else {
                let (p, q) = (heights(e, r.min_x as i128), heights(e, r.max_x as i128));
                (p.0.min(q.0), p.1.max(q.1))
            };
            vp_check!(r.min_y as i128 == y0 && r.max_y as i128 == y1, "the box of a piece is the tight integer box of that part of the edge");
        }
        let on: usize = b.on_border.values().map(|l| l.iter().filter(|v| v.id == i).count()).sum();
        let want = e.a.x == e.b.x && c0 > 0 && (e.a.x as i128 - x0) % step == 0;
        vp_check!(on == want as usize, "vertical edges along a border, and only they, are recorded for it");
        if want {
            vp_check!(b.on_border.get(&(c0 as usize)).map_or(false, |l| l.iter().any(|v| v.id == i && v.y_range.min == e.a.y.min(e.b.y) && v.y_range.max == e.a.y.max(e.b.y))),
                "a vertical edge along a border is recorded there with its y range");
        }
    }
    vp_check!(b.groups.iter().map(|g| g.len()).sum::<usize>() == total, "the columns hold nothing else");
    b.clear();
    vp_check!(b.groups.len() == cols && b.groups.iter().all(|g| g.is_empty()) && b.on_border.is_empty(), "clearing leaves the columns empty");
}
