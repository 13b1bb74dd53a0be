//@ append mesh/outline/offset.rs
use crate::mesh::boolean::OffsetCountBoolean;
use crate::segm::segment::Segment;
use crate::vp_lib::*;
//@ body outlines weight=4
pub fn outlines<S: Src>(s: &mut S) {
    let join = Join::any(s);
    let (d0, d1) = (s.i32_in(-6, 12) as f64 * 0.25, s.i32_in(-4, 4) as f64 * 0.25);
    let mut want = vec![];
    let mut shapes: Vec<Vec<Vec<P>>> = vec![];
    for i in 0..s.usize_in(1, 3) {
        let (x, y) = if i == 0 { (0.0, 0.0) } else { (s.i32_in(-40, 40) as f64, s.i32_in(-40, 40) as f64) };
        let outer = star(s, x, y, 14, 30);
        let mut shape = vec![outer.clone()];
        want.push((1, Shift::new(&outer, d0, &join)));
        if s.bool() {
            let mut h = star(s, x, y, 3, 6);
            want.push((-1, Shift::new(&h, -d1, &join)));
            h.reverse();
            shape.push(h);
        }
        if s.bool() { for c in shape.iter_mut() { let p = c[0]; c.insert(0, p); } }
        shapes.push(shape);
    }
    let d = if s.bool() { ContourDirection::CounterClockwise } else { ContourDirection::Clockwise };
    s.note("shapes", &shapes);
    s.note("outer, inner, join, direction", &(d0, d1, &join, d));
    let style = || OutlineStyle::new(d0).inner_offset(d1).line_join(join.style());
    let r: Vec<Vec<Vec<P>>> = if want.len() == 1 && d == ContourDirection::CounterClockwise { shapes[0][0].outline(style()) } else { shapes.outline_custom(style(), d, Default::default()) };
    let one = if d == ContourDirection::CounterClockwise { 1 } else { -1 };
    let e = 1e-4 * (1.0 + d0.abs());
    let mut ps = vec![[0.0, 0.0]];
    for (i, (_, w)) in want.iter().enumerate() { ps.extend(probes(&w.band, i as u64 + d0.to_bits(), e)) }
    // where the sides of one contour are too short for its band, the bands of all may cancel each other
    let long = want.iter().all(|w| w.1.long);
    for p in ps {
        let mut sum = Some(0);
        for (k, w) in want.iter() { sum = match (sum, w.at(p, e)) { (Some(n), Some(m)) => Some(n + k * m), _ => None } }
        if let Some(n) = sum {
            if n > 0 && !long { continue }
            let ok = shapes_at(&r, p) == if n > 0 { one } else { 0 };
            if !ok { s.note("point", &p) }
            if n > 0 { vp_check!(ok, "an outline covers its shapes and a band round them"); }
            else { vp_check!(ok, "an outline covers nothing beyond its joins, and no hole but for a band"); }
        }
    }
}

// any contour, however close its points, and any offset: the edges alone
//@ body outline_edges weight=4
pub fn outline_edges<S: Src>(s: &mut S) {
    let mut path = grid_path(s, 6);
    let tiny = [0.0, 1e-9, 3e-8, 1e-6, 1e-3][s.usize_in(0, 4)];
    for p in path.iter_mut() { p[0] += tiny * s.i32_in(-3, 3) as f64; p[1] += tiny * s.i32_in(-3, 3) as f64 }
    let d = [0.0, 1e-8, 1e-7, -3e-7, 1e-6, -0.001, 0.5, -2.0, 40.0][s.usize_in(0, 8)];
    let join = Join::any(s);
    s.note("path, offset, join", &(&path, d, &join));
    let b = OutlineBuilder::<P, f64>::new(d, &join.style::<f64>().normalize());
    let mut rect = FloatRect::with_iter(path.iter()).unwrap_or(FloatRect::zero());
    rect.add_offset(b.additional_offset(d).abs());
    let adapter = FloatPointAdapter::new(rect);
    let _ = b.capacity(path.len());
    let mut e: Vec<Segment<OffsetCountBoolean>> = vec![];
    b.build(&path, &adapter, &mut e);
    balanced(&e);
    let ints: std::collections::BTreeSet<(i32, i32)> = path.iter().map(|p| { let q = adapter.float_to_int(p); (q.x, q.y) }).collect();
    if ints.len() < 2 { vp_check!(e.is_empty(), "a contour of one point has no outline"); }
}

// any shapes at all have an outline, some of them an empty one
//@ body outline_any
pub fn outline_any<S: Src>(s: &mut S) {
    let shape: Vec<Vec<P>> = (0..s.usize_in(0, 3)).map(|_| grid_path(s, 5)).collect();
    let (d0, d1) = (s.i32_in(-8, 8) as f64 * 0.5, s.i32_in(-8, 8) as f64 * 0.5);
    let join = Join::any(s);
    s.note("shape", &shape);
    s.note("outer, inner, join", &(d0, d1, &join));
    let style = || OutlineStyle::new(d0).inner_offset(d1).line_join(join.style());
    let r: Vec<Vec<Vec<P>>> = shape.outline(style());
    let empty = shape.iter().all(|c| plain(c, true).len() < 3);
    if empty { vp_check!(r.is_empty(), "contours of fewer than three points have no outline"); }
    // two contours that do not meet: the outline is that of each
}
