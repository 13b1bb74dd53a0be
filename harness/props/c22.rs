//@ append mesh/stroke/offset.rs
use i_float::int::point::IntPoint;
use crate::mesh::boolean::OffsetCountBoolean;
use crate::segm::segment::Segment;
use crate::vp_lib::*;
fn check_stroke<S: Src, T: FloatNumber + 'static>(s: &mut S, paths: &[Vec<P>], closed: bool, width: f64, join: &Join, c0: &Cap, c1: &Cap, d: ContourDirection, eps: f64, form: usize) where [T; 2]: FloatPointCompatible<T> + 'static {
    let f: Vec<Vec<[T; 2]>> = paths.iter().map(|c| c.iter().map(|p| [T::from_float(p[0]), T::from_float(p[1])]).collect()).collect();
    let style = || { let mut st = StrokeStyle::<[T; 2], T>::new(T::from_float(width)).line_join(join.style()).start_cap(c0.style()); st.end_cap = c1.style(); st };
    let r = 0.5 * width.max(0.0);
    let shapes: Vec<Vec<Vec<[T; 2]>>> = if d == ContourDirection::CounterClockwise && f.len() == 1 && form == 0 { f[0].stroke(style(), closed) }
        else if form == 1 { vec![f.clone()].stroke_custom(style(), closed, d, Default::default()) } else { f.stroke_custom(style(), closed, d, Default::default()) };
    let mut band = Band { full: vec![], reach: vec![] };
    let mut long = true;
    for p in paths.iter() { long &= stroke_of(p, closed, r, join, c0, c1, &mut band) }
    if !long { band.full.clear() }
    if r == 0.0 || band.reach.is_empty() { vp_check!(shapes.is_empty(), "a stroke of no width or of no path is empty"); return }
    let total: f64 = shapes.iter().flatten().map(|c| area(&doubles(c)).abs()).fold(0.0, f64::max);
    if form == 2 && total > 0.0 {
        // small contours are left out, the others stay
        let min = total * [0.01, 0.3, 0.8][(width * 2.0) as usize % 3];
        let some = f.stroke_custom(style(), closed, d, ContourFilter { min_area: T::from_float(min), simplify_contour: true, clean_result: true });
        vp_check!(some.iter().flatten().all(|c| area(&doubles(c)).abs() > min * 0.999), "no contour of a stroke is smaller than asked for");
        let kept = shapes.iter().filter(|q| area(&doubles(&q[0])).abs() > min * 1.001).count();
        let cut = shapes.iter().filter(|q| area(&doubles(&q[0])).abs() > min * 0.999).count();
        vp_check!(kept <= some.len() && some.len() <= cut, "no shape of a stroke is left out unless it is small");
    }
    let one = if d == ContourDirection::CounterClockwise { 1 } else { -1 };
    let e = eps * (1.0 + r);
    for p in probes(&band, (width * 1000.0) as u64 + paths.len() as u64, e) {
        if band.full.iter().any(|q| inside(p, q, e)) { let ok = shapes_at(&shapes, p) == one; if !ok { s.note("point", &p) } vp_check!(ok, "a stroke covers what lies beside its path"); }
        else if band.reach.iter().all(|q| outside(p, q, e)) { let ok = shapes_at(&shapes, p) == 0; if !ok { s.note("point", &p) } vp_check!(ok, "a stroke covers nothing beyond its sides, joins and caps"); }
    }
}

//@ body strokes weight=4
pub fn strokes<S: Src>(s: &mut S) {
    let paths: Vec<Vec<P>> = (0..s.usize_in(0, 2)).map(|_| grid_path(s, 6)).collect();
    let (closed, width) = (s.bool(), [0.02, 0.5, 1.0, 2.0, 3.5, 8.0, 0.0, -1.0][s.usize_in(0, 7)]);
    let (join, c0, c1) = (Join::any(s), Cap::any(s), Cap::any(s));
    let d = if s.bool() { ContourDirection::CounterClockwise } else { ContourDirection::Clockwise };
    let (single, form) = (s.bool(), s.usize_in(0, 2));
    s.note("paths, closed, width", &(&paths, closed, width));
    s.note("join, start cap, end cap", &(&join, &c0, &c1));
    s.note("direction, f32, form", &(d, single, form));
    if single { check_stroke::<S, f32>(s, &paths, closed, width, &join, &c0, &c1, d, 1e-3, form) } else { check_stroke::<S, f64>(s, &paths, closed, width, &join, &c0, &c1, d, 1e-4, form) }
}

// any points, however close, and any radius down to nothing: the edges alone
//@ body stroke_edges weight=4
pub fn stroke_edges<S: Src>(s: &mut S) {
    let mut path = grid_path(s, 6);
    let tiny = [0.0, 1e-9, 3e-8, 1e-6, 1e-3][s.usize_in(0, 4)];
    for p in path.iter_mut() { p[0] += tiny * s.i32_in(-3, 3) as f64; p[1] += tiny * s.i32_in(-3, 3) as f64 }
    let (closed, width) = (s.bool(), [1e-8, 1e-7, 3e-7, 1e-6, 0.001, 0.5, 2.0, 40.0][s.usize_in(0, 7)]);
    let (join, c0, c1) = (Join::any(s), Cap::any(s), Cap::any(s));
    s.note("path, closed, width", &(&path, closed, width));
    s.note("join, start cap, end cap", &(&join, &c0, &c1));
    let mut style = StrokeStyle::<P, f64>::new(width).line_join(join.style());
    style.start_cap = c0.style(); style.end_cap = c1.style();
    let b = StrokeBuilder::new(style);
    let mut rect = FloatRect::with_iter(path.iter()).unwrap_or(FloatRect::zero());
    rect.add_offset(b.additional_offset(0.5 * width));
    let adapter = FloatPointAdapter::new(rect);
    let _ = b.capacity(1, path.len(), closed);
    let mut e: Vec<Segment<OffsetCountBoolean>> = vec![];
    b.build(&path, closed, &adapter, &mut e);
    balanced(&e);
    let ints: std::collections::BTreeSet<(i32, i32)> = path.iter().map(|p| { let q: IntPoint = adapter.float_to_int(p); (q.x, q.y) }).collect();
    if ints.len() < 2 { vp_check!(e.is_empty(), "a path of one point has no stroke"); }
}

