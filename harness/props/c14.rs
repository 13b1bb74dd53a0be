//@ append split/snap_radius.rs
use crate::core::solver::{Precision, Solver, Strategy};
fn solver(start: usize, progression: usize) -> Solver { Solver { strategy: Strategy::List, precision: Precision { start, progression }, multithreading: None } }
fn want(start: u128, step: u128, n: u128) -> i64 {
    let e = start + step * n;
    if e >= 60 { 1 << 60 } else { 1 << e }
}
//@ body radius_passes weight=1 kani
pub fn radius_passes<S: Src>(s: &mut S) {
    let (start, step) = (s.usize(), s.usize());
    s.note("start", &start);
    s.note("step", &step);
    let mut r = SplitSolver::new(solver(start, step)).snap_radius();
    vp_check!(r.radius() == want(start as u128, step as u128, 0), "the first radius is two to the starting value, at most 2^60");
    r.increment();
    vp_check!(r.radius() == want(start as u128, step as u128, 1), "a pass adds the step to the exponent, up to 60");
    r.increment();
    vp_check!(r.radius() == want(start as u128, step as u128, 2), "each pass adds the step to the exponent, up to 60");
}
//@ body radius_many weight=1
pub fn radius_many<S: Src>(s: &mut S) {
    let start = if s.one_in(4) { s.usize() } else { s.usize_in(0, 130) };
    let step = if s.one_in(4) { s.usize() } else { s.usize_in(0, 70) };
    s.note("start", &start);
    s.note("step", &step);
    let mut r = SplitSolver::new(solver(start, step)).snap_radius();
    for n in 0..130u128 {
        vp_check!(r.radius() == want(start as u128, step as u128, n), "after n passes the exponent is start + n * step, up to 60");
        r.increment();
    }
}
//@ body any_precision weight=2
pub fn any_precision<S: Src>(s: &mut S) {
    use crate::geom::x_segment::XSegment;
    use crate::segm::segment::Segment;
    use crate::segm::winding_count::ShapeCountBoolean;
    use crate::split::solver::SplitSegments;
    use i_float::int::point::IntPoint;
    let start = if s.one_in(4) { s.usize() } else { s.usize_in(0, 70) };
    let step = if s.one_in(4) { s.usize() } else { s.usize_in(0, 40) };
    let m = [6, 1000, 0x1fff_ffff][s.usize_in(0, 2)];
    let mut v: Vec<Segment<ShapeCountBoolean>> = vec![];
    for _ in 0..s.usize_in(2, 9) {
        let (a, b) = (IntPoint::new(s.i32_in(-m, m), s.i32_in(-m, m)), IntPoint::new(s.i32_in(-m, m), s.i32_in(-m, m)));
        if a == b { continue; }
        v.push(Segment { x_segment: if a < b { XSegment { a, b } } else { XSegment { a: b, b: a } }, count: ShapeCountBoolean { subj: 1, clip: 0 } });
    }
    if v.is_empty() { return; }
    s.note("start", &start);
    s.note("step", &step);
    s.note("edges", &v.iter().map(|e| e.x_segment).collect::<Vec<_>>());
    // step 0 keeps the radius; the engine only promises to finish when it can grow
    let step = step.max(1);
    let run = |strategy: Strategy| {
        let mut sv = solver(start, step);
        sv.strategy = strategy;
        v.clone().split_segments(sv).iter().map(|e| (e.x_segment, e.count.subj)).collect::<Vec<_>>()
    };
    let (list, tree, frag) = (run(Strategy::List), run(Strategy::Tree), run(Strategy::Frag));
    s.note("list", &list);
    s.note("fragments", &frag);
    vp_check!(list == tree && list == frag, "every strategy works with every precision and splits at the same points");
}
