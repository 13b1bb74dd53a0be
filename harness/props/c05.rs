//@ append segm/merge.rs
use std::collections::BTreeMap;
use i_float::int::point::IntPoint;
use crate::geom::x_segment::XSegment;
use crate::segm::winding_count::{ShapeCountBoolean, ShapeCountString};
use crate::mesh::boolean::OffsetCountBoolean;
type Key = (i32, i32, i32, i32);
fn key(x: &XSegment) -> Key { (x.a.x, x.a.y, x.b.x, x.b.y) }
fn run<S: Src, C: WindingCount + PartialEq + std::fmt::Debug>(s: &mut S, make: fn(&mut S) -> C, comb: fn(&C, &C) -> C, none: fn(&C) -> bool) {
    let n = s.usize_in(0, 14);
    let m = [1, 2, 5][s.usize_in(0, 2)];
    let mut v: Vec<Segment<C>> = vec![];
    for _ in 0..n {
        if !v.is_empty() && s.bool() {
            // an edge again, often with the inverse count
            let e = v[s.usize_in(0, v.len() - 1)];
            let c = if s.bool() { e.count.invert() } else { make(s) };
            v.push(Segment { x_segment: e.x_segment, count: c });
            continue;
        }
        let (a, b) = (IntPoint::new(s.i32_in(-m, m), s.i32_in(-m, m)), IntPoint::new(s.i32_in(-m, m), s.i32_in(-m, m)));
        if a == b { continue; }
        let c = make(s);
        let (a, b) = if (a.x, a.y) < (b.x, b.y) { (a, b) } else { (b, a) };
        v.push(Segment { x_segment: XSegment { a, b }, count: c });
    }
    v.retain(|e| !none(&e.count));
    v.sort_by_key(|e| key(&e.x_segment));
    s.note("segments", &v);
    let mut want: BTreeMap<Key, C> = BTreeMap::new();
    for e in &v {
        let k = key(&e.x_segment);
        let c = match want.get(&k) { Some(c) => comb(c, &e.count), None => e.count };
        want.insert(k, c);
    }
    want.retain(|_, c| !none(c));
    v.merge_if_needed();
    s.note("merged", &v);
    let got: Vec<(Key, C)> = v.iter().map(|e| (key(&e.x_segment), e.count)).collect();
    vp_check!(got.windows(2).all(|w| w[0].0 < w[1].0), "merged edges are strictly ordered: every edge once");
    vp_check!(got.iter().all(|e| !none(&e.1)), "no merged edge is empty");
    vp_check!(got == want.into_iter().collect::<Vec<_>>(), "every edge carries all the counts it had, and only cancelled edges are gone");
}
//@ body merge_boolean weight=2
pub fn merge_boolean<S: Src>(s: &mut S) {
    run::<S, ShapeCountBoolean>(s, |s| ShapeCountBoolean { subj: s.i32_in(-2, 2), clip: s.i32_in(-2, 2) },
        |a, b| ShapeCountBoolean { subj: a.subj + b.subj, clip: a.clip + b.clip }, |a| a.subj == 0 && a.clip == 0);
}
//@ body merge_string weight=1
pub fn merge_string<S: Src>(s: &mut S) {
    run::<S, ShapeCountString>(s, |s| ShapeCountString { subj: s.i32_in(-2, 2), clip: s.i32_in(0, 3) as u8 },
        |a, b| ShapeCountString { subj: a.subj + b.subj, clip: a.clip | b.clip }, |a| a.subj == 0 && a.clip == 0);
}
//@ body merge_offset weight=1
pub fn merge_offset<S: Src>(s: &mut S) {
    run::<S, OffsetCountBoolean>(s, |s| OffsetCountBoolean { subj: s.i32_in(-2, 2), bold: s.bool() },
        |a, b| OffsetCountBoolean { subj: a.subj + b.subj, bold: a.bold || b.bold }, |a| a.subj == 0);
}
