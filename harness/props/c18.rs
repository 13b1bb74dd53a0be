//@ append string/split.rs
fn edges(l: &[IntPoint], m: &mut std::collections::BTreeMap<((i32, i32), (i32, i32)), i64>, k: i64) {
    for i in 0..l.len() {
        let (a, b) = (l[i], l[(i + 1) % l.len()]);
        let (a, b) = ((a.x, a.y), (b.x, b.y));
        if a == b { continue; }
        let (key, k) = if a < b { ((a, b), k) } else { ((b, a), -k) };
        let e = m.entry(key).or_insert(0);
        *e += k;
        if *e == 0 { m.remove(&key); }
    }
}
fn repeats(l: &[IntPoint]) -> bool { (0..l.len()).any(|i| l[..i].contains(&l[i])) }
fn twice_area(l: &[IntPoint]) -> i128 { (0..l.len()).map(|i| { let (a, b) = (l[i], l[(i + 1) % l.len()]); a.x as i128 * b.y as i128 - a.y as i128 * b.x as i128 }).sum::<i128>().abs() }
//@ body loops weight=3
pub fn loops<S: Src>(s: &mut S) {
    let k = s.usize_in(1, 8) as i32;
    let n = s.usize_in(0, 14);
    let big = s.one_in(4);
    let path: IntPath = (0..n).map(|_| { let i = s.i32_in(0, k); if big { IntPoint::new((i % 3) * 300_000_003 - 300_000_000, (i / 3) * 200_000_001) } else { IntPoint::new(i % 3, i / 3) } }).collect();
    s.note("path", &path);
    let all = path.clone().split_loops(0);
    s.note("loops", &all);
    vp_check!(all.iter().all(|c| c.len() > 2 && !repeats(c)), "a loop has three points or more and visits no point twice");
    let mut m = std::collections::BTreeMap::new();
    edges(&path, &mut m, 1);
    for c in all.iter() { edges(c, &mut m, -1); }
    vp_check!(m.is_empty(), "the loops have together the edges of the path, up to edges walked there and back");
    let min = if s.bool() || all.is_empty() { s.usize_in(0, 5) } else {
        let i = s.usize_in(0, all.len() - 1);
        ((twice_area(&all[i]) / 2) as usize).saturating_add(s.usize_in(0, 2)).saturating_sub(1)
    };
    s.note("min_area", &min);
    let kept = path.split_loops(min);
    s.note("kept", &kept);
    let want: Vec<IntPath> = all.into_iter().filter(|c| min == 0 || twice_area(c) / 2 >= min as i128).collect();
    vp_check!(kept == want, "exactly the loops of at least the minimum area are kept");
}
//@ append string/extract.rs
use crate::core::fill_rule::FillRule;
use crate::string::overlay::StringOverlay;
use i_float::int::point::IntPoint;
fn area2(l: &[IntPoint]) -> i128 { (0..l.len()).map(|i| { let (a, b) = (l[i], l[(i + 1) % l.len()]); a.x as i128 * b.y as i128 - a.y as i128 * b.x as i128 }).sum::<i128>() }
//@ body slice_strips weight=2
pub fn slice_strips<S: Src>(s: &mut S) {
    // a rectangle cut by vertical lines: the pieces are the strips
    let (w, h) = (s.i32_in(2, 40), s.i32_in(1, 20));
    let rect = vec![IntPoint::new(0, 0), IntPoint::new(w, 0), IntPoint::new(w, h), IntPoint::new(0, h)];
    let mut cuts: Vec<i32> = (0..s.usize_in(0, 4)).map(|_| s.i32_in(1, w - 1)).collect();
    let mut overlay = StringOverlay::with_shape_contour(&rect);
    for &x in cuts.iter() {
        let (a, b) = (s.i32_in(-3, 0), h + s.i32_in(0, 3));
        overlay.add_string_line([IntPoint::new(x, a), IntPoint::new(x, b)]);
    }
    let min = s.usize_in(0, (w * h) as usize);
    let cw = s.bool();
    s.note("rectangle", &(w, h)); s.note("cuts", &cuts); s.note("min_area", &min); s.note("clockwise", &cw);
    let dir = if cw { ContourDirection::Clockwise } else { ContourDirection::CounterClockwise };
    let r = overlay.into_graph(FillRule::NonZero).extract_shapes_custom(StringRule::Slice, dir, min);
    s.note("shapes", &r);
    cuts.push(0); cuts.push(w);
    cuts.sort(); cuts.dedup();
    let mut want: Vec<i128> = cuts.windows(2).map(|c| ((c[1] - c[0]) * h) as i128).filter(|&a| a >= min as i128).collect();
    want.sort();
    vp_check!(r.iter().all(|sh| sh.len() == 1 && (area2(&sh[0]) < 0) == cw), "every piece is one contour in the asked direction");
    let mut got: Vec<i128> = r.iter().map(|sh| area2(&sh[0]).abs() / 2).collect();
    got.sort();
    vp_check!(got == want, "the pieces are the strips between the cuts, without those under the minimum area");
}
