//@ append core/divide.rs
fn edges(l: &[IntPoint], m: &mut std::collections::BTreeMap<((i32, i32), (i32, i32)), i64>, k: i64) {
    for i in 0..l.len() {
        let (a, b) = (l[i], l[(i + 1) % l.len()]);
        let e = m.entry(((a.x, a.y), (b.x, b.y))).or_insert(0);
        *e += k;
        if *e == 0 { m.remove(&((a.x, a.y), (b.x, b.y))); }
    }
}
fn repeats(l: &[IntPoint]) -> bool { (0..l.len()).any(|i| l[..i].contains(&l[i])) }
//@ body decompose weight=3
pub fn decompose<S: Src>(s: &mut S) {
    let k = s.usize_in(1, 8) as i32;
    let n = s.usize_in(0, 14);
    let big = s.one_in(4);
    let contour: Vec<IntPoint> = (0..n).map(|_| { let i = s.i32_in(0, k); if big { IntPoint::new(i * 100_000_003 - 300_000_000, (i % 3) * 7) } else { IntPoint::new(i % 3, i / 3) } }).collect();
    s.note("contour", &contour);
    let r = contour.decompose_contours();
    s.note("result", &r);
    match r {
        None => { vp_check!(contour.len() < 3 || !repeats(&contour), "a contour that visits a point twice is divided"); }
        Some(l) => {
            vp_check!(contour.len() >= 3 && repeats(&contour), "a contour that visits no point twice is left alone");
            vp_check!(l.iter().all(|c| !c.is_empty() && !repeats(c)), "no part visits a point twice");
            let mut m = std::collections::BTreeMap::new();
            edges(&contour, &mut m, 1);
            for c in l.iter() { edges(c, &mut m, -1); }
            vp_check!(m.is_empty(), "the parts have together exactly the edges of the contour, with their directions");
        }
    }
}
