//@ append split/solver_fragment.rs
use crate::geom::x_segment::XSegment;
fn lt(a: IntPoint, b: IntPoint) -> bool { (a.x, a.y) < (b.x, b.y) }
fn edges<S: Src>(s: &mut S) -> Vec<XSegment> {
    let m = [3, 9, 40, 700, 100_000][s.usize_in(0, 4)];
    let n = s.usize_in(2, 16);
    let mut v = vec![];
    for _ in 0..n {
        let mut p = |s: &mut S| IntPoint::new(s.i32_in(-m, m), s.i32_in(-m, m));
        let (a, mut b) = (p(s), p(s));
        match s.usize_in(0, 5) { 0 => b.x = a.x, 1 => b.y = a.y, _ => {} }
        if a == b { continue; }
        v.push(if lt(a, b) { XSegment { a, b } } else { XSegment { a: b, b: a } });
    }
    v.sort_by(|a, b| (a.a.x, a.a.y, a.b.x, a.b.y).cmp(&(b.a.x, b.a.y, b.b.x, b.b.y)));
    v.dedup();
    v
}
fn key(mut v: Vec<LineMark>) -> Vec<(usize, i32, i32)> {
    let mut k: Vec<_> = v.drain(..).map(|m| (m.index, m.point.x, m.point.y)).collect();
    k.sort();
    k
}
//@ body column_pairs weight=4
pub fn column_pairs<S: Src>(s: &mut S) {
    let v = edges(s);
    s.note("edges", &v);
    let radius = [1i64, 2, 8][s.usize_in(0, 2)];
    let lo = v.iter().map(|e| e.a.x).min().unwrap_or(0);
    let n = s.usize_in(1, 4096);
    let layout = match GridLayout::new(v.iter().copied(), n) { Some(l) => l, None => return };
    s.note("count", &n);
    let _ = lo;
    let mut b = FragmentBuffer::new(layout);
    b.init_fragment_buffer(v.iter().copied());
    for (i, e) in v.iter().enumerate() { b.add_segment(i, *e); }
    for c in 0..b.groups.len() {
        // every pair of pieces with touching boxes is crossed, once, in the order of its edges
        let g: Vec<Fragment> = b.groups[c].clone();
        let mut want = vec![];
        let mut round = false;
        for i in 0..g.len() {
            for j in 0..i {
                let (p, q) = if g[i].x_segment < g[j].x_segment { (&g[i], &g[j]) } else { (&g[j], &g[i]) };
                let (a, d) = (&p.rect, &q.rect);
                if a.min_x > d.max_x || d.min_x > a.max_x || a.min_y > d.max_y || d.min_y > a.max_y { continue; }
                round |= SplitSolver::cross_fragments(p, q, &mut want, radius);
            }
        }
        let mut got = vec![];
        let r = SplitSolver::bin_split(radius, &mut b.groups[c], &mut got);
        s.note("column", &c);
        s.note("marks", &got.iter().map(|m| (m.index, m.point)).collect::<Vec<_>>());
        vp_check!(key(got) == key(want), "every two pieces of a column whose boxes touch are checked against each other");
        vp_check!(r == round, "a column reports rounding when one of its crossings was rounded");
    }
    // vertical edges along a border are split by the ends of the edges of the column before it
    for (&c, vs) in b.on_border.iter_mut() {
        let x = b.layout.pos(c);
        let g = &b.groups[c - 1];
        let mut want = vec![];
        for e in vs.iter() {
            for f in g.iter() {
                let p = f.x_segment.b;
                if p.x == x && e.y_range.min < p.y && p.y < e.y_range.max { want.push(LineMark { index: e.id, point: p }); }
            }
        }
        let mut got = vec![];
        SplitSolver::on_border_split(x, g, vs, &mut got);
        vp_check!(key(got) == key(want), "a vertical edge along a border is split exactly by the ends inside it of the edges from the left");
    }
}
