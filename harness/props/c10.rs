//@ append core/graph.rs
use crate::core::solver::MultithreadOptions;
use crate::geom::id_point::IdPoint;
use std::collections::{BTreeMap, BTreeSet};
type P = (i32, i32);
fn solver(par: Option<usize>) -> Solver { Solver { multithreading: par.map(|k| MultithreadOptions { par_sort_min_size: k }), ..Solver::default() } }
//@ body wiring weight=2
pub fn wiring<S: Src>(s: &mut S) {
    let most = if s.one_in(20) { 400 } else { 40 };
    let n = s.usize_in(0, most);
    let k = s.i32_in(1, 12);
    let big = s.bool();
    let mut set = BTreeSet::new();
    let mut z = s.u64();
    let mut rnd = |m: i32| { z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((z >> 33) % m as u64) as i32 };
    for _ in 0..n {
        let mut p = || { let (x, y) = (rnd(k) - k / 2, rnd(k) - k / 2); if big { (x * 178_000_000, y * 178_000_000) } else { (x, y) } };
        let (a, b) = (p(), p());
        if a != b { set.insert(if a < b { (a, b) } else { (b, a) }); }
    }
    // a common border in x: the sort by bins sees one column
    let list: Vec<(P, P, u8)> = set.into_iter().map(|(a, b)| (a, b, (rnd(15) + 1) as u8)).collect();
    let par = if s.one_in(4) { Some(s.usize_in(1, 60)) } else { None };
    s.note("links", &list);
    s.note("parallel", &par);
    let ip = |p: P| IntPoint::new(p.0, p.1);
    let links: Vec<OverlayLink> = list.iter().map(|&(a, b, f)| OverlayLink::new(IdPoint::new(s.usize_in(0, 3), ip(a)), IdPoint::new(0, ip(b)), f)).collect();
    let g = OverlayGraph::new(solver(par), links);
    vp_check!(g.links.len() == list.len(), "no link is lost or added");
    vp_check!(g.links.iter().zip(list.iter()).all(|(l, &(a, b, f))| l.a.point == ip(a) && l.b.point == ip(b) && l.fill == f), "links keep their ends and fills");
    let mut at: BTreeMap<P, BTreeSet<usize>> = BTreeMap::new();
    for (i, &(a, b, _)) in list.iter().enumerate() { at.entry(a).or_default().insert(i); at.entry(b).or_default().insert(i); }
    vp_check!(g.nodes.len() == at.len(), "there is one node for each point");
    let mut of: BTreeMap<usize, P> = BTreeMap::new();
    for l in g.links.iter() { for e in [l.a, l.b] {
        let p = (e.point.x, e.point.y);
        vp_check!(e.id < g.nodes.len() && *of.entry(e.id).or_insert(p) == p, "ends with one node are in one point");
    } }
    for (i, node) in g.nodes.iter().enumerate() {
        let l: Vec<usize> = match node { OverlayNode::Bridge(b) => b.to_vec(), OverlayNode::Cross(v) => v.clone() };
        vp_check!(of.contains_key(&i), "each node has an end");
        let mut q = l.clone();
        q.sort();
        vp_check!(q == at[&of[&i]].iter().copied().collect::<Vec<_>>(), "a node lists exactly the links that end in its point, each once");
        vp_check!(matches!(node, OverlayNode::Bridge(_)) == (l.len() == 2), "a node with two links is a bridge");
    }
}
//@ append core/link.rs
use crate::geom::x_segment::XSegment;
use i_float::int::point::IntPoint as Pt;
fn bits(f: u8, rule: usize) -> bool {
    let (st, sb, ct, cb) = (f & 1 != 0, f & 2 != 0, f & 4 != 0, f & 8 != 0);
    let (t, b) = match rule {
        0 => (st, sb),
        1 => (ct, cb),
        2 => (st && ct, sb && cb),
        3 => (st || ct, sb || cb),
        4 => (st && !ct, sb && !cb),
        5 => (ct && !st, cb && !sb),
        _ => (st != ct, sb != cb),
    };
    t != b
}
//@ body keeping
pub fn keeping<S: Src>(s: &mut S) {
    let n = s.usize_in(0, 20);
    let rule = s.usize_in(0, 8);
    let mut segs = vec![];
    let mut fills: Vec<SegmentFill> = vec![];
    for _ in 0..n {
        let (x, y) = (s.i32_in(-(1 << 29), 1 << 29), s.i32_in(-(1 << 29), 1 << 29));
        segs.push(Segment { x_segment: XSegment { a: Pt::new(x, y), b: Pt::new(x + s.i32_in(1, 9), y + s.i32_in(-9, 9)) }, count: ShapeCountBoolean { subj: 1, clip: 0 } });
        fills.push((s.usize_in(0, 15)) as SegmentFill);
    }
    s.note("fills", &fills);
    s.note("rule", &rule);
    let r = match rule {
        0 => OverlayLinkBuilder::build_links::<SubjectFilter, ShapeCountBoolean>(&segs, &fills),
        1 => OverlayLinkBuilder::build_links::<ClipFilter, ShapeCountBoolean>(&segs, &fills),
        2 => OverlayLinkBuilder::build_links::<IntersectFilter, ShapeCountBoolean>(&segs, &fills),
        3 => OverlayLinkBuilder::build_links::<UnionFilter, ShapeCountBoolean>(&segs, &fills),
        4 => OverlayLinkBuilder::build_links::<DifferenceFilter, ShapeCountBoolean>(&segs, &fills),
        5 => OverlayLinkBuilder::build_links::<InverseDifferenceFilter, ShapeCountBoolean>(&segs, &fills),
        6 => OverlayLinkBuilder::build_links::<XorFilter, ShapeCountBoolean>(&segs, &fills),
        _ => OverlayLinkBuilder::build_all_links(&segs, &fills),
    };
    let want: Vec<(Pt, Pt, u8)> = (0..n).filter(|&i| rule > 6 || bits(fills[i], rule)).map(|i| (segs[i].x_segment.a, segs[i].x_segment.b, fills[i])).collect();
    let got: Vec<(Pt, Pt, u8)> = r.iter().map(|l| (l.a.point, l.b.point, l.fill)).collect();
    vp_check!(got == want, "the links are exactly the kept edges, in their order, with their fills");
}
