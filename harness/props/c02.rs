//@ append core/overlay_rule.rs
// the documented point-set meaning of every rule
pub fn holds(rule: OverlayRule, s: bool, c: bool) -> bool {
    match rule {
        OverlayRule::Subject => s,
        OverlayRule::Clip => c,
        OverlayRule::Intersect => s && c,
        OverlayRule::Union => s || c,
        OverlayRule::Difference => s && !c,
        OverlayRule::InverseDifference => c && !s,
        OverlayRule::Xor => s != c,
    }
}
pub fn rule_of(i: u8) -> OverlayRule {
    match i {
        0 => OverlayRule::Subject,
        1 => OverlayRule::Clip,
        2 => OverlayRule::Intersect,
        3 => OverlayRule::Union,
        4 => OverlayRule::Difference,
        5 => OverlayRule::InverseDifference,
        _ => OverlayRule::Xor,
    }
}
pub fn above(rule: OverlayRule, fill: SegmentFill) -> bool { holds(rule, fill & 1 != 0, fill & 4 != 0) }
pub fn below(rule: OverlayRule, fill: SegmentFill) -> bool { holds(rule, fill & 2 != 0, fill & 8 != 0) }

//@ body outer_side kani
pub fn outer_side<S: Src>(s: &mut S) {
    let (r, fill) = (rule_of(s.u8()), s.u8());
    s.note("rule", &r);
    s.note("fill", &fill);
    s.assume(fill < 16);
    // asked only of edges on the boundary of the result
    s.assume(above(r, fill) != below(r, fill));
    vp_check!(r.is_fill_top(fill) == above(r, fill), "the result is said to lie above a boundary edge exactly when it does");
}

//@ append core/filter.rs
use crate::core::overlay_rule::vp::{above, below, rule_of};
use crate::geom::id_point::IdPoint;
use i_float::int::point::IntPoint;

//@ body boundary_edges kani
pub fn boundary_edges<S: Src>(s: &mut S) {
    let (k, fill) = (s.u8(), s.u8());
    s.assume(fill < 16);
    let r = rule_of(k);
    s.note("rule", &r);
    s.note("fill", &fill);
    let got = match r {
        OverlayRule::Subject => SubjectFilter::is_included(fill),
        OverlayRule::Clip => ClipFilter::is_included(fill),
        OverlayRule::Intersect => IntersectFilter::is_included(fill),
        OverlayRule::Union => UnionFilter::is_included(fill),
        OverlayRule::Difference => DifferenceFilter::is_included(fill),
        OverlayRule::InverseDifference => InverseDifferenceFilter::is_included(fill),
        OverlayRule::Xor => XorFilter::is_included(fill),
    };
    vp_check!(got == (above(r, fill) != below(r, fill)), "an edge is kept exactly when the result lies on one side of it only");
}

//@ body filler_edges kani
pub fn filler_edges<S: Src>(s: &mut S) {
    let fill = s.u8();
    s.assume(fill < 16);
    s.note("fill", &fill);
    // an edge both of whose sides are in the same shapes bounds nothing
    let same = (fill & 1 != 0) == (fill & 2 != 0) && (fill & 4 != 0) == (fill & 8 != 0);
    vp_check!(FillerFilter::is_included(fill) == !same, "only edges with equal sides are dropped from the full graph");
    if same {
        let mut k = 0u8;
        while k < 7 {
            let r = rule_of(k);
            vp_check!(above(r, fill) == below(r, fill), "a dropped edge bounds the result of no rule");
            k += 1;
        }
    }
}

fn link(fill: u8) -> OverlayLink { OverlayLink { a: IdPoint::new(0, IntPoint::ZERO), b: IdPoint::new(0, IntPoint::ZERO), fill } }

//@ body filter_by_rule kani unwind=5 bounded=link_lists_of_up_to_3
pub fn filter_by_rule<S: Src>(s: &mut S) {
    let r = rule_of(s.u8());
    let n = s.usize_in(0, 3);
    let mut links: Vec<OverlayLink> = Vec::with_capacity(3);
    let mut i = 0;
    while i < n {
        let f = s.u8();
        s.assume(f < 16);
        links.push(link(f));
        i += 1;
    }
    s.note("rule", &r);
    s.note("links", &links);
    let v = links.filter_by_rule(r);
    vp_check!(v.len() == links.len(), "one mark per link");
    let mut i = 0;
    while i < n {
        let f = links[i].fill;
        vp_check!(v[i] == (above(r, f) == below(r, f)), "exactly the links that do not bound the result are marked visited");
        i += 1;
    }
}

//@ append core/link.rs
use crate::core::overlay_rule::vp::{above, below, rule_of};
use crate::geom::x_segment::XSegment;

pub fn segs<S: Src>(s: &mut S, n: usize) -> (Vec<Segment<ShapeCountBoolean>>, Vec<SegmentFill>) {
    let mut v = Vec::new();
    let mut f = Vec::new();
    for i in 0..n {
        let a = IntPoint::new(s.i32_in(-50, 50), i as i32);
        let b = IntPoint::new(s.i32_in(51, 99), s.i32_in(-50, 50));
        v.push(Segment { x_segment: XSegment { a, b }, count: ShapeCountBoolean { subj: 1, clip: 0 } });
        f.push(s.u8() & 15);
    }
    (v, f)
}

//@ body links_kept
pub fn links_kept<S: Src>(s: &mut S) {
    let k = s.u8() % 7;
    let r = rule_of(k);
    let n = s.usize_in(0, 12);
    let (v, f) = segs(s, n);
    s.note("rule", &r);
    s.note("segments", &v);
    s.note("fills", &f);
    let links = match r {
        OverlayRule::Subject => OverlayLinkBuilder::build_links::<SubjectFilter, ShapeCountBoolean>(&v, &f),
        OverlayRule::Clip => OverlayLinkBuilder::build_links::<ClipFilter, ShapeCountBoolean>(&v, &f),
        OverlayRule::Intersect => OverlayLinkBuilder::build_links::<IntersectFilter, ShapeCountBoolean>(&v, &f),
        OverlayRule::Union => OverlayLinkBuilder::build_links::<UnionFilter, ShapeCountBoolean>(&v, &f),
        OverlayRule::Difference => OverlayLinkBuilder::build_links::<DifferenceFilter, ShapeCountBoolean>(&v, &f),
        OverlayRule::InverseDifference => OverlayLinkBuilder::build_links::<InverseDifferenceFilter, ShapeCountBoolean>(&v, &f),
        OverlayRule::Xor => OverlayLinkBuilder::build_links::<XorFilter, ShapeCountBoolean>(&v, &f),
    };
    let want: Vec<(IntPoint, IntPoint, u8)> = (0..n).filter(|&i| above(r, f[i]) != below(r, f[i])).map(|i| (v[i].x_segment.a, v[i].x_segment.b, f[i])).collect();
    let got: Vec<(IntPoint, IntPoint, u8)> = links.iter().map(|l| (l.a.point, l.b.point, l.fill)).collect();
    s.note("links", &got);
    vp_check!(got == want, "the links are the boundary edges, each with its own ends and sides");
    let all: Vec<(IntPoint, IntPoint, u8)> = OverlayLinkBuilder::build_all_links(&v, &f).iter().map(|l| (l.a.point, l.b.point, l.fill)).collect();
    let want: Vec<(IntPoint, IntPoint, u8)> = (0..n).map(|i| (v[i].x_segment.a, v[i].x_segment.b, f[i])).collect();
    vp_check!(all == want, "without a filter every edge becomes a link");
}

//@ body rule_dispatch
pub fn rule_dispatch<S: Src>(s: &mut S) {
    // two rectangles, one of them clip; disjoint edges, so splitting and filling are trivial
    let k = s.u8() % 7;
    let r = rule_of(k);
    let (x, y) = (s.i32_in(-100, 100), s.i32_in(-100, 100));
    let (w, h) = (s.i32_in(1, 50), s.i32_in(1, 50));
    let nested = s.bool();
    let mk = |x0: i32, y0: i32, x1: i32, y1: i32| vec![IntPoint::new(x0, y0), IntPoint::new(x1, y0), IntPoint::new(x1, y1), IntPoint::new(x0, y1)];
    let (sx, cl) = (mk(x, y, x + w + 4, y + h + 4), if nested { mk(x + 1, y + 1, x + 2, y + 3) } else { mk(x + w + 10, y, x + w + 12, y + 5) });
    let mut o = crate::core::overlay::Overlay::new(8);
    o.add_contour(&sx, crate::core::overlay::ShapeType::Subject);
    o.add_contour(&cl, crate::core::overlay::ShapeType::Clip);
    s.note("rule", &r);
    s.note("subject", &sx);
    s.note("clip", &cl);
    let solver = Solver::default();
    let area = |v: &Vec<Vec<Vec<IntPoint>>>| -> i64 {
        let mut t = 0i64;
        for c in v.iter().flatten() {
            let mut a = 0i64;
            for i in 0..c.len() { let (p, q) = (c[i], c[(i + 1) % c.len()]); a += p.x as i64 * q.y as i64 - p.y as i64 * q.x as i64; }
            t += a;
        }
        t / 2
    };
    let shapes = o.into_graph_with_solver(FillRule::NonZero, solver).extract_shapes(r);
    let (sa, ca) = ((w + 4) as i64 * (h + 4) as i64, if nested { 2 } else { 10 });
    let both = if nested { ca } else { 0 };
    let want = match r {
        OverlayRule::Subject => sa,
        OverlayRule::Clip => ca,
        OverlayRule::Intersect => both,
        OverlayRule::Union => sa + ca - both,
        OverlayRule::Difference => sa - both,
        OverlayRule::InverseDifference => ca - both,
        OverlayRule::Xor => sa + ca - 2 * both,
    };
    let got = area(&shapes).abs();
    s.note("shapes", &shapes);
    vp_check!(got == want, "the area of the result is that of the rule");
    let mut o = crate::core::overlay::Overlay::new(8);
    o.add_contour(&sx, crate::core::overlay::ShapeType::Subject);
    o.add_contour(&cl, crate::core::overlay::ShapeType::Clip);
    let direct = o.overlay(r, FillRule::NonZero);
    vp_check!(area(&direct).abs() == want, "the area of the one-step result is that of the rule");
}
