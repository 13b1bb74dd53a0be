ID="b15-bare-edges-not-kept"; PROP="C15"; FILE="fill/solver.rs"
EDITS=[("fill/solver.rs","                if sid.x_segment.is_not_vertical() {","                if fill != NONE && sid.x_segment.is_not_vertical() {")]
DEMO="""
#[test]
fn t() {
    use i_float::int::point::IntPoint;
    use crate::core::overlay::{Overlay, ShapeType};
    use crate::core::fill_rule::FillRule;
    use crate::core::overlay_rule::OverlayRule;
    let p = |v: &[(i32, i32)]| v.iter().map(|&(x, y)| IntPoint::new(x, y)).collect::<Vec<_>>();
    let outer = p(&[(0, 0), (20, 0), (20, 20), (0, 20)]);
    let inner = p(&[(5, 5), (15, 5), (15, 15), (5, 15)]);
    let rev = |v: &Vec<IntPoint>| v.iter().rev().copied().collect::<Vec<_>>();
    let run = |a: Vec<IntPoint>, b: Vec<IntPoint>, f| { let mut o = Overlay::new(8); o.add_contour(&a, ShapeType::Subject); o.add_contour(&b, ShapeType::Subject); o.overlay(OverlayRule::Subject, f).len() };
    // the winding of the outer one is of the other sign, and inside the inner one it is zero
    assert_eq!(run(rev(&outer), inner.clone(), FillRule::Positive), 0);
    assert_eq!(run(outer, rev(&inner), FillRule::Negative), 0);
}
"""
NEEDS="a fill rule of one sign, and a contour of that sign inside one of the other sign, so that edges without a filled side matter"
BREAKS="the winding of the outer contour is forgotten, so the inner one is filled"
