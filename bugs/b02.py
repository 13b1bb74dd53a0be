ID="b02-inverse-difference-inner"; PROP="C02"; FILE="core/filter.rs"
EDITS=[("core/filter.rs","""        (top == CLIP_TOP || bottom == CLIP_BOTTOM) && is_not_inner_clip""","""        (top == CLIP_TOP) != (bottom == CLIP_BOTTOM) && is_not_inner_clip || (top == BOTH_TOP && bottom == NONE)""")]
DEMO="""
#[test]
fn t() {
    for fill in 0u8..16 {
        let d = |s: u8, c: u8| fill & c != 0 && fill & s == 0;
        assert_eq!(fill.is_inverse_difference(), d(SUBJ_TOP, CLIP_TOP) != d(SUBJ_BOTTOM, CLIP_BOTTOM), "{}", fill);
    }
}
"""
NEEDS="an edge where the subject and the clip contour coincide and run the same way, under the inverse difference rule"
BREAKS="the common edge, with nothing of the result on either side, is kept as a boundary of the result"
