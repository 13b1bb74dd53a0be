//@ append core/link.rs
use crate::segm::segment::{SUBJ_TOP, SUBJ_BOTTOM, CLIP_TOP, CLIP_BOTTOM};

// the documented fill rules over a winding number
pub fn filled(rule: FillRule, w: i64) -> bool {
    match rule {
        FillRule::EvenOdd => w % 2 != 0,
        FillRule::NonZero => w != 0,
        FillRule::Positive => w > 0,
        FillRule::Negative => w < 0,
    }
}

fn check_boolean<S: Src, F: FillStrategy<ShapeCountBoolean>>(s: &mut S, rule: FillRule) {
    let (a, b, c, d) = (s.i32(), s.i32(), s.i32(), s.i32());
    s.note("this", &(a, b));
    s.note("bottom", &(c, d));
    let (ts, tc) = (a as i64 + c as i64, b as i64 + d as i64);
    s.assume(ts >= i32::MIN as i64 && ts <= i32::MAX as i64 && tc >= i32::MIN as i64 && tc <= i32::MAX as i64);
    let (top, fill) = F::add_and_fill(ShapeCountBoolean { subj: a, clip: b }, ShapeCountBoolean { subj: c, clip: d });
    s.note("top", &top);
    s.note("fill", &fill);
    vp_check!(top.subj as i64 == ts && top.clip as i64 == tc, "the winding above the edge is the winding below plus the edge's own");
    vp_check!(fill & !15 == 0, "only the four side bits are used");
    vp_check!((fill & SUBJ_TOP != 0) == filled(rule, ts), "the subject is marked filled above exactly when the rule says so");
    vp_check!((fill & SUBJ_BOTTOM != 0) == filled(rule, c as i64), "the subject is marked filled below exactly when the rule says so");
    vp_check!((fill & CLIP_TOP != 0) == filled(rule, tc), "the clip is marked filled above exactly when the rule says so");
    vp_check!((fill & CLIP_BOTTOM != 0) == filled(rule, d as i64), "the clip is marked filled below exactly when the rule says so");
}
//@ body bool_even_odd kani
pub fn bool_even_odd<S: Src>(s: &mut S) { check_boolean::<S, EvenOddStrategy>(s, FillRule::EvenOdd) }
//@ body bool_non_zero kani
pub fn bool_non_zero<S: Src>(s: &mut S) { check_boolean::<S, NonZeroStrategy>(s, FillRule::NonZero) }
//@ body bool_positive kani
pub fn bool_positive<S: Src>(s: &mut S) { check_boolean::<S, PositiveStrategy>(s, FillRule::Positive) }
//@ body bool_negative kani
pub fn bool_negative<S: Src>(s: &mut S) { check_boolean::<S, NegativeStrategy>(s, FillRule::Negative) }

fn check_string<S: Src, F: FillStrategy<ShapeCountString>>(s: &mut S, rule: FillRule) {
    let (a, b, c, d) = (s.i32(), s.u8(), s.i32(), s.u8());
    s.note("this", &(a, b));
    s.note("bottom", &(c, d));
    let ts = a as i64 + c as i64;
    s.assume(ts >= i32::MIN as i64 && ts <= i32::MAX as i64 && b < 4 && d < 4);
    let (top, fill) = F::add_and_fill(ShapeCountString { subj: a, clip: b }, ShapeCountString { subj: c, clip: d });
    s.note("top", &top);
    s.note("fill", &fill);
    vp_check!(top.subj as i64 == ts, "the winding above the edge is the winding below plus the edge's own");
    vp_check!((fill & SUBJ_TOP != 0) == filled(rule, ts), "the body is marked filled above exactly when the rule says so");
    vp_check!((fill & SUBJ_BOTTOM != 0) == filled(rule, c as i64), "the body is marked filled below exactly when the rule says so");
    vp_check!(fill >> 2 == b, "the string directions of the edge itself, and of no other edge, are carried");
    vp_check!(top.clip == 0, "string directions do not leak to the edge above");
}
//@ body string_even_odd kani
pub fn string_even_odd<S: Src>(s: &mut S) { check_string::<S, EvenOddStrategyString>(s, FillRule::EvenOdd) }
//@ body string_non_zero kani
pub fn string_non_zero<S: Src>(s: &mut S) { check_string::<S, NonZeroStrategyString>(s, FillRule::NonZero) }
//@ body string_positive kani
pub fn string_positive<S: Src>(s: &mut S) { check_string::<S, PositiveStrategyString>(s, FillRule::Positive) }
//@ body string_negative kani
pub fn string_negative<S: Src>(s: &mut S) { check_string::<S, NegativeStrategyString>(s, FillRule::Negative) }

//@ append mesh/boolean.rs
//@ body offset_positive kani
pub fn offset_positive<S: Src>(s: &mut S) {
    let (a, c, b, d) = (s.i32(), s.i32(), s.bool(), s.bool());
    s.note("this", &(a, b));
    s.note("bottom", &(c, d));
    let ts = a as i64 + c as i64;
    s.assume(ts >= i32::MIN as i64 && ts <= i32::MAX as i64);
    let (top, fill) = SubjectOffsetStrategy::add_and_fill(OffsetCountBoolean { subj: a, bold: b }, OffsetCountBoolean { subj: c, bold: d });
    vp_check!(top.subj as i64 == ts, "the winding above the edge is the winding below plus the edge's own");
    vp_check!((fill & SUBJ_TOP != 0) == (ts > 0), "offsets fill above where the winding is positive");
    vp_check!((fill & crate::segm::segment::SUBJ_BOTTOM != 0) == (c > 0), "offsets fill below where the winding is positive");
    vp_check!((fill & (1 << BOLD_BIT) != 0) == b, "the bold flag is the edge's own");
    vp_check!(!top.bold, "the bold flag does not leak to the edge above");
    vp_check!(fill & !7 == 0, "only the three offset bits are used");
}
