//@ append segm/winding_count.rs
fn b<S: Src>(s: &mut S) -> ShapeCountBoolean { let v = ShapeCountBoolean { subj: s.i32(), clip: s.i32() }; s.note("count", &v); v }
fn t<S: Src>(s: &mut S) -> ShapeCountString { let v = ShapeCountString { subj: s.i32(), clip: s.u8() }; s.assume(v.clip < 4); s.note("count", &v); v }
fn fits(x: i64) -> bool { x >= i32::MIN as i64 && x <= i32::MAX as i64 }

//@ body boolean_algebra kani
pub fn boolean_algebra<S: Src>(s: &mut S) {
    let (x, y) = (b(s), b(s));
    s.assume(fits(x.subj as i64 + y.subj as i64) && fits(x.clip as i64 + y.clip as i64));
    let z = x.add(y);
    vp_check!(z.subj as i64 == x.subj as i64 + y.subj as i64 && z.clip as i64 == x.clip as i64 + y.clip as i64, "counts add componentwise");
    let mut w = x;
    w.apply(y);
    vp_check!(w == z, "apply is add in place");
    s.assume(x.subj != i32::MIN && x.clip != i32::MIN);
    let i = x.invert();
    vp_check!(i.subj == -x.subj && i.clip == -x.clip, "inverting a count negates it");
    vp_check!(!x.add(i).is_not_empty(), "a count and its inverse cancel to an empty count");
    vp_check!(x.is_not_empty() == (x.subj != 0 || x.clip != 0), "a count is empty exactly when all its components are zero");
    let n = <ShapeCountBoolean as WindingCount>::new(x.subj, y.clip);
    vp_check!(n.subj == x.subj && n.clip == y.clip, "new keeps its components");
}
//@ body boolean_directions kani
pub fn boolean_directions<S: Src>(s: &mut S) {
    let st = if s.bool() { ShapeType::Subject } else { ShapeType::Clip };
    let subject = matches!(st, ShapeType::Subject);
    s.note("subject", &subject);
    let (d, i) = ShapeCountBoolean::with_shape_type(st);
    vp_check!(d.subj == subject as i32 && d.clip == !subject as i32, "a forward edge counts one for its own shape and nothing for the other");
    vp_check!(i == d.invert(), "a backward edge counts the inverse");
}
//@ body string_algebra kani
pub fn string_algebra<S: Src>(s: &mut S) {
    let (x, y) = (t(s), t(s));
    s.assume(fits(x.subj as i64 + y.subj as i64));
    let z = x.add(y);
    vp_check!(z.subj as i64 == x.subj as i64 + y.subj as i64 && z.clip == (x.clip | y.clip), "body counts add, string directions unite");
    let mut w = x;
    w.apply(y);
    vp_check!(w == z, "apply is add in place");
    s.assume(x.subj != i32::MIN);
    let i = x.invert();
    vp_check!(i.subj == -x.subj, "inverting negates the body count");
    vp_check!((i.clip & STRING_FORWARD_CLIP != 0) == (x.clip & STRING_BACK_CLIP != 0)
        && (i.clip & STRING_BACK_CLIP != 0) == (x.clip & STRING_FORWARD_CLIP != 0) && i.clip < 4, "inverting swaps the string directions");
    vp_check!(i.invert() == x, "inverting twice changes nothing");
    vp_check!(x.is_not_empty() == (x.subj != 0 || x.clip != 0), "a count is empty exactly when it has no winding and no string direction");
    let n = <ShapeCountString as WindingCount>::new(x.subj, y.subj);
    vp_check!(n.subj == x.subj && n.clip == (if y.subj > 0 { STRING_FORWARD_CLIP } else if y.subj < 0 { STRING_BACK_CLIP } else { 0 }), "the sign of the string count is its direction");
}
//@ body string_directions kani
pub fn string_directions<S: Src>(s: &mut S) {
    let st = if s.bool() { ShapeType::Subject } else { ShapeType::Clip };
    let subject = matches!(st, ShapeType::Subject);
    s.note("subject", &subject);
    let (d, i) = ShapeCountString::with_shape_type(st);
    vp_check!(d.subj == subject as i32 && d.clip == (if subject { 0 } else { STRING_FORWARD_CLIP }), "a forward edge counts for its own kind only");
    vp_check!(i == d.invert(), "a backward edge counts the inverse");
}

//@ append mesh/boolean.rs
//@ body offset_algebra kani
pub fn offset_algebra<S: Src>(s: &mut S) {
    let (x, y) = (OffsetCountBoolean { subj: s.i32(), bold: s.bool() }, OffsetCountBoolean { subj: s.i32(), bold: s.bool() });
    s.note("x", &x);
    s.note("y", &y);
    let z = x.subj as i64 + y.subj as i64;
    s.assume(z >= i32::MIN as i64 && z <= i32::MAX as i64);
    let a = x.add(y);
    vp_check!(a.subj as i64 == z && a.bold == (x.bold || y.bold), "counts add, bold marks unite");
    let mut w = x;
    w.apply(y);
    vp_check!(w == a, "apply is add in place");
    s.assume(x.subj != i32::MIN);
    let i = x.invert();
    vp_check!(i.subj == -x.subj && i.bold == x.bold, "inverting negates the count and keeps the bold mark");
    vp_check!(x.is_not_empty() == (x.subj != 0), "an offset count is empty exactly when it has no winding");
    let (d, v) = OffsetCountBoolean::with_shape_type(ShapeType::Subject);
    vp_check!(d.subj == 1 && v == d.invert(), "forward and backward subject edges are inverse");
}

//@ append segm/segment.rs
use crate::segm::winding_count::ShapeCountBoolean;
//@ body edge_orientation kani
pub fn edge_orientation<S: Src>(s: &mut S) {
    let a = IntPoint::new(s.i32(), s.i32());
    let b = IntPoint::new(s.i32(), s.i32());
    let c = ShapeCountBoolean { subj: s.i32(), clip: s.i32() };
    s.note("a", &a);
    s.note("b", &b);
    s.note("count", &c);
    s.assume(a != b && c.subj != i32::MIN && c.clip != i32::MIN);
    let x = Segment::create_and_validate(a, b, c);
    let y = Segment::create_and_validate(b, a, c.invert());
    vp_check!(x.x_segment.a < x.x_segment.b, "a stored edge runs from its smaller to its greater end");
    vp_check!((x.x_segment.a == a && x.x_segment.b == b) || (x.x_segment.a == b && x.x_segment.b == a), "the ends are the given ones");
    vp_check!(x.count == (if x.x_segment.a == a { c } else { c.invert() }), "the count is inverted exactly when the edge is turned");
    vp_check!(x.x_segment == y.x_segment && x.count == y.count, "an edge and its reverse with the inverse count are stored alike");
}
//@ append segm/build.rs
use crate::segm::winding_count::ShapeCountBoolean;
//@ body edge_direction kani
pub fn edge_direction<S: Src>(s: &mut S) {
    let a = IntPoint::new(s.i32(), s.i32());
    let b = IntPoint::new(s.i32(), s.i32());
    s.note("a", &a);
    s.note("b", &b);
    s.assume(a != b);
    let st = if s.bool() { ShapeType::Subject } else { ShapeType::Clip };
    let (d, i) = ShapeCountBoolean::with_shape_type(st);
    let x = Segment::with_ab(a, b, d, i);
    let y = Segment::with_ab(b, a, d, i);
    vp_check!(x.x_segment.a < x.x_segment.b && x.x_segment == y.x_segment, "both directions are stored as the same ordered edge");
    vp_check!(x.count == (if x.x_segment.a == a { d } else { i }) && y.count == x.count.invert(), "the count records the direction of travel");
}
//@ append mesh/subject.rs
//@ body offset_edges kani
pub fn offset_edges<S: Src>(s: &mut S) {
    let a = IntPoint::new(s.i32(), s.i32());
    let b = IntPoint::new(s.i32(), s.i32());
    s.assume(a != b);
    s.note("a", &a);
    s.note("b", &b);
    let (x, y) = (Segment::bold_subject_ab(a, b), Segment::weak_subject_ab(a, b));
    vp_check!(x.x_segment.a < x.x_segment.b && x.x_segment == y.x_segment, "stored from the smaller to the greater end");
    vp_check!((x.x_segment.a == a && x.x_segment.b == b) || (x.x_segment.a == b && x.x_segment.b == a), "the ends are the given ones");
    vp_check!(x.count.subj == (if x.x_segment.a == a { 1 } else { -1 }) && y.count.subj == x.count.subj, "the count records the direction of travel");
    vp_check!(x.count.bold && !y.count.bold, "the bold mark is kept apart");
}
