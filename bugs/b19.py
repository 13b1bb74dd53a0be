ID="b19-fourth-way-skipped"; PROP="C19"; FILE="string/extract.rs"
EDITS=[("string/extract.rs","indices.iter().skip(pos + 1)","indices.iter().skip(pos + 2)")]
DEMO="""
#[test]
fn t() {
    use i_float::int::point::IntPoint;
    use crate::core::fill_rule::FillRule;
    use crate::string::slice::IntSlice;
    let p = |x, y| IntPoint::new(x, y);
    let n = 4;
    let square = vec![p(0, 0), p(40, 0), p(40, 40), p(0, 40)];
    let mut lines = vec![];
    for i in 0..=n {
        lines.push([p(10 * i, -5), p(10 * i, 45)]);
        lines.push([p(-5, 10 * i), p(45, 10 * i)]);
    }
    for i in -n..=n {
        lines.push([p(10 * i, 0), p(10 * i + 40, 40)]);
        lines.push([p(10 * i + 40, 0), p(10 * i, 40)]);
    }
    let r = vec![square].slice_by_lines(&lines, FillRule::NonZero);
    for s in r.iter() {
        assert_eq!(s.len(), 1);
        assert_eq!(s[0].len(), 3);
    }
    assert_eq!(r.len(), 64);
}
"""
NEEDS="four or more ways on from a point where lines cross, at two points of one part"
BREAKS="the nearest turn is not taken, so that the walk goes around more than one part and parts come back merged or crossing"
