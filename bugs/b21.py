ID="b21-far-second-line"; PROP="C21"; FILE="float/string_overlay.rs"
EDITS=[("float/string_overlay.rs","        let iter = shape.iter_paths().chain(string.iter_paths()).flatten();","        // the lines lie along the shape: its points and those of the first line give the scale\n        let iter = shape.iter_paths().chain(string.iter_paths().take(1)).flatten();")]
DEMO="""
#[test]
fn t() {
    use crate::float::slice::FloatSlice;
    let shape = [[0.0, 0.0], [10.0, 0.0], [10.0, 10.0], [0.0, 10.0]].to_vec();
    // halves at y = 5, and a line from far below to far above, falling from (0, 10) to (10, 0)
    let lines = [[[-5.0, 5.0], [15.0, 5.0]].to_vec(), [[-100.0, 110.0], [300.0, -290.0]].to_vec()].to_vec();
    let shapes = shape.slice_by(&lines, FillRule::NonZero);
    let mut a: Vec<i64> = shapes.iter().map(|s| {
        assert_eq!(s.len(), 1);
        let c = &s[0];
        let mut a = 0.0;
        for i in 0..c.len() { let (p, q) = (c[i], c[(i + 1) % c.len()]); a += p[0] * q[1] - p[1] * q[0]; }
        (a * 50.0f64).round() as i64
    }).collect();
    a.sort();
    assert_eq!(a, [1250, 1250, 3750, 3750]);
}
"""
NEEDS="two or more lines, one after the first reaching more than about twice as far from the middle as the shape and the first line"
BREAKS="the far ends do not fit the integer range and are moved, so that the shape is cut elsewhere than the line goes"
