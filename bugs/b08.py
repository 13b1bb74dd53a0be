ID="b08-half-of-odd-divisor"; PROP="C08"; FILE="split/cross_solver.rs"
EDITS=[("split/cross_solver.rs","""            let remainder = self.low - result * divisor;
            return if remainder >= (divisor + 1) >> 1 {""","""            let remainder = self.low - result * divisor;
            return if remainder >= divisor >> 1 {""")]
DEMO="""
#[test]
fn t() {
    let p = |x, y| IntPoint { x, y };
    // the lines y = x and y = 2 x + 1 ... scaled by unimodular maps: determinant one, crossing on the grid
    for k in 1..40 {
        // t along (k, 1), o along (k + 1, 1) through the grid point (7 k, 7): determinant k - (k + 1) = -1
        let c = p(7 * k, 7);
        let t = XSegment { a: p(c.x - k, c.y - 1), b: p(c.x + 2 * k, c.y + 2) };
        let o = XSegment { a: p(c.x - k - 1, c.y - 1), b: p(c.x + k + 1, c.y + 1) };
        let r = CrossSolver::cross_point(&t, &o);
        assert_eq!(r, c);
    }
    for d in 1..50u64 { for n in 0..200u64 {
        let r = UInt128 { high: 0, low: n }.divide_with_rounding(d);
        assert_eq!(r, (2 * n + d) / (2 * d), "{} / {}", n, d);
    } }
}
"""
NEEDS="an odd determinant with a remainder of exactly its floored half, or a determinant of one"
BREAKS="the division rounds up below the half; with a determinant of one the crossing point is a whole unit off"
