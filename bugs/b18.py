ID="b18-half-of-negative-area"; PROP="C18"; FILE="string/split.rs"
EDITS=[("string/split.rs","let abs_area = self.unsafe_area().unsigned_abs() as usize >> 1;","let abs_area = (self.unsafe_area() >> 1).unsigned_abs() as usize;")]
DEMO="""
#[test]
fn t() {
    let p = |v: &[(i32, i32)]| v.iter().map(|&(x, y)| IntPoint::new(x, y)).collect::<Vec<_>>();
    // the area is four and a half in both directions
    let c = p(&[(0, 0), (3, 0), (0, 3)]);
    let r = p(&[(0, 3), (3, 0), (0, 0)]);
    for m in [4, 5] {
        assert_eq!(c.clone().split_loops(m).len(), r.clone().split_loops(m).len());
        assert_eq!(c.clone().split_loops(m).len(), (m == 4) as usize);
    }
}
"""
NEEDS="a loop of odd doubled area in one direction, and a minimum area just above half of it"
BREAKS="the area is rounded up in one direction, so a loop below the limit is kept"
