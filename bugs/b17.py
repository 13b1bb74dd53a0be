ID="b17-five-points-not-divided"; PROP="C17"; FILE="core/divide.rs"
EDITS=[("core/divide.rs","        if self.len() < 3 {","        // two contours that touch have six points at least\n        if self.len() < 6 {")]
DEMO="""
#[test]
fn t() {
    let p = |v: &[(i32, i32)]| v.iter().map(|&(x, y)| IntPoint::new(x, y)).collect::<Vec<_>>();
    let c = p(&[(0, 0), (4, 0), (4, 4), (0, 0), (-3, 3)]);
    let parts = c.decompose_contours().unwrap();
    assert_eq!(parts.iter().map(|c| c.len()).sum::<usize>(), 5);
    for c in parts { for i in 0..c.len() { for j in 0..i { assert_ne!(c[i], c[j]); } } }
}
"""
NEEDS="a contour of three to five points that meets itself"
BREAKS="it comes back undivided"
