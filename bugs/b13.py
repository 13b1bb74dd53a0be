ID="b13-first-border"; PROP="C13"; FILE="split/grid_layout.rs"
EDITS=[("split/grid_layout.rs","if bin_index > 0 && fragment.x_segment.a.x == self.layout.pos(bin_index) {","if bin_index > 1 && fragment.x_segment.a.x == self.layout.pos(bin_index) {")]
DEMO="""
#[test]
fn t() {
    use i_float::int::point::IntPoint;
    let mut b = FragmentBuffer::new(GridLayout { min_x: 0, max_x: 12, power: 1 });
    b.add_segment(0, XSegment { a: IntPoint { x: 2, y: -5 }, b: IntPoint { x: 2, y: 5 } });
    b.add_segment(1, XSegment { a: IntPoint { x: 4, y: -5 }, b: IntPoint { x: 4, y: 5 } });
    assert!(b.on_border.contains_key(&1));
    assert!(b.on_border.contains_key(&2));
}
"""
NEEDS="a vertical edge exactly on the border between the first two columns, with an edge from the left ending on it"
BREAKS="the edge is not recorded for its border, so the end of the other edge never splits it"
