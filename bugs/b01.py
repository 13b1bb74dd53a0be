ID="b01-evenodd-negative"; PROP="C01"; FILE="core/link.rs"
EDITS=[("core/link.rs","""        let subj_top = 1 & top.subj as SegmentFill;
        let subj_bot = 1 & bot.subj as SegmentFill;
        let clip_top = 1 & top.clip as SegmentFill;""","""        let subj_top = (top.subj % 2 == 1) as SegmentFill;
        let subj_bot = 1 & bot.subj as SegmentFill;
        let clip_top = 1 & top.clip as SegmentFill;""")]
DEMO="""
#[test]
fn t() {
    let b = ShapeCountBoolean { subj: 0, clip: 0 };
    let (_, f) = EvenOddStrategy::add_and_fill(ShapeCountBoolean { subj: -1, clip: 0 }, b);
    assert_eq!(f, 1);
    let (_, f) = EvenOddStrategy::add_and_fill(ShapeCountBoolean { subj: 1, clip: 0 }, b);
    assert_eq!(f, 1);
}
"""
NEEDS="a subject contour running the other way round, so that the count above an edge is negative and odd, under EvenOdd"
BREAKS="the remainder of a negative count is -1, so the area above the edge is taken as outside"
