ID="b14-radius-stops-at-31"; PROP="C14"; FILE="split/snap_radius.rs"
EDITS=[("split/snap_radius.rs","1 << self.current","(1u32 << self.current.min(31)) as i64")]
DEMO="""
#[test]
fn t() {
    for k in 0..=60usize {
        let r = SnapRadius { current: k, step: 1 };
        assert_eq!(r.radius(), 1i64 << k);
    }
}
"""
NEEDS="a pass with an exponent above 31, after many passes or with an unusual precision setting"
BREAKS="the radius stops growing at 2^31"
