//@ include base.vx
//@ include u128.vx
//@ include div.vx
fn main() {}
