//@ include base.vx
//@ include vec.vx
verus!{}
fn main(){}
