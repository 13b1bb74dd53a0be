use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::bits::*;
verus! {
global size_of usize == 8;
//@ item core/solver.rs enum Strategy
//@ item core/solver.rs struct Precision
//@ item core/solver.rs struct MultithreadOptions
//@ item core/solver.rs struct Solver
//@ item split/snap_radius.rs struct SnapRadius
//@ item split/solver.rs struct SplitSolver

pub open spec fn capped(a: int) -> int { if a <= 60 { a } else { 60 } }
// the exponent after n passes
pub open spec fn exponent(start: int, step: int, n: nat) -> int { capped(start + step * n) }

impl SnapRadius {
    pub open spec fn ok(&self) -> bool { self.current <= 60 }
//@ item split/snap_radius.rs const MAX in SnapRadius
//@ fn split/snap_radius.rs SnapRadius increment
//@ sub <<<?Self::MAX.min(self.current.saturating_add(self.step))>>> <<<min_size(Self::MAX, self.current.saturating_add(self.step))>>>
//@ spec
        requires old(self).ok()
        ensures final(self).ok(), final(self).step == old(self).step, final(self).current == capped(old(self).current + old(self).step)
//@ endfn
//@ fn split/snap_radius.rs SnapRadius radius
//@ spec
        requires self.ok()
        ensures r == pow2(self.current as nat), r >= 1
//@ entry
        proof {
            let c = self.current;
            lemma_pow2_small(c as nat);
            lemma_u64_shl_is_mul(1, c as u64);
            assert(c <= 60 ==> 1u64 << (c as u64) <= 0x1000_0000_0000_0000u64) by (bit_vector);
            assert(c <= 60 ==> (1i64 << c) as u64 == 1u64 << (c as u64)) by (bit_vector);
            assert(c <= 60 ==> (1i64 << c) >= 1) by (bit_vector);
        }
//@ endfn
}
pub proof fn lemma_pow2_small(n: nat)
    requires n <= 60
    ensures 1 <= pow2(n) <= 0x1000_0000_0000_0000
    decreases 60 - n
{
    lemma2_to64_rest();
    lemma_pow2_pos(n);
    if n < 60 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(n, 60); }
}
impl SplitSolver {
//@ fn split/snap_radius.rs SplitSolver snap_radius
//@ sub <<<?SnapRadius::MAX.min(self.solver.precision.start)>>> <<<min_size(SnapRadius::MAX, self.solver.precision.start)>>>
//@ spec
        ensures r.ok(), r.current == capped(self.solver.precision.start as int), r.step == self.solver.precision.progression
//@ endfn
}
pub fn min_size(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

// n passes from a starting value: the capped exponent of the plain sum
pub proof fn lemma_passes(start: nat, step: nat, n: nat)
    ensures
        exponent(start as int, step as int, 0) == capped(start as int),
        exponent(start as int, step as int, n + 1) == capped(exponent(start as int, step as int, n) + step),
        exponent(start as int, step as int, n) <= exponent(start as int, step as int, n + 1),
{
    assert(step * (n + 1) == step * n + step) by (nonlinear_arith);
    assert(step * n >= 0) by (nonlinear_arith);
    assert(step * 0 == 0);
}
}
fn main() {}
