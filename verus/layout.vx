// ---- the columns laid out, emptied and sized ----
#![feature(allocator_api)]
//@ import grid.vx
verus! {
pub open spec fn cols_of(l: GridLayout) -> int { col(l, l.max_x as int) + 1 }
pub open spec fn blank(b: FragmentBuffer) -> bool {
    b.groups@.len() == cols_of(b.layout) && (forall|c: int| 0 <= c < b.groups@.len() ==> (#[trigger] b.groups@[c])@.len() == 0) && b.on_border@ == Map::<usize, Vec<BorderVSegment>>::empty()
}
pub assume_specification[ usize::ilog2 ](a: usize) -> (r: u32)
    requires a > 0
    ensures pow2(r as nat) <= a < pow2((r + 1) as nat);
#[verifier::external_body]
pub fn empty_lists(n: usize) -> (r: Vec<Vec<Fragment>>)
    ensures r@.len() == n, forall|c: int| 0 <= c < n ==> (#[trigger] r@[c])@.len() == 0
{ vec![Vec::new(); n] }
#[verifier::external_body]
pub fn zeros(n: usize) -> (r: Vec<usize>)
    ensures r@.len() == n, forall|c: int| 0 <= c < n ==> #[trigger] r@[c] == 0
{ vec![0; n] }
pub fn max_of(a: i32, b: i32) -> (r: i32) ensures r == max_i(a as int, b as int) { if a >= b { a } else { b } }
pub proof fn lemma_count_log(n: int, log: nat)
    requires pow2(log) <= n <= usize::MAX
    ensures log <= 63
{
    lemma2_to64();
    lemma2_to64_rest();
    if log > 63 { lemma_pow2_increases(64, log); }
}
pub proof fn lemma_cols_fit(l: GridLayout)
    requires layout_ok(l)
    ensures 1 <= cols_of(l) <= 0x8000_0000
{
    lemma_col(l, l.max_x as int);
    lemma_step(l);
    let (c, d) = (col(l, l.max_x as int), step(l));
    assert(c <= c * d) by (nonlinear_arith) requires c >= 0, d >= 1;
}
impl GridLayout {
//@ fn split/grid_layout.rs GridLayout new
//@ sub <<<fn new<I>(iter: I, count: usize) -> Option<Self> where I: Iterator<Item=XSegment>,>>> <<<fn new(iter: Vec<XSegment>, count: usize) -> Option<Self>>>>
//@ sub <<<let mut iter = iter.peekable(); let first = iter.peek()?;>>> <<<if iter.len() == 0 { return None; } let first = iter[0];>>>
//@ sub <<<for s in iter {>>> <<<for q in 0..iter.len() { let s = iter[q];>>>
//@ sub <<<s.b.x.max(max_x)>>> <<<max_of(s.b.x, max_x)>>>
//@ spec
        requires
            count == iter@.len(), forall|i: int| 0 <= i < iter@.len() ==> seg_ok(#[trigger] iter@[i]) && iter@[0].a.x <= iter@[i].a.x
        ensures
            r is Some ==> layout_ok(r->Some_0) && iter@.len() > 0 && r->Some_0.min_x == iter@[0].a.x && forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).b.x <= r->Some_0.max_x
//@ loop 0
            invariant
                -0x4000_0000 < max_x < 0x4000_0000, iter@[0].b.x <= max_x, forall|i: int| 0 <= i < iter@.len() ==> seg_ok(#[trigger] iter@[i]), forall|i: int| 0 <= i < q ==> (#[trigger] iter@[i]).b.x <= max_x
//@ before max_power
        proof { lemma_count_log(count as int, log as nat); let g = log; assert(g <= 63 ==> g >> 1u32 <= 31) by (bit_vector); }
//@ endfn
}
impl FragmentBuffer {
//@ fn split/grid_layout.rs FragmentBuffer new
//@ sub <<<vec![Vec::new(); n]>>> <<<empty_lists(n)>>>
//@ spec
        requires layout_ok(layout)
        ensures r.layout == layout, blank(r)
//@ entry
        proof { lemma_cols_fit(layout); }
//@ endfn
//@ fn split/grid_layout.rs FragmentBuffer clear
//@ sub <<<for group in self.groups.iter_mut() {>>> <<<for k in 0..self.groups.len() { let group = &mut self.groups[k];>>>
//@ spec
        requires old(self).groups@.len() == cols_of(old(self).layout)
        ensures final(self).layout == old(self).layout, blank(*final(self))
//@ loop 0
            invariant
                self.layout == old(self).layout, old(self).groups@.len() == cols_of(old(self).layout), self.groups@.len() == old(self).groups@.len(), forall|c: int| 0 <= c < k ==> (#[trigger] self.groups@[c])@.len() == 0
//@ exit
        broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ endfn
//@ fn split/grid_layout.rs FragmentBuffer init_fragment_buffer
//@ sub <<<fn init_fragment_buffer<I>(&mut self, iter: I) where I: Iterator<Item=XSegment>,>>> <<<fn init_fragment_buffer(&mut self, iter: Vec<XSegment>)>>>
//@ sub <<<vec![0; $A]>>> <<<zeros($A)>>>
//@ sub <<<for s in iter {>>> <<<for q in 0..iter.len() { let s = iter[q];>>>
//@ sub <<<for $C in counts.iter_mut().take($A).skip($B) { *$D += $E; }>>> <<<for z in $B..$A { counts[z] = counts[z] + $E; }>>>
//@ sub <<<counts[$A] += $B;>>> <<<counts[$A] = counts[$A] + $B;>>>
//@ sub <<<for (i, group) in self.groups.iter_mut().enumerate() {>>> <<<for i in 0..self.groups.len() { let group = &mut self.groups[i];>>>
//@ spec
        requires forall|i: int| 0 <= i < iter@.len() ==> #[trigger] fits(*old(self), iter@[i])
        ensures
            final(self).layout == old(self).layout, final(self).on_border == old(self).on_border, final(self).groups@.len() == old(self).groups@.len(),
            forall|c: int| 0 <= c < old(self).groups@.len() ==> (#[trigger] final(self).groups@[c])@ == old(self).groups@[c]@
//@ loop 0
            invariant
                *self == *old(self), counts@.len() == self.groups@.len(), forall|i: int| 0 <= i < iter@.len() ==> #[trigger] fits(*self, iter@[i]),
                forall|c: int| 0 <= c < counts@.len() ==> #[trigger] counts@[c] <= q
//@ loopbody 0
            proof { assert(fits(*self, iter@[q as int])); lemma_fits(*self, iter@[q as int]); }
//@ loop 1
                    invariant
                        i1 < counts@.len(), i0 <= i1, q < iter.len(), counts@.len() == self.groups@.len(),
                        forall|c: int| 0 <= c < counts@.len() ==> #[trigger] counts@[c] <= (if i0 <= c < z { q + 1 } else { q as int })
//@ loop 2
            invariant
                counts@.len() == old(self).groups@.len(), self.layout == old(self).layout, self.on_border == old(self).on_border, self.groups@.len() == old(self).groups@.len(),
                forall|c: int| 0 <= c < old(self).groups@.len() ==> (#[trigger] self.groups@[c])@ == old(self).groups@[c]@
//@ endfn
}
}
fn main() {}
