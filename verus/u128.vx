// ---- 128-bit helpers: i_float UInt128 and the engine's rounding division ----
verus! {

pub open spec fn p64() -> int { 0x1_0000_0000_0000_0000 }

//@ item i_float:u128.rs struct UInt128

impl UInt128 {
    pub open spec fn val(self) -> int { self.high * p64() + self.low }

//@ fn i_float:u128.rs UInt128 new
//@ spec
        ensures r.high == high, r.low == low
//@ endfn

//@ fn i_float:u128.rs UInt128 sum
//@ spec
        ensures r.0 + r.1 * p64() == a + b + c, r.1 <= 2
//@ endfn

//@ fn i_float:u128.rs UInt128 multiply
//@ spec
        ensures r.val() == a * b
//@ entry
        proof {
            vstd::std_specs::bits::axiom_u64_leading_zeros(a);
            vstd::std_specs::bits::axiom_u64_leading_zeros(b);
            lemma_small_product(a, b);
            lemma_split32(a);
            lemma_split32(b);
            lemma_wide_product(a as int, b as int, (a >> 32) as int, (a & 0xffff_ffff) as int, (b >> 32) as int, (b & 0xffff_ffff) as int);
            assert forall|x: u64| #[trigger] (x & 0xffff_ffffu64) + (x >> 32) * 0x1_0000_0000 == x && (x & 0xffff_ffffu64) < 0x1_0000_0000 && (x >> 32) < 0x1_0000_0000 by { lemma_split32(x); }
            assert forall|x: u64, y: u64| y < 0x1_0000_0000 implies #[trigger] ((x << 32) | y) == (x & 0xffff_ffff) * 0x1_0000_0000 + y by { lemma_join32(x, y); }
            assert forall|x: u64| x <= 2 implies #[trigger] (x << 32) == x * 0x1_0000_0000 by { lemma_shl32(x); }
            let ab00 = (a & 0xffff_ffff) * (b & 0xffff_ffff);
            assert forall|m: int, mp: u64, mh: int| #![trigger wide_mid(m, mp as int, mh)] wide_mid(m, mp as int, mh) && 0 <= mh <= 2
                && m == (a & 0xffff_ffff) * (b >> 32) + (a >> 32) * (b & 0xffff_ffff) + ((ab00 as u64) >> 32) as int
                implies ((a >> 32) * (b >> 32) + (mp >> 32) + mh * 0x1_0000_0000) * p64() + (mp & 0xffff_ffff) * 0x1_0000_0000 + ((ab00 as u64) & 0xffff_ffff) == a * b
                    && (a >> 32) * (b >> 32) + (mp >> 32) + mh * 0x1_0000_0000 < p64() by {
                lemma_wide_total(a, b, mp, mh);
            }
        }
//@ after m_high
        proof { assert(wide_mid((m_partial as int) + m_high * p64(), m_partial as int, m_high as int)); }
//@ endfn
}

pub open spec fn wide_mid(m: int, mp: int, mh: int) -> bool { m == mp + mh * p64() }

pub proof fn lemma_split32(x: u64)
    ensures (x & 0xffff_ffffu64) + (x >> 32) * 0x1_0000_0000 == x, (x & 0xffff_ffffu64) < 0x1_0000_0000, (x >> 32) < 0x1_0000_0000,
{
    assert((x & 0xffff_ffffu64) < 0x1_0000_0000u64 && (x >> 32) < 0x1_0000_0000u64) by (bit_vector);
    assert(add(x & 0xffff_ffffu64, mul(x >> 32, 0x1_0000_0000u64)) == x) by (bit_vector);
}
pub proof fn lemma_join32(x: u64, y: u64)
    requires y < 0x1_0000_0000,
    ensures ((x << 32) | y) == (x & 0xffff_ffff) * 0x1_0000_0000 + y,
{
    assert(((x << 32) | y) == add(mul(x & 0xffff_ffffu64, 0x1_0000_0000u64), y)) by (bit_vector) requires y < 0x1_0000_0000u64;
    assert((x & 0xffff_ffffu64) < 0x1_0000_0000u64) by (bit_vector);
}
pub proof fn lemma_shl32(x: u64)
    requires x <= 2,
    ensures (x << 32) == x * 0x1_0000_0000,
{
    assert((x << 32) == mul(x, 0x1_0000_0000u64)) by (bit_vector) requires x <= 2;
}
pub proof fn lemma_small_product(a: u64, b: u64)
    ensures vstd::std_specs::bits::u64_leading_zeros(a) + vstd::std_specs::bits::u64_leading_zeros(b) >= 64 ==> a * b < p64(),
{
    let la = vstd::std_specs::bits::u64_leading_zeros(a);
    let lb = vstd::std_specs::bits::u64_leading_zeros(b);
    if la + lb >= 64 {
        lemma_lz(a);
        lemma_lz(b);
        let pa = pow2((64 - la) as nat) as int;
        let pb = pow2((64 - lb) as nat) as int;
        lemma_pow2_adds((64 - la) as nat, (64 - lb) as nat);
        lemma_pow2_adds((128 - la - lb) as nat, (la + lb - 64) as nat);
        lemma_pow2_pos((la + lb - 64) as nat);
        lemma_pow2_64();
        assert(pa * pb <= p64()) by (nonlinear_arith)
            requires pa * pb == pow2((128 - la - lb) as nat), pow2((128 - la - lb) as nat) * pow2((la + lb - 64) as nat) == p64(), pow2((la + lb - 64) as nat) >= 1;
        assert(a * b < pa * pb) by (nonlinear_arith) requires 0 <= a < pa, 0 <= b < pb;
    }
}
pub proof fn lemma_wide_product(a: int, b: int, a1: int, a0: int, b1: int, b0: int)
    requires a == a1 * 0x1_0000_0000 + a0, b == b1 * 0x1_0000_0000 + b0, 0 <= a1 < 0x1_0000_0000, 0 <= a0 < 0x1_0000_0000, 0 <= b1 < 0x1_0000_0000, 0 <= b0 < 0x1_0000_0000,
    ensures
        a * b == a1 * b1 * p64() + (a0 * b1 + a1 * b0) * 0x1_0000_0000 + a0 * b0,
        0 <= a0 * b0 <= 0xffff_fffe_0000_0001, 0 <= a1 * b1 <= 0xffff_fffe_0000_0001, 0 <= a0 * b1 <= 0xffff_fffe_0000_0001, 0 <= a1 * b0 <= 0xffff_fffe_0000_0001,
{
    let w = 0x1_0000_0000int;
    let (p, q, s, t) = (a1 * b1, a1 * b0, a0 * b1, a0 * b0);
    assert((a1 * w + a0) * (b1 * w + b0) == (a1 * w) * (b1 * w) + (a1 * w) * b0 + a0 * (b1 * w) + a0 * b0) by (nonlinear_arith);
    assert((a1 * w) * (b1 * w) == p * (w * w)) by (nonlinear_arith) requires p == a1 * b1;
    assert((a1 * w) * b0 == q * w) by (nonlinear_arith) requires q == a1 * b0;
    assert(a0 * (b1 * w) == s * w) by (nonlinear_arith) requires s == a0 * b1;
    assert(w * w == p64()) by (compute);
    assert(0 <= a0 * b0 <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= a0 <= 0xffff_ffff, 0 <= b0 <= 0xffff_ffff;
    assert(0 <= a1 * b1 <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= a1 <= 0xffff_ffff, 0 <= b1 <= 0xffff_ffff;
    assert(0 <= a0 * b1 <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= a0 <= 0xffff_ffff, 0 <= b1 <= 0xffff_ffff;
    assert(0 <= a1 * b0 <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= a1 <= 0xffff_ffff, 0 <= b0 <= 0xffff_ffff;
}
pub proof fn lemma_wide_total(a: u64, b: u64, mp: u64, mh: int)
    requires
        0 <= mh <= 2,
        mp + mh * p64() == (a & 0xffff_ffff) * (b >> 32) + (a >> 32) * (b & 0xffff_ffff) + ((((a & 0xffff_ffff) * (b & 0xffff_ffff)) as u64) >> 32) as int,
    ensures
        ((a >> 32) * (b >> 32) + (mp >> 32) + mh * 0x1_0000_0000) * p64() + (mp & 0xffff_ffff) * 0x1_0000_0000 + ((((a & 0xffff_ffff) * (b & 0xffff_ffff)) as u64) & 0xffff_ffff) == a * b,
        (a >> 32) * (b >> 32) + (mp >> 32) + mh * 0x1_0000_0000 < p64(),
{
    lemma_split32(a);
    lemma_split32(b);
    let (a1, a0, b1, b0) = ((a >> 32) as int, (a & 0xffff_ffff) as int, (b >> 32) as int, (b & 0xffff_ffff) as int);
    lemma_wide_product(a as int, b as int, a1, a0, b1, b0);
    let ab = (a0 * b0) as u64;
    lemma_split32(ab);
    lemma_split32(mp);
    let h = a1 * b1 + (mp >> 32) + mh * 0x1_0000_0000;
    let l = (mp & 0xffff_ffff) * 0x1_0000_0000 + (ab & 0xffff_ffff);
    assert(h * p64() + l == a * b) by {
        assert(h * p64() == a1 * b1 * p64() + (mp >> 32) * p64() + mh * 0x1_0000_0000 * p64()) by (nonlinear_arith)
            requires h == a1 * b1 + (mp >> 32) + mh * 0x1_0000_0000;
    }
    assert(a * b <= (p64() - 1) * (p64() - 1)) by (nonlinear_arith) requires 0 <= a <= p64() - 1, 0 <= b <= p64() - 1;
    assert(h < p64()) by (nonlinear_arith) requires h * p64() + l == a * b, l >= 0, a * b <= (p64() - 1) * (p64() - 1);
}

pub proof fn lemma_pow2_64()
    ensures pow2(64) == p64(), pow2(0) == 1, pow2(63) == 0x8000_0000_0000_0000,
{
    lemma2_to64();
    assert(pow2(64) == p64()) by (compute);
    lemma_pow2_unfold(64);
}
// meaning of leading_zeros in terms of powers of two
pub proof fn lemma_lz(a: u64)
    ensures
        0 <= vstd::std_specs::bits::u64_leading_zeros(a) <= 64,
        a == 0 <==> vstd::std_specs::bits::u64_leading_zeros(a) == 64,
        a < pow2((64 - vstd::std_specs::bits::u64_leading_zeros(a)) as nat),
        a != 0 ==> a >= pow2((63 - vstd::std_specs::bits::u64_leading_zeros(a)) as nat),
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(a);
    let lz = vstd::std_specs::bits::u64_leading_zeros(a);
    lemma_pow2_64();
    if a != 0 {
        let s = sub(63u64, lz as u64);
        assert(s == (63 - lz) as u64);
        assert((a >> s) & 1u64 != 0u64);
        assert(a >> s >= 1) by (bit_vector) requires (a >> s) & 1u64 != 0u64;
        lemma_u64_shr_is_div(a, s);
        lemma_pow2_pos(s as nat);
        assert(a >= pow2(s as nat)) by (nonlinear_arith) requires a as int / pow2(s as nat) as int >= 1, pow2(s as nat) > 0, a >= 0;
    }
    if lz > 0 && lz < 64 {
        let s = sub(64u64, lz as u64);
        assert(s == (64 - lz) as u64);
        assert((a >> s) == 0);
        lemma_u64_shr_is_div(a, s);
        lemma_pow2_pos(s as nat);
        assert(a < pow2(s as nat)) by (nonlinear_arith) requires a as int / pow2(s as nat) as int == 0, pow2(s as nat) > 0, a >= 0;
    }
}

} // verus!
