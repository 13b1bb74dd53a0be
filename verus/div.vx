// ---- RoundDivide for UInt128 (the engine's rounding division) ----
verus! {

//@ item split/cross_solver.rs const LAST_BIT_INDEX

pub open spec fn div_close(q: int, n: int, d: int) -> bool { iabs(q * d - n) < d }
pub open spec fn div_nearest(q: int, n: int, d: int) -> bool { 2 * iabs(q * d - n) <= d }

impl UInt128 {
//@ fn split/cross_solver.rs RoundDivide for UInt128 divide_with_rounding
//@ spec
        requires
            0 < divisor < 0x8000_0000_0000_0000,
            self.val() <= divisor * 0x7fff_ffff_ffff_ffff,
        ensures
            div_close(r as int, self.val(), divisor as int),
            // wide operands (high != 0): only `div_close` is claimed, see known finding C08
            self.high == 0 ==> div_nearest(r as int, self.val(), divisor as int),
//@ entry
        let ghost n = self.val();
        let ghost d = divisor as int;
        proof {
            assert(self.high < divisor) by (nonlinear_arith)
                requires self.high * p64() + self.low <= divisor * 0x7fff_ffff_ffff_ffff, self.low >= 0, p64() == 0x1_0000_0000_0000_0000int, divisor > 0;
            lemma_lz(divisor);
            assert forall|x: u64| #[trigger] (x >> 1) == x / 2 by { assert((x >> 1) == x / 2) by (bit_vector); }
            lemma_pow2_64();
            lemma_low_div(self.low as int, d);
            lemma_quot_le(self.low as int / d, d, n);
            assert((self.low as int / d + 1) * d == (self.low as int / d) * d + d) by (nonlinear_arith);
            assert(self.high == 0 ==> n == self.low);
        }
//@ before_loop 0
        let ghost pn = pow2(dn as nat) as int;
        let ghost dd = norm_divisor as int;
        let ghost n0 = norm_dividend_high * p64() + norm_dividend_low;
        proof {
            lemma_normalize(*self, divisor, dn as u64);
            lemma_pow2_64();
            lemma_bit63();
            assert(pow2(0) == 1);
            assert(norm_divisor == divisor * pn);
            assert(n0 == n * pn);
            assert(norm_dividend_high < norm_divisor);
        }
//@ loop 0 for it
        invariant
            one == 0x8000_0000_0000_0000u64,
            LAST_BIT_INDEX == 63,
            norm_divisor == dd, dd > 0,
            norm_dividend_high < norm_divisor,
            quotient < pow2(it.index@ as nat),
            0 <= it.index@ <= 64,
            dd * quotient * p64() + norm_dividend_high * p64() + norm_dividend_low == n0 * pow2(it.index@ as nat),
            norm_dividend_low as int % pow2(it.index@ as nat) as int == 0,
//@ loopbody 0
        let ghost (h0, l0, q0) = (norm_dividend_high, norm_dividend_low, quotient);
        proof {
            lemma_shift_step(norm_dividend_high, norm_dividend_low, norm_divisor, quotient);
            lemma_pow2_unfold((it.index@ + 1) as nat);
            lemma_pow2_64();
            if it.index@ < 64 { lemma_pow2_le(it.index@ as nat + 1, 64); }
        }
//@ loopend 0
        proof {
            lemma_div_step(dd, h0 as int, l0 as int, q0 as int, norm_dividend_high as int, norm_dividend_low as int, quotient as int, n0, it.index@ as nat);
        }
//@ after_loop 0
        proof {
            lemma_pow2_64();
            assert(norm_dividend_low == 0) by { lemma_small_mod(norm_dividend_low as nat, pow2(64)); }
            lemma_pow2_pos(dn as nat);
            lemma_div_exit(n, d, dd, pn, quotient as int, norm_dividend_high as int, n0);
            lemma_quot_le(quotient as int, d, n);
            assert((quotient + 1) * d == quotient * d + d) by (nonlinear_arith);
            lemma_mod_multiples_basic(n - quotient * d, pn);
            lemma_div_by_multiple(n - quotient * d, pn);
            lemma_rem_shift(norm_dividend_high, dn as u64, divisor);
        }
//@ endfn
}

pub proof fn lemma_low_div(low: int, d: int)
    requires 0 <= low, 0 < d,
    ensures
        (low / d) * d <= low < (low / d) * d + d,
        0 <= low / d <= low,
{
    lemma_fundamental_div_mod(low, d);
    assert((low / d) * d == d * (low / d)) by (nonlinear_arith);
    assert(0 <= low / d <= low) by (nonlinear_arith) requires 0 <= low, 0 < d, low == d * (low / d) + low % d, 0 <= low % d < d;
}
pub proof fn lemma_quot_le(q: int, d: int, n: int)
    requires d > 0,
    ensures q * d <= n && n <= d * 0x7fff_ffff_ffff_ffff ==> q <= 0x7fff_ffff_ffff_ffff,
{
    if q * d <= n && n <= d * 0x7fff_ffff_ffff_ffff {
        assert(q <= 0x7fff_ffff_ffff_ffff) by (nonlinear_arith) requires q * d <= d * 0x7fff_ffff_ffff_ffff, d > 0;
    }
}
pub proof fn lemma_div_by_multiple(k: int, p: int)
    requires p > 0,
    ensures (k * p) / p == k,
{
    lemma_div_multiples_vanish(k, p);
    assert(k * p == p * k) by (nonlinear_arith);
}
pub proof fn lemma_bit63()
    ensures (1u64 << 63) == 0x8000_0000_0000_0000u64,
{
    assert((1u64 << 63) == 0x8000_0000_0000_0000u64) by (bit_vector);
}
pub proof fn lemma_pow2_le(a: nat, b: nat)
    requires a <= b,
    ensures pow2(a) <= pow2(b),
{
    if a < b { lemma_pow2_strictly_increases(a, b); }
}
// normalisation: shifting dividend and divisor left by leading_zeros(divisor)
pub proof fn lemma_normalize(x: UInt128, divisor: u64, dn: u64)
    requires
        0 < divisor < 0x8000_0000_0000_0000,
        dn == vstd::std_specs::bits::u64_leading_zeros(divisor),
        x.high < divisor,
    ensures
        0 < dn < 64,
        (divisor << dn) == divisor * pow2(dn as nat),
        (x.low << dn) + ((x.high << dn) | (x.low >> (64 - dn) as u64)) * p64() == x.val() * pow2(dn as nat),
        ((x.high << dn) | (x.low >> (64 - dn) as u64)) < (divisor << dn),
{
    lemma_lz(divisor);
    lemma_pow2_64();
    if dn == 0 { lemma_pow2_le(63, 63); }
    let (xl, xh, xv) = (x.low, x.high, x.val());
    let p = pow2(dn as nat) as int;
    let m = (64 - dn) as u64;
    let pm = pow2(m as nat) as int;
    lemma_pow2_pos(dn as nat);
    lemma_pow2_pos(m as nat);
    lemma_pow2_adds(dn as nat, m as nat);
    assert(p * pm == p64());
    assert(divisor * p < p64()) by (nonlinear_arith) requires divisor < pm, p * pm == p64(), p > 0;
    assert(xh * p < p64()) by (nonlinear_arith) requires xh < divisor, divisor * p < p64(), p > 0;
    lemma_u64_shl_is_mul(divisor, dn);
    lemma_u64_shl_is_mul(xh, dn);
    lemma_u64_shr_is_div(xl, m);
    // low part: (low << dn) = low * p - (low / pm) * 2^64
    let hi = xl >> m;
    let lo = xl << dn;
    assert((xl << dn) == (sub(xl, hi << m)) << dn) by (bit_vector)
        requires hi == xl >> m, m == sub(64u64, dn), 0 < dn < 64;
    lemma_fundamental_div_mod(xl as int, pm);
    assert(hi * pm <= xl) by (nonlinear_arith) requires xl as int == pm * (xl as int / pm) + xl as int % pm, xl as int % pm >= 0, hi == xl as int / pm;
    assert(xl - hi * pm < pm) by (nonlinear_arith) requires xl as int == pm * (xl as int / pm) + xl as int % pm, (xl as int % pm) < pm, hi == xl as int / pm;
    lemma_u64_shl_is_mul(hi, m);
    let rest = sub(xl, hi << m);
    assert(rest * p < p64()) by (nonlinear_arith) requires rest < pm, p * pm == p64(), p > 0;
    lemma_u64_shl_is_mul(rest, dn);
    assert(lo == rest * p);
    assert(hi < p) by (nonlinear_arith) requires hi * pm <= xl, xl < p64(), p * pm == p64(), pm > 0;
    // disjoint or == plus
    let hh = xh << dn;
    let nh = hh | hi;
    assert(nh == add(hh, hi) && hh <= sub(0xffff_ffff_ffff_ffffu64, hi)) by (bit_vector)
        requires nh == hh | hi, hh == xh << dn, hi == xl >> m, m == sub(64u64, dn), 0 < dn < 64;
    assert(nh == xh * p + hi);
    assert(lo + nh * p64() == xv * p) by (nonlinear_arith)
        requires
            lo == rest * p, rest == xl - hi * pm, nh == xh * p + hi, p * pm == p64(),
            xv == xh * p64() + xl;
    assert(nh < divisor * p) by (nonlinear_arith) requires nh == xh * p + hi, hi < p, xh <= divisor - 1, p > 0;
}
// one bit of the shift-subtract loop, in machine arithmetic
pub proof fn lemma_shift_step(h: u64, l: u64, dv: u64, q: u64)
    requires h < dv,
    ensures
        ({
            let bit = (h & 0x8000_0000_0000_0000u64) != 0;
            let h1 = (h << 1) | (l >> 63);
            let l1 = l << 1;
            &&& (if bit { p64() } else { 0 }) + h1 == 2 * h + (if l >= 0x8000_0000_0000_0000u64 { 1int } else { 0 })
            &&& l1 + (if l >= 0x8000_0000_0000_0000u64 { p64() } else { 0 }) == 2 * l
            &&& q < 0x8000_0000_0000_0000u64 ==> (q << 1) == 2 * q && ((q << 1) | 1) == 2 * q + 1
        }),
{
    assert((h & 0x8000_0000_0000_0000u64) != 0 <==> h >= 0x8000_0000_0000_0000u64) by (bit_vector);
    let top = if h >= 0x8000_0000_0000_0000u64 { 0x8000_0000_0000_0000u64 } else { 0u64 };
    let ltop = if l >= 0x8000_0000_0000_0000u64 { 0x8000_0000_0000_0000u64 } else { 0u64 };
    let lb = if l >= 0x8000_0000_0000_0000u64 { 1u64 } else { 0u64 };
    let h2 = sub(h, top);
    let l2 = sub(l, ltop);
    assert(((h << 1) | (l >> 63)) == add(mul(2u64, h2), lb)) by (bit_vector)
        requires h2 == sub(h, top), top == (if h >= 0x8000_0000_0000_0000u64 { 0x8000_0000_0000_0000u64 } else { 0u64 }), lb == (if l >= 0x8000_0000_0000_0000u64 { 1u64 } else { 0u64 });
    assert((l << 1) == mul(2u64, l2)) by (bit_vector)
        requires l2 == sub(l, ltop), ltop == (if l >= 0x8000_0000_0000_0000u64 { 0x8000_0000_0000_0000u64 } else { 0u64 });
    if q < 0x8000_0000_0000_0000u64 {
        assert((q << 1) == mul(2u64, q) && ((q << 1) | 1) == add(mul(2u64, q), 1)) by (bit_vector) requires q < 0x8000_0000_0000_0000u64;
    }
}
// the same step over integers
pub proof fn lemma_div_step(dd: int, h0: int, l0: int, q0: int, h: int, l: int, q: int, n0: int, i: nat)
    requires
        dd > 0, i < 64, 0 <= l < p64(),
        (q == 2 * q0 && h * p64() + l == 2 * (h0 * p64() + l0)) || (q == 2 * q0 + 1 && (h + dd) * p64() + l == 2 * (h0 * p64() + l0)),
        dd * q0 * p64() + h0 * p64() + l0 == n0 * pow2(i),
        l0 % (pow2(i) as int) == 0,
        l == 2 * l0 || l == 2 * l0 - p64(),
    ensures
        dd * q * p64() + h * p64() + l == n0 * pow2(i + 1),
        l % (pow2(i + 1) as int) == 0,
{
    lemma_pow2_unfold(i + 1);
    lemma_pow2_pos(i);
    lemma_pow2_64();
    let p = pow2(i) as int;
    let p2 = pow2(i + 1) as int;
    assert(p2 == 2 * p);
    assert(n0 * (2 * p) == 2 * (n0 * p)) by (nonlinear_arith);
    if q == 2 * q0 {
        assert(dd * q * p64() == 2 * (dd * q0 * p64())) by (nonlinear_arith) requires q == 2 * q0;
    } else {
        assert(dd * q * p64() == 2 * (dd * q0 * p64()) + dd * p64()) by (nonlinear_arith) requires q == 2 * q0 + 1;
        assert((h + dd) * p64() == h * p64() + dd * p64()) by (nonlinear_arith);
    }
    lemma_fundamental_div_mod(l0, p);
    let k = l0 / p;
    lemma_pow2_adds(i + 1, (63 - i) as nat);
    let j = pow2((63 - i) as nat) as int;
    assert(2 * l0 == k * p2) by (nonlinear_arith) requires l0 == p * k, p2 == 2 * p;
    if l == 2 * l0 {
        lemma_mod_multiples_basic(k, p2);
    } else {
        assert(l == (k - j) * p2) by (nonlinear_arith) requires 2 * l0 == k * p2, l == 2 * l0 - p64(), p64() == p2 * j;
        lemma_mod_multiples_basic(k - j, p2);
    }
}
pub proof fn lemma_div_exit(n: int, d: int, dd: int, pn: int, q: int, h: int, n0: int)
    requires
        pn > 0, d > 0, dd == d * pn, n0 == n * pn, 0 <= h < dd,
        dd * q * p64() + h * p64() == n0 * p64(),
    ensures
        q * d <= n < q * d + d,
        h == (n - q * d) * pn,
{
    assert(dd * q + h == n0) by (nonlinear_arith) requires dd * q * p64() + h * p64() == n0 * p64(), p64() > 0;
    assert((n - q * d) * pn == h) by (nonlinear_arith) requires dd * q + h == n0, dd == d * pn, n0 == n * pn;
    assert(q * d <= n) by (nonlinear_arith) requires (n - q * d) * pn == h, h >= 0, pn > 0;
    assert(n < q * d + d) by (nonlinear_arith) requires (n - q * d) * pn == h, h < d * pn, pn > 0;
}
pub proof fn lemma_rem_shift(h: u64, dn: u64, divisor: u64)
    requires 0 < dn < 64, h as int % pow2(dn as nat) as int == 0,
    ensures (h << (64 - dn) as u64) == 0, (0u64 | 0u64) == 0, (h >> dn) == h as int / pow2(dn as nat) as int, (0u64 >> dn) == 0,
{
    lemma_u64_shr_is_div(h, dn);
    let k = h >> dn;
    lemma_pow2_pos(dn as nat);
    lemma_fundamental_div_mod(h as int, pow2(dn as nat) as int);
    assert(h == k * pow2(dn as nat)) by (nonlinear_arith)
        requires h as int == pow2(dn as nat) as int * (h as int / pow2(dn as nat) as int) + 0, k == h as int / pow2(dn as nat) as int;
    lemma_u64_shl_is_mul(k, dn);
    let m = (64 - dn) as u64;
    assert(h << m == 0) by (bit_vector) requires h == k << dn, m == sub(64u64, dn), 0 < dn < 64;
    assert((0u64 >> dn) == 0) by (bit_vector);
    assert((0u64 | 0u64) == 0) by (bit_vector);
}

} // verus!
