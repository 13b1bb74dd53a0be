// ---- directions to the right, ordered by turning ----
verus! {
// to the right, or straight up
pub open spec fn right(v: FixVec) -> bool { v.x > 0 || (v.x == 0 && v.y > 0) }
pub proof fn lemma_area_cp(a: IntPoint, b: IntPoint, c: IntPoint)
    requires in_range(a), in_range(b), in_range(c)
    ensures area2(a, b, c) == -cp(diff(b, a), diff(c, a)), cp(diff(b, a), diff(c, a)) == -cp(diff(c, a), diff(b, a))
{
    let (u, v, p, q) = (b.x - a.x, b.y - a.y, c.x - a.x, c.y - a.y);
    assert(u * (v - q) - (u - p) * v == -(u * q - v * p)) by (nonlinear_arith);
    assert(u * q - v * p == -(p * v - q * u)) by (nonlinear_arith);
}
// turning to the left orders the directions to the right
pub proof fn lemma_right(p: FixVec, q: FixVec)
    requires vec_ok(p), vec_ok(q), right(p), right(q)
    ensures cp(p, q) > 0 <==> before(FixVec { x: 0, y: -1i64 }, p, q, false)
{
    let u = FixVec { x: 0, y: -1i64 };
    assert(cp(u, p) == p.x && cp(u, q) == q.x && dp(u, p) == -p.y && dp(u, q) == -q.y) by (nonlinear_arith) requires u.x == 0, u.y == -1;
    assert(p.x > 0 && q.x == 0 && q.y > 0 ==> p.x * q.y - p.y * q.x > 0) by (nonlinear_arith);
    assert(q.x > 0 && p.x == 0 && p.y > 0 ==> p.x * q.y - p.y * q.x < 0) by (nonlinear_arith);
    assert(q.x == 0 && p.x == 0 ==> p.x * q.y - p.y * q.x == 0) by (nonlinear_arith);
}
pub proof fn lemma_right_trans(p: FixVec, q: FixVec, r: FixVec)
    requires vec_ok(p), vec_ok(q), vec_ok(r), right(p), right(q), right(r)
    ensures cp(p, q) > 0 && cp(q, r) > 0 ==> cp(p, r) > 0, cp(p, q) >= 0 && cp(q, r) >= 0 ==> cp(p, r) >= 0
{
    let u = FixVec { x: 0, y: -1i64 };
    lemma_right(p, q);
    lemma_right(q, r);
    lemma_right(p, r);
    if cp(p, q) > 0 && cp(q, r) > 0 { lemma_before_trans(u, p, q, r, false); }
    lemma_flip(p, q);
    lemma_flip(q, r);
    lemma_flip(p, r);
    if cp(p, q) >= 0 && cp(q, r) >= 0 && cp(p, r) < 0 {
        lemma_right(q, p);
        lemma_right(r, q);
        lemma_right(r, p);
        // r < p
        if cp(p, q) > 0 { lemma_before_trans(u, r, p, q, false); }
        else if cp(q, r) > 0 { lemma_before_trans(u, q, r, p, false); }
        else { lemma_parallel(p, q, r); }
    }
}
pub proof fn lemma_flip(p: FixVec, q: FixVec)
    ensures cp(p, q) == -cp(q, p)
{
    assert(p.x * q.y - p.y * q.x == -(q.x * p.y - q.y * p.x)) by (nonlinear_arith);
}
pub proof fn lemma_parallel(p: FixVec, q: FixVec, r: FixVec)
    requires vec_ok(q), cp(p, q) == 0, cp(q, r) == 0
    ensures cp(p, r) == 0
{
    lemma_basis(q, p, r);
    lemma_norm(q);
    lemma_flip(p, q);
    let (n, x, pc, rc, pd, rd) = (dp(q, q), cp(p, r), cp(q, p), cp(q, r), dp(q, p), dp(q, r));
    assert(x == 0) by (nonlinear_arith) requires n * x == pd * rc - pc * rd, pc == 0, rc == 0, n > 0;
}
}
