//@ include base.vx
//@ include vec.vx
//@ include u128.vx
//@ include div.vx
//@ include cross_spec.vx
verus! {

//@ item split/cross_solver.rs struct CrossResult
//@ item split/cross_solver.rs enum CrossType
//@ item split/cross_solver.rs struct CrossSolver
use vstd::arithmetic::div_mod::rust_div;
// the machine signed division truncates; its error stays below the divisor
pub proof fn lemma_rust_div(n: int, d: int)
    requires d != 0,
    ensures iabs(rust_div(n, d) * d - n) < iabs(d), iabs(rust_div(n, d)) <= iabs(n),
{
    let m = iabs(n);
    let e = m / d;
    let r = rust_div(n, d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, d);
    let k = m % d;
    assert(0 <= k < iabs(d)) by (nonlinear_arith) requires d != 0, k == m % d;
    assert(m == d * e + k);
    if n == 0 {
      assert(r == 0); assert(r * d == 0) by (nonlinear_arith) requires r == 0;
    } else if n > 0 {
      assert(r * d - n == -k) by (nonlinear_arith) requires r == e, n == m, m == d * e + k;
    } else {
      assert(r * d - n == k) by (nonlinear_arith) requires r == -e, n == -m, m == d * e + k;
    }
    assert(iabs(e) <= m) by (nonlinear_arith) requires m == d * e + k, 0 <= k, m >= 0, k < iabs(d), d != 0, e >= 0 && iabs(e) == e || e < 0 && iabs(e) == -e,
      d > 0 && iabs(d) == d || d < 0 && iabs(d) == -d;
}

// ------------------------------------------------------------------ lemmas
// x_num / x_den in terms of the four orientations
pub proof fn lemma_num_den(t: XSegment, o: XSegment)
    ensures
        x_den(t, o) == o1(t, o) - o2(t, o),
        x_den(t, o) == o4(t, o) - o3(t, o),
        x_num(t, o) == -o3(t, o),
{
    let (ax, ay) = (t.b.x - t.a.x, t.b.y - t.a.y);
    let (px, py) = (o.a.x - t.a.x, o.a.y - t.a.y);
    let (qx, qy) = (o.b.x - t.a.x, o.b.y - t.a.y);
    assert(o1(t, o) == ax * (ay - py) - (ax - px) * ay);
    assert(o2(t, o) == ax * (ay - qy) - (ax - qx) * ay);
    assert(o3(t, o) == (qx - px) * qy - qx * (qy - py));
    assert(o4(t, o) == (qx - px) * (qy - ay) - (qx - ax) * (qy - py));
    assert(x_num(t, o) == px * qy - py * qx);
    assert(x_den(t, o) == ay * (px - qx) - ax * (py - qy));
    assert(ay * (px - qx) - ax * (py - qy) == (ax * (ay - py) - (ax - px) * ay) - (ax * (ay - qy) - (ax - qx) * ay)) by (nonlinear_arith);
    assert(px * qy - py * qx == -((qx - px) * qy - qx * (qy - py))) by (nonlinear_arith);
    assert(ay * (px - qx) - ax * (py - qy) == ((qx - px) * (qy - ay) - (qx - ax) * (qy - py)) - ((qx - px) * qy - qx * (qy - py))) by (nonlinear_arith);
}


// magnitudes and signs that make every intermediate of cross_point fit, 0 < num/den < 1
pub proof fn lemma_cross_bounds(t: XSegment, o: XSegment)
    requires seg_ok(t), seg_ok(o),
    ensures
        bnd31(t.b.x - t.a.x), bnd31(t.b.y - t.a.y), bnd31(o.a.x - t.a.x), bnd31(o.a.y - t.a.y),
        bnd31(o.b.x - t.a.x), bnd31(o.b.y - t.a.y), bnd31(o.a.x - o.b.x), bnd31(o.a.y - o.b.y),
        iabs((o.a.x - t.a.x) * (o.b.y - t.a.y)) < 0x4000_0000_0000_0000,
        iabs((o.a.y - t.a.y) * (o.b.x - t.a.x)) < 0x4000_0000_0000_0000,
        iabs((t.b.y - t.a.y) * (o.a.x - o.b.x)) < 0x4000_0000_0000_0000,
        iabs((t.b.x - t.a.x) * (o.a.y - o.b.y)) < 0x4000_0000_0000_0000,
        proper_cross(t, o) ==> {
            &&& 0 < iabs(x_num(t, o)) < iabs(x_den(t, o))
            &&& sgn(x_num(t, o)) == sgn(x_den(t, o))
            &&& t.b.x != t.a.x || (t.b.y != t.a.y && o.a.x != o.b.x)
            &&& t.b.y != t.a.y || (t.b.x != t.a.x && o.a.y != o.b.y)
            // position on the other segment, 0 < o1 / den < 1
            &&& 0 < iabs(o1(t, o)) < iabs(x_den(t, o))
            &&& sgn(o1(t, o)) == sgn(x_den(t, o))
        },
{
    lemma_num_den(t, o);
    lemma_mul_bound(o.a.x - t.a.x, o.b.y - t.a.y, 0x7fff_fffe, 0x7fff_fffe);
    lemma_mul_bound(o.a.y - t.a.y, o.b.x - t.a.x, 0x7fff_fffe, 0x7fff_fffe);
    lemma_mul_bound(t.b.y - t.a.y, o.a.x - o.b.x, 0x7fff_fffe, 0x7fff_fffe);
    lemma_mul_bound(t.b.x - t.a.x, o.a.y - o.b.y, 0x7fff_fffe, 0x7fff_fffe);
    assert(0x7fff_fffe * 0x7fff_fffe == 0x3fff_fffe_0000_0004int) by (compute);
    if proper_cross(t, o) {
        let (ax, ay) = (t.b.x - t.a.x, t.b.y - t.a.y);
        let (dx, dy) = (o.a.x - o.b.x, o.a.y - o.b.y);
        if ax == 0 {
            assert(ax * dy == 0) by (nonlinear_arith) requires ax == 0;
            assert(ay != 0 && dx != 0) by (nonlinear_arith) requires ay * dx != 0;
        }
        if ay == 0 {
            assert(ay * dx == 0) by (nonlinear_arith) requires ay == 0;
            assert(ax != 0 && dy != 0) by (nonlinear_arith) requires ax * dy != 0;
        }
    }
}

// the exact crossing written on the other segment
pub proof fn lemma_on_other(t: XSegment, o: XSegment)
    ensures
        (t.b.x - t.a.x) * x_num(t, o) == (o.a.x - t.a.x) * x_den(t, o) + (o.b.x - o.a.x) * o1(t, o),
        (t.b.y - t.a.y) * x_num(t, o) == (o.a.y - t.a.y) * x_den(t, o) + (o.b.y - o.a.y) * o1(t, o),
{
    let (ax, ay) = (t.b.x - t.a.x, t.b.y - t.a.y);
    let (px, py) = (o.a.x - t.a.x, o.a.y - t.a.y);
    let (qx, qy) = (o.b.x - t.a.x, o.b.y - t.a.y);
    assert(o1(t, o) == ax * (ay - py) - (ax - px) * ay);
    assert(x_num(t, o) == px * qy - py * qx);
    assert(x_den(t, o) == ay * (px - qx) - ax * (py - qy));
    let num = px * qy - py * qx;
    let den = ay * (px - qx) - ax * (py - qy);
    let k = ax * (ay - py) - (ax - px) * ay;
    assert(k == px * ay - py * ax) by (nonlinear_arith) requires k == ax * (ay - py) - (ax - px) * ay;
    lemma_on_other_ring(ax, ay, px, py, qx, qy);
}

pub proof fn lemma_on_other_ring(ax: int, ay: int, px: int, py: int, qx: int, qy: int)
    ensures
        ax * (px * qy - py * qx) == px * (ay * (px - qx) - ax * (py - qy)) + (qx - px) * (px * ay - py * ax),
        ay * (px * qy - py * qx) == py * (ay * (px - qx) - ax * (py - qy)) + (qy - py) * (px * ay - py * ax),
{
    // monomials
    let (a, b, c, d) = (ax * px, ax * py, ay * px, ay * py);
    let (e, f) = (ax * (py - qy), ay * (px - qx));
    assert(ax * (px * qy - py * qx) == a * qy - b * qx) by (nonlinear_arith) requires a == ax * px, b == ax * py;
    assert(ay * (px * qy - py * qx) == c * qy - d * qx) by (nonlinear_arith) requires c == ay * px, d == ay * py;
    assert(px * (f - e) == c * (px - qx) - a * (py - qy)) by (nonlinear_arith) requires e == ax * (py - qy), f == ay * (px - qx), a == ax * px, c == ay * px;
    assert(py * (f - e) == d * (px - qx) - b * (py - qy)) by (nonlinear_arith) requires e == ax * (py - qy), f == ay * (px - qx), b == ax * py, d == ay * py;
    assert((qx - px) * (px * ay - py * ax) == (qx - px) * c - (qx - px) * b) by (nonlinear_arith) requires b == ax * py, c == ay * px;
    assert((qy - py) * (px * ay - py * ax) == (qy - py) * c - (qy - py) * b) by (nonlinear_arith) requires b == ax * py, c == ay * px;
    // shared monomials of degree three
    assert(a * (py - qy) == a * py - a * qy) by (nonlinear_arith);
    assert(c * (px - qx) == c * px - c * qx) by (nonlinear_arith);
    assert((qx - px) * c == qx * c - px * c) by (nonlinear_arith);
    assert((qx - px) * b == qx * b - px * b) by (nonlinear_arith);
    assert(a * py == px * b) by (nonlinear_arith) requires a == ax * px, b == ax * py;
    assert(c * px == px * c && c * qx == qx * c && b * qx == qx * b) by (nonlinear_arith);
    assert(d * (px - qx) == d * px - d * qx) by (nonlinear_arith);
    assert(b * (py - qy) == b * py - b * qy) by (nonlinear_arith);
    assert((qy - py) * c == qy * c - py * c) by (nonlinear_arith);
    assert((qy - py) * b == qy * b - py * b) by (nonlinear_arith);
    assert(d * px == py * c) by (nonlinear_arith) requires d == ay * py, c == ay * px;
    assert(b * py == py * b && b * qy == qy * b && c * qy == qy * c) by (nonlinear_arith);
}

// an integer q closer than one to N / D stays inside integer bounds of N / D
pub proof fn lemma_near_bound(q: int, n: int, d: int, m: int, w: int, k: int)
    requires
        iabs(q * d - n) < iabs(d),
        // n / d == m + (w - m) * (k / d), 0 < k / d < 1
        n == m * d + (w - m) * k, sgn(k) == sgn(d), 0 < iabs(k) < iabs(d),
    ensures min2(m, w) <= q <= max2(m, w),
{
    let e = if d > 0 { d } else { -d };
    let kk = if d > 0 { k } else { -k };
    let nn = if d > 0 { n } else { -n };
    assert(nn == m * e + (w - m) * kk) by (nonlinear_arith)
        requires n == m * d + (w - m) * k, (d > 0 && e == d && kk == k && nn == n) || (d <= 0 && e == -d && kk == -k && nn == -n);
    assert(-e < q * e - nn < e) by (nonlinear_arith)
        requires iabs(q * d - n) < iabs(d), (d > 0 && e == d && nn == n) || (d <= 0 && e == -d && nn == -n), iabs(d) == e, iabs(q * d - n) == q * d - n || iabs(q * d - n) == n - q * d, iabs(q * d - n) >= 0;
    let (lo, hi) = (min2(m, w), max2(m, w));
    assert(lo * e <= nn) by (nonlinear_arith)
        requires nn == m * e + (w - m) * kk, 0 < kk < e, (lo == m && m <= w) || (lo == w && w < m);
    assert(nn <= hi * e) by (nonlinear_arith)
        requires nn == m * e + (w - m) * kk, 0 < kk < e, (hi == w && m <= w) || (hi == m && w <= m);
    assert(q > lo - 1) by (nonlinear_arith) requires lo * e <= nn, -e < q * e - nn, e > 0;
    assert(q < hi + 1) by (nonlinear_arith) requires nn <= hi * e, q * e - nn < e, e > 0;
}

pub proof fn lemma_near_box(p: IntPoint, t: XSegment, o: XSegment)
    requires seg_ok(t), seg_ok(o), proper_cross(t, o), near_cross(p, t, o),
    ensures in_box(p, t), in_box(p, o), in_range(p),
{
    lemma_near_box_xy(p.x as int, p.y as int, t, o);
}
pub proof fn lemma_near_box_xy(x: int, y: int, t: XSegment, o: XSegment)
    requires
        seg_ok(t), seg_ok(o), proper_cross(t, o),
        iabs((x - t.a.x) * x_den(t, o) - (t.b.x - t.a.x) * x_num(t, o)) < iabs(x_den(t, o)),
        iabs((y - t.a.y) * x_den(t, o) - (t.b.y - t.a.y) * x_num(t, o)) < iabs(x_den(t, o)),
    ensures
        min2(t.a.x as int, t.b.x as int) <= x <= max2(t.a.x as int, t.b.x as int),
        min2(t.a.y as int, t.b.y as int) <= y <= max2(t.a.y as int, t.b.y as int),
        min2(o.a.x as int, o.b.x as int) <= x <= max2(o.a.x as int, o.b.x as int),
        min2(o.a.y as int, o.b.y as int) <= y <= max2(o.a.y as int, o.b.y as int),
{
    lemma_cross_bounds(t, o);
    lemma_on_other(t, o);
    let den = x_den(t, o);
    let num = x_num(t, o);
    assert(0 * den == 0) by (nonlinear_arith);
    lemma_near_bound(x - t.a.x, (t.b.x - t.a.x) * num, den, 0, t.b.x - t.a.x, num);
    lemma_near_bound(y - t.a.y, (t.b.y - t.a.y) * num, den, 0, t.b.y - t.a.y, num);
    lemma_near_bound(x - t.a.x, (t.b.x - t.a.x) * num, den, o.a.x - t.a.x, o.b.x - t.a.x, o1(t, o));
    lemma_near_bound(y - t.a.y, (t.b.y - t.a.y) * num, den, o.a.y - t.a.y, o.b.y - t.a.y, o1(t, o));
}

// |q| * |den| within |den| of |a| * |num|  ==>  sgn(a) * q within one of a * num / den
pub proof fn lemma_abs_close(q: int, a: int, num: int, den: int)
    requires
        q >= 0, sgn(num) == sgn(den), den != 0, div_close(q, iabs(a) * iabs(num), iabs(den)), 0 < iabs(num) < iabs(den),
    ensures
        iabs((sgn(a) * q) * den - a * num) < iabs(den),
        q <= iabs(a),
        iabs(sgn(a) * q) <= q,
{
    assert(1 * q == q && (-1) * q == -q && 0 * q == 0) by (nonlinear_arith);
    let (aa, nn, dd) = (iabs(a), iabs(num), iabs(den));
    assert(q <= aa) by (nonlinear_arith) requires q * dd - aa * nn < dd, 0 < nn < dd, aa >= 0, q >= 0;
    let z = q * dd - aa * nn;
    assert((sgn(a) * q) * den - a * num == z || (sgn(a) * q) * den - a * num == -z || a == 0) by (nonlinear_arith)
        requires
            z == q * dd - aa * nn,
            (a > 0 && aa == a && sgn(a) == 1) || (a < 0 && aa == -a && sgn(a) == -1) || a == 0,
            (den > 0 && dd == den && num > 0 && nn == num) || (den < 0 && dd == -den && num < 0 && nn == -num);
    if a == 0 {
        assert((sgn(a) * q) * den - a * num == 0) by (nonlinear_arith) requires a == 0, sgn(a) == 0;
    }
}
pub proof fn lemma_udiv_pre(a: int, num: int, den: int)
    requires iabs(a) <= 0x7fff_fffe, 0 < iabs(num) < iabs(den),
    ensures iabs(a) * iabs(num) <= iabs(den) * 0x7fff_ffff_ffff_ffff,
{
    let (aa, nn, dd) = (iabs(a), iabs(num), iabs(den));
    assert(aa * nn <= dd * 0x7fff_ffff_ffff_ffff) by (nonlinear_arith) requires 0 <= aa <= 0x7fff_fffe, 0 < nn < dd;
}
pub proof fn lemma_trunc_close(q: int, n: int, d: int, a: int)
    requires iabs(q * d - n) < iabs(d), a != 0,
    ensures iabs(q * (a * d) - a * n) < iabs(a * d),
{
    let z = q * d - n;
    assert(q * (a * d) - a * n == a * z) by (nonlinear_arith) requires z == q * d - n;
    assert(iabs(a * z) < iabs(a * d)) by (nonlinear_arith)
        requires iabs(z) < iabs(d), a != 0, iabs(z) == z || iabs(z) == -z, iabs(z) >= 0, iabs(d) == d || iabs(d) == -d, iabs(d) >= 0,
            iabs(a * z) == a * z || iabs(a * z) == -(a * z), iabs(a * z) >= 0, iabs(a * d) == a * d || iabs(a * d) == -(a * d), iabs(a * d) >= 0;
}

// ------------------------------------------------------------------ classification
pub proof fn lemma_area_cross(a: IntPoint, b: IntPoint, c: IntPoint)
    ensures
        area2(a, b, c) == crs(b.x - c.x, b.y - c.y, a.x - c.x, a.y - c.y),
        area2(a, b, c) == crs(b.x - a.x, b.y - a.y, b.x - c.x, b.y - c.y),
        area2(a, b, c) == crs(b.x - a.x, b.y - a.y, a.x - c.x, a.y - c.y),
        area2(a, b, c) == -area2(b, a, c),
{
    let (ax, ay, bx, by) = (a.x - c.x, a.y - c.y, b.x - c.x, b.y - c.y);
    assert(area2(a, b, c) == (bx - ax) * by - bx * (by - ay));
    assert(area2(b, a, c) == (ax - bx) * ay - ax * (ay - by));
    assert((bx - ax) * by - bx * (by - ay) == bx * ay - by * ax) by (nonlinear_arith);
    assert((ax - bx) * ay - ax * (ay - by) == ax * by - ay * bx) by (nonlinear_arith);
    assert(crs(bx - ax, by - ay, bx, by) == bx * ay - by * ax) by {
        assert((bx - ax) * by - (by - ay) * bx == bx * ay - by * ax) by (nonlinear_arith);
    }
    assert((bx - ax) * ay - (by - ay) * ax == bx * ay - by * ax) by (nonlinear_arith);
    assert(ax * by == by * ax && ay * bx == bx * ay) by (nonlinear_arith);
}

// p on the line of t; where p sits between the ends shows in the sides of t's ends to any other line through p
pub proof fn lemma_inside_sign(t: XSegment, p: IntPoint, q: IntPoint)
    requires pt_lt(t.a, t.b), area2(t.a, t.b, p) == 0,
    ensures
        opposite(area2(p, q, t.a), area2(p, q, t.b)) ==> inside(p, t),
        inside(p, t) ==> opposite(area2(p, q, t.a), area2(p, q, t.b)) || area2(t.a, t.b, q) == 0,
        area2(t.a, t.b, q) == 0 ==> area2(p, q, t.a) == 0 && area2(p, q, t.b) == 0,
{
    let (ex, ey) = (t.a.x - p.x, t.a.y - p.y);
    let (ux, uy) = (t.b.x - p.x, t.b.y - p.y);
    let (wx, wy) = (q.x - p.x, q.y - p.y);
    let (vx, vy) = (t.b.x - t.a.x, t.b.y - t.a.y);
    lemma_area_cross(t.a, t.b, p);
    lemma_area_cross(t.a, t.b, q);
    lemma_area_cross(p, q, t.a);
    lemma_area_cross(p, q, t.b);
    // area2(p, q, z) == w x (p - z) == -(w x (z - p))
    let (ke, ku) = (crs(wx, wy, ex, ey), crs(wx, wy, ux, uy));
    assert(area2(p, q, t.a) == -ke) by {
        assert(wx * (-ey) - wy * (-ex) == -(wx * ey - wy * ex)) by (nonlinear_arith);
    }
    assert(area2(p, q, t.b) == -ku) by {
        assert(wx * (-uy) - wy * (-ux) == -(wx * uy - wy * ux)) by (nonlinear_arith);
    }
    assert(crs(ex, ey, ux, uy) == 0) by {
        assert(ux * ey - uy * ex == -(ex * uy - ey * ux)) by (nonlinear_arith);
    }
    lemma_par_mul(ex, ey, ux, uy, wx, wy);
    // v = u - e is parallel to e and to u
    assert(crs(ex, ey, vx, vy) == 0 && crs(ux, uy, vx, vy) == 0) by {
        assert(ex * vy - ey * vx == (ex * uy - ey * ux)) by (nonlinear_arith) requires vx == ux - ex, vy == uy - ey;
        assert(ux * vy - uy * vx == (ex * uy - ey * ux)) by (nonlinear_arith) requires vx == ux - ex, vy == uy - ey;
    }
    // area2(t.a, t.b, q) == v x (t.b - q) == v x (u - w)
    let kv = crs(wx, wy, vx, vy);
    assert(kv == ku - ke) by {
        assert(wx * vy - wy * vx == (wx * uy - wy * ux) - (wx * ey - wy * ex)) by (nonlinear_arith) requires vx == ux - ex, vy == uy - ey;
    }
    assert(area2(t.a, t.b, q) == kv) by {
        assert(t.b.x - q.x == ux - wx && t.b.y - q.y == uy - wy);
        assert(vx * (uy - wy) - vy * (ux - wx) == (wx * vy - wy * vx) - (ux * vy - uy * vx)) by (nonlinear_arith);
    }
    if opposite(area2(p, q, t.a), area2(p, q, t.b)) {
        lemma_opposite_scale(ke, ku, ex, ux);
        lemma_opposite_scale(ke, ku, ey, uy);
    }
    if inside(p, t) {
        if ux != 0 || ex != 0 {
            assert(ex < 0 && ux > 0) by (nonlinear_arith)
                requires ex * uy - ey * ux == 0, ex < 0 || (ex == 0 && ey < 0), ux > 0 || (ux == 0 && uy > 0), ux != 0 || ex != 0;
            lemma_same_sign(ke, ku, ex, ux);
        } else {
            lemma_same_sign(ke, ku, ey, uy);
        }
    }
    if kv == 0 {
        lemma_par3(vx, vy, wx, wy, ex, ey);
        lemma_par3(vx, vy, wx, wy, ux, uy);
    }
}
// a * u == b * e with e < 0 < u
pub proof fn lemma_same_sign(a: int, b: int, e: int, u: int)
    requires a * u == b * e, e < 0 < u,
    ensures opposite(a, b) || (a == 0 && b == 0),
{
    assert(opposite(a, b) || (a == 0 && b == 0)) by (nonlinear_arith) requires a * u == b * e, e < 0 < u;
}

pub proof fn lemma_classify(t: XSegment, o: XSegment)
    requires seg_ok(t), seg_ok(o),
    ensures
        o1(t, o) == 0 && o2(t, o) == 0 ==> all_collinear(t, o),
        o3(t, o) == 0 && o4(t, o) == 0 ==> all_collinear(t, o),
        !all_collinear(t, o) ==> (inside(o.a, t) <==> o1(t, o) == 0 && opposite(o3(t, o), o4(t, o))),
        !all_collinear(t, o) ==> (inside(o.b, t) <==> o2(t, o) == 0 && opposite(o3(t, o), o4(t, o))),
        !all_collinear(t, o) ==> (inside(t.a, o) <==> o3(t, o) == 0 && opposite(o1(t, o), o2(t, o))),
        !all_collinear(t, o) ==> (inside(t.b, o) <==> o4(t, o) == 0 && opposite(o1(t, o), o2(t, o))),
{
    lemma_area_cross(o.a, o.b, t.a);
    lemma_area_cross(o.a, o.b, t.b);
    lemma_area_cross(t.a, t.b, o.a);
    lemma_area_cross(t.a, t.b, o.b);
    if o1(t, o) == 0 { lemma_inside_sign(t, o.a, o.b); }
    if o2(t, o) == 0 { lemma_inside_sign(t, o.b, o.a); }
    if o3(t, o) == 0 { lemma_inside_sign(o, t.a, t.b); }
    if o4(t, o) == 0 { lemma_inside_sign(o, t.b, t.a); }
}

pub proof fn lemma_area_self(a: IntPoint, b: IntPoint)
    ensures area2(a, b, a) == 0, area2(a, b, b) == 0,
{
    let (x, y) = (b.x - a.x, b.y - a.y);
    assert(area2(a, b, a) == x * y - x * y);
    assert(area2(a, b, b) == x * 0 - 0 * y);
    assert(x * 0 - 0 * y == 0) by (nonlinear_arith);
}

pub proof fn lemma_area_swap(a: IntPoint, b: IntPoint, p: IntPoint)
    ensures area2(a, p, b) == -area2(a, b, p),
{
    let (x, y, u, v) = (b.x - a.x, b.y - a.y, p.x - a.x, p.y - a.y);
    assert(b.y - p.y == y - v && b.x - p.x == x - u && p.y - b.y == v - y && p.x - b.x == u - x);
    assert(x * (y - v) - (x - u) * y == u * y - x * v) by (nonlinear_arith);
    assert(u * (v - y) - (u - x) * v == x * v - u * y) by (nonlinear_arith);
}

// what a crossing result promises
pub open spec fn cross_ok(c: CrossResult, t: XSegment, o: XSegment, radius: int) -> bool {
    match c.cross_type {
        CrossType::Overlay => all_collinear(t, o) && !c.is_round,
        CrossType::Pure => proper_cross(t, o) && near_cross(c.point, t, o) && in_box(c.point, t) && in_box(c.point, o)
            && (!c.is_round <==> area2(t.a, c.point, t.b) == 0 && area2(o.a, c.point, o.b) == 0)
            && (c.is_round ==> sqd(t.a, c.point) > radius && sqd(t.b, c.point) > radius && sqd(o.a, c.point) > radius && sqd(o.b, c.point) > radius),
        CrossType::TargetEnd => (c.point == t.a || c.point == t.b)
            && if c.is_round { proper_cross(t, o) && area2(o.a, c.point, o.b) != 0 && snapped(c.point, t, o, radius) }
               else { inside(c.point, o) && !all_collinear(t, o) },
        CrossType::OtherEnd => (c.point == o.a || c.point == o.b)
            && if c.is_round { proper_cross(t, o) && area2(t.a, c.point, t.b) != 0 && snapped(c.point, t, o, radius) }
               else { inside(c.point, t) && !all_collinear(t, o) },
    }
}
// p is an end within the snap radius of a point less than a unit from the exact crossing, and no end is nearer to it
pub open spec fn snapped(p: IntPoint, t: XSegment, o: XSegment, radius: int) -> bool {
    exists|x: IntPoint| #[trigger] near_cross(x, t, o) && in_range(x) && sqd(p, x) <= radius
        && sqd(p, x) <= sqd(t.a, x) && sqd(p, x) <= sqd(t.b, x) && sqd(p, x) <= sqd(o.a, x) && sqd(p, x) <= sqd(o.b, x)
}

// ------------------------------------------------------------------ collinear overlap
// p on the line of s: its place shows in the signs of (p - s.a) . v and (p - s.b) . v
pub proof fn lemma_dot_place(s: XSegment, p: IntPoint)
    requires seg_ok(s), in_range(p), area2(s.a, s.b, p) == 0,
    ensures ({
        let (vx, vy) = (s.b.x - s.a.x, s.b.y - s.a.y);
        let da = dotp(p.x - s.a.x, p.y - s.a.y, vx, vy);
        let db = dotp(p.x - s.b.x, p.y - s.b.y, vx, vy);
        &&& (da > 0 <==> pt_lt(s.a, p))
        &&& (da == 0 <==> s.a == p)
        &&& (db < 0 <==> pt_lt(p, s.b))
        &&& (db == 0 <==> s.b == p)
    }),
{
    let (vx, vy) = (s.b.x - s.a.x, s.b.y - s.a.y);
    let (ex, ey) = (p.x - s.a.x, p.y - s.a.y);
    let (ux, uy) = (p.x - s.b.x, p.y - s.b.y);
    lemma_area_cross(s.a, s.b, p);
    assert(crs(ex, ey, vx, vy) == 0 && crs(ux, uy, vx, vy) == 0) by {
        assert(vx * (-uy) - vy * (-ux) == ux * vy - uy * vx) by (nonlinear_arith);
        assert(vx * (-ey) - vy * (-ex) == ex * vy - ey * vx) by (nonlinear_arith);
        assert(s.b.x - p.x == -ux && s.b.y - p.y == -uy && s.a.x - p.x == -ex && s.a.y - p.y == -ey);
    }
    lemma_dot_par(ex, ey, vx, vy);
    lemma_dot_par(ux, uy, vx, vy);
}
pub proof fn lemma_dot_par(ex: int, ey: int, vx: int, vy: int)
    requires crs(ex, ey, vx, vy) == 0, vx > 0 || (vx == 0 && vy > 0),
    ensures
        dotp(ex, ey, vx, vy) > 0 <==> (ex > 0 || (ex == 0 && ey > 0)),
        dotp(ex, ey, vx, vy) == 0 <==> (ex == 0 && ey == 0),
{
    let d = ex * vx + ey * vy;
    let vv = vx * vx + vy * vy;
    assert(vv > 0) by (nonlinear_arith) requires vv == vx * vx + vy * vy, vx > 0 || (vx == 0 && vy > 0);
    // (e . v) v == (v . v) e
    assert(ey * vx == ex * vy) by (nonlinear_arith) requires ex * vy - ey * vx == 0;
    assert(d * vx == vv * ex) by {
        let k = ey * vx;
        assert((ex * vx + ey * vy) * vx == ex * (vx * vx) + vy * k) by (nonlinear_arith) requires k == ey * vx;
        assert((vx * vx + vy * vy) * ex == ex * (vx * vx) + vy * k) by (nonlinear_arith) requires k == ex * vy;
    }
    assert(d * vy == vv * ey) by {
        let k = ex * vy;
        assert((ex * vx + ey * vy) * vy == vx * k + ey * (vy * vy)) by (nonlinear_arith) requires k == ex * vy;
        assert((vx * vx + vy * vy) * ey == vx * k + ey * (vy * vy)) by (nonlinear_arith) requires k == ey * vx;
    }
    if vx > 0 {
        assert((d > 0 <==> ex > 0) && (d == 0 <==> ex == 0)) by (nonlinear_arith) requires d * vx == vv * ex, vv > 0, vx > 0;
        if ex == 0 {
            assert(ey == 0) by (nonlinear_arith) requires ey * vx == ex * vy, ex == 0, vx > 0;
        }
    } else {
        assert(ex == 0) by (nonlinear_arith) requires d * vx == vv * ex, vx == 0, vv > 0;
        assert((d > 0 <==> ey > 0) && (d == 0 <==> ey == 0)) by (nonlinear_arith) requires d * vy == vv * ey, vv > 0, vy > 0;
    }
}
// ends of t on the line of o: every comparison of a point of t with a point of o shows in a sign
pub proof fn lemma_collinear_ends(t: XSegment, o: XSegment)
    requires seg_ok(t), seg_ok(o), all_collinear(t, o),
    ensures ({
        let (vx, vy) = (o.b.x - o.a.x, o.b.y - o.a.y);
        let aa = dotp(t.a.x - o.a.x, t.a.y - o.a.y, vx, vy);
        let ab = dotp(t.a.x - o.b.x, t.a.y - o.b.y, vx, vy);
        let ba = dotp(t.b.x - o.a.x, t.b.y - o.a.y, vx, vy);
        let bb = dotp(t.b.x - o.b.x, t.b.y - o.b.y, vx, vy);
        &&& (aa > 0 <==> pt_lt(o.a, t.a)) && (aa == 0 <==> o.a == t.a)
        &&& (ab < 0 <==> pt_lt(t.a, o.b)) && (ab == 0 <==> o.b == t.a)
        &&& (ba > 0 <==> pt_lt(o.a, t.b)) && (ba == 0 <==> o.a == t.b)
        &&& (bb < 0 <==> pt_lt(t.b, o.b)) && (bb == 0 <==> o.b == t.b)
        &&& pt_lt(t.a, t.b) && pt_lt(o.a, o.b)
    }),
{
    lemma_dot_place(o, t.a);
    lemma_dot_place(o, t.b);
}

//@ item split/cross_solver.rs type CollinearMask
//@ item split/cross_solver.rs const TARGET_A
//@ item split/cross_solver.rs const TARGET_B
//@ item split/cross_solver.rs const OTHER_A
//@ item split/cross_solver.rs const OTHER_B

pub open spec fn mask_bits(m: u8, ta: bool, tb: bool, oa: bool, ob: bool) -> bool {
    (m & 1 != 0) == ta && (m & 2 != 0) == tb && (m & 4 != 0) == oa && (m & 8 != 0) == ob && m < 16
}
// `|` of masks is the union of their bits
pub proof fn lemma_or()
    ensures
        forall|x: u8, y: u8| #[trigger] (x | y) & 1 != 0 <==> (x & 1 != 0 || y & 1 != 0),
        forall|x: u8, y: u8| #[trigger] (x | y) & 2 != 0 <==> (x & 2 != 0 || y & 2 != 0),
        forall|x: u8, y: u8| #[trigger] (x | y) & 4 != 0 <==> (x & 4 != 0 || y & 4 != 0),
        forall|x: u8, y: u8| #[trigger] (x | y) & 8 != 0 <==> (x & 8 != 0 || y & 8 != 0),
        forall|x: u8, y: u8| x < 16 && y < 16 ==> #[trigger] (x | y) < 16,
{
    assert forall|x: u8, y: u8| #[trigger] (x | y) & 1 != 0 <==> (x & 1 != 0 || y & 1 != 0) by {
        assert((x | y) & 1 != 0 <==> (x & 1 != 0 || y & 1 != 0)) by (bit_vector);
    }
    assert forall|x: u8, y: u8| #[trigger] (x | y) & 2 != 0 <==> (x & 2 != 0 || y & 2 != 0) by {
        assert((x | y) & 2 != 0 <==> (x & 2 != 0 || y & 2 != 0)) by (bit_vector);
    }
    assert forall|x: u8, y: u8| #[trigger] (x | y) & 4 != 0 <==> (x & 4 != 0 || y & 4 != 0) by {
        assert((x | y) & 4 != 0 <==> (x & 4 != 0 || y & 4 != 0)) by (bit_vector);
    }
    assert forall|x: u8, y: u8| #[trigger] (x | y) & 8 != 0 <==> (x & 8 != 0 || y & 8 != 0) by {
        assert((x | y) & 8 != 0 <==> (x & 8 != 0 || y & 8 != 0)) by (bit_vector);
    }
    assert forall|x: u8, y: u8| x < 16 && y < 16 implies #[trigger] (x | y) < 16 by {
        assert(x < 16 && y < 16 ==> (x | y) < 16) by (bit_vector);
    }
}
pub proof fn lemma_mask_consts()
    ensures
        0u8 << 1 == 0, 0u8 << 2 == 0, 0u8 << 3 == 0, 1u8 << 1 == 2, 1u8 << 2 == 4, 1u8 << 3 == 8,
        0u8 & 1 == 0, 0u8 & 2 == 0, 0u8 & 4 == 0, 0u8 & 8 == 0,
        1u8 & 1 == 1, 1u8 & 2 == 0, 1u8 & 4 == 0, 1u8 & 8 == 0,
        2u8 & 1 == 0, 2u8 & 2 == 2, 2u8 & 4 == 0, 2u8 & 8 == 0,
        4u8 & 1 == 0, 4u8 & 2 == 0, 4u8 & 4 == 4, 4u8 & 8 == 0,
        8u8 & 1 == 0, 8u8 & 2 == 0, 8u8 & 4 == 0, 8u8 & 8 == 8,
{
    assert(0u8 << 1 == 0 && 0u8 << 2 == 0 && 0u8 << 3 == 0 && 1u8 << 1 == 2 && 1u8 << 2 == 4 && 1u8 << 3 == 8) by (bit_vector);
    assert(0u8 & 1 == 0 && 0u8 & 2 == 0 && 0u8 & 4 == 0 && 0u8 & 8 == 0) by (bit_vector);
    assert(1u8 & 1 == 1 && 1u8 & 2 == 0 && 1u8 & 4 == 0 && 1u8 & 8 == 0) by (bit_vector);
    assert(2u8 & 1 == 0 && 2u8 & 2 == 2 && 2u8 & 4 == 0 && 2u8 & 8 == 0) by (bit_vector);
    assert(4u8 & 1 == 0 && 4u8 & 2 == 0 && 4u8 & 4 == 4 && 4u8 & 8 == 0) by (bit_vector);
    assert(8u8 & 1 == 0 && 8u8 & 2 == 0 && 8u8 & 4 == 0 && 8u8 & 8 == 8) by (bit_vector);
}
pub trait EndMask: Sized {
    spec fn bits_are(&self, ta: bool, tb: bool, oa: bool, ob: bool) -> bool;
    fn is_target_a(&self) -> (r: bool) ensures forall|ta: bool, tb: bool, oa: bool, ob: bool| self.bits_are(ta, tb, oa, ob) ==> r == ta;
    fn is_target_b(&self) -> (r: bool) ensures forall|ta: bool, tb: bool, oa: bool, ob: bool| self.bits_are(ta, tb, oa, ob) ==> r == tb;
    fn is_other_a(&self) -> (r: bool) ensures forall|ta: bool, tb: bool, oa: bool, ob: bool| self.bits_are(ta, tb, oa, ob) ==> r == oa;
    fn is_other_b(&self) -> (r: bool) ensures forall|ta: bool, tb: bool, oa: bool, ob: bool| self.bits_are(ta, tb, oa, ob) ==> r == ob;
    fn new(target_a: bool, target_b: bool, other_a: bool, other_b: bool) -> (r: Self)
        ensures r.bits_are(target_a, target_b, other_a, other_b);
}
impl EndMask for CollinearMask {
    open spec fn bits_are(&self, ta: bool, tb: bool, oa: bool, ob: bool) -> bool { mask_bits(*self, ta, tb, oa, ob) }

//@ fn split/cross_solver.rs EndMask for CollinearMask is_target_a
//@ nopub
//@ sub <<<?self &>>> <<<*self &>>>
//@ entry
        proof { let m = *self; assert((m & 1 == 1) == (m & 1 != 0)) by (bit_vector); }
//@ endfn
//@ fn split/cross_solver.rs EndMask for CollinearMask is_target_b
//@ nopub
//@ sub <<<?self &>>> <<<*self &>>>
//@ entry
        proof { let m = *self; assert((m & 2 == 2) == (m & 2 != 0)) by (bit_vector); }
//@ endfn
//@ fn split/cross_solver.rs EndMask for CollinearMask is_other_a
//@ nopub
//@ sub <<<?self &>>> <<<*self &>>>
//@ entry
        proof { let m = *self; assert((m & 4 == 4) == (m & 4 != 0)) by (bit_vector); }
//@ endfn
//@ fn split/cross_solver.rs EndMask for CollinearMask is_other_b
//@ nopub
//@ sub <<<?self &>>> <<<*self &>>>
//@ entry
        proof { let m = *self; assert((m & 8 == 8) == (m & 8 != 0)) by (bit_vector); }
//@ endfn
//@ fn split/cross_solver.rs EndMask for CollinearMask new
//@ nopub
//@ entry
        proof { lemma_or(); lemma_mask_consts(); }
//@ endfn
}

impl CrossSolver {

//@ fn split/cross_solver.rs CrossSolver cross_point
//@ spec
        requires seg_ok(*target), seg_ok(*other), proper_cross(*target, *other)
        ensures
            in_range(r), in_box(r, *target), in_box(r, *other), near_cross(r, *target, *other)
//@ entry
        let ghost (t, o) = (*target, *other);
        let ghost (gx, gy) = (t.b.x - t.a.x, t.b.y - t.a.y);
        let ghost (num, den) = (x_num(t, o), x_den(t, o));
        proof {
            lemma_num_den(t, o);
            lemma_cross_bounds(t, o);
            lemma_udiv_pre(gx, num, den);
            lemma_udiv_pre(gy, num, den);
            let (bx, by) = (o.a.x - o.b.x, o.a.y - o.b.y);
            if bx != 0 { lemma_rust_div(num, bx); }
            if by != 0 { lemma_rust_div(-num, by); }
        }
//@ after? s
            assert(s == 1) by { assert(1 * 1 == 1int && (-1int) * (-1int) == 1int); }
//@ after? sx
            assert(sx == sgn(gx));
//@ after? sy
            assert(sy == sgn(gy));
//@ after uy
            proof {
                lemma_abs_close(ux as int, gx, num, den);
                lemma_abs_close(uy as int, gy, num, den);
            }
//@ before x
        proof {
            if gx == 0 {
                assert(gx * (o.a.y - o.b.y) == 0 && gx * num == 0 && 0 * den == 0) by (nonlinear_arith) requires gx == 0;
                lemma_trunc_close(y0 as int, num, o.a.x - o.b.x, gy);
            } else if gy == 0 {
                assert(gy * (o.a.x - o.b.x) == 0 && gy * num == 0 && 0 * den == 0) by (nonlinear_arith) requires gy == 0;
                let by = o.a.y - o.b.y;
                assert((-gx) * by == -(gx * by) && (-gx) * (-num) == gx * num) by (nonlinear_arith);
                lemma_trunc_close(x0 as int, -num, by, -gx);
            }
            lemma_near_box_xy(x0 + t.a.x, y0 + t.a.y, t, o);
        }
//@ endfn

//@ fn split/cross_solver.rs CrossSolver middle_cross
//@ spec
        requires seg_ok(*target), seg_ok(*other), proper_cross(*target, *other), radius >= 0
        ensures r is Some, cross_ok(r->Some_0, *target, *other, radius as int), !(r->Some_0.cross_type is Overlay),
            !r->Some_0.is_round ==> r->Some_0.cross_type is Pure,
//@ entry
        proof {
            lemma_area_swap(other.a, other.b, target.a);
            lemma_area_swap(other.a, other.b, target.b);
            lemma_area_swap(target.a, target.b, other.a);
            lemma_area_swap(target.a, target.b, other.b);
        }
//@ endfn

//@ fn split/cross_solver.rs CrossSolver cross
//@ spec
        requires seg_ok(*target), seg_ok(*other), radius >= 0
        ensures
            r is None <==> !(all_collinear(*target, *other) || touch(*target, *other) || proper_cross(*target, *other)),
            r is Some ==> cross_ok(r->Some_0, *target, *other, radius as int),
//@ entry
        proof {
            lemma_classify(*target, *other);
            assert(1i64 & 0i64 == 0i64 && 1i64 & 1i64 == 1i64 && 1i64 & 2i64 == 0i64) by (bit_vector);
            assert(0i64 & 1i64 == 0i64 && 1i64 & 1i64 == 1i64 && 2i64 & 1i64 == 0i64) by (bit_vector);
        }
//@ endfn

//@ fn split/cross_solver.rs CrossSolver collinear
//@ spec
        requires seg_ok(*target), seg_ok(*other), all_collinear(*target, *other)
        ensures mask_bits(r, inside(target.a, *other), inside(target.b, *other), inside(other.a, *target), inside(other.b, *target))
//@ entry
        proof { lemma_collinear_ends(*target, *other); }
//@ endfn
}
} // verus!
fn main() {}
