@file gcd.rs
@mod
/// `&x & 1u8` is zero exactly for even x
fn low_bit(x: &UBig) -> (r: u8) requires x.wf() ensures (r == 0) == (x.v() % 2 == 0)
{
    let r = crate::bits::ubig_bitand_ref_unsigned_u8(x, 1u8);
    proof {
        let v = x.v() as int;
        crate::bits::lemma_and_le(r as int, v, 1);
        assert(bit(r as int, 0) == (bit(v, 0) && bit(1, 0)));
        assert(p2(0) == 1);
        assert(v / 1 == v && 1int / 1 == 1 && (r as int) / 1 == r);
    }
    r
}
pub open spec fn bmax(x: int) -> int { if x < 0 { -x } else if x == 0 { 1 } else { x } }
spec fn ab(x: int) -> int { if x < 0 { -x } else { x } }
/// one of the two Bezout combinations the algorithm keeps
spec fn lc(a: int, x: int, y: int, u: int, v: int) -> bool { a == x * u - y * v && 0 <= x <= v && 0 <= y <= u }
proof fn lemma_par(x: int, y: int) ensures (x * y) % 2 == 0 <==> (x % 2 == 0 || y % 2 == 0)
{
    let (a, b) = (x / 2, y / 2);
    if x % 2 == 0 { assert(x * y == 2 * (a * y)) by (nonlinear_arith) requires x == 2 * a; }
    else if y % 2 == 0 { assert(x * y == 2 * (x * b)) by (nonlinear_arith) requires y == 2 * b; }
    else { assert(x * y == 2 * (2 * a * b + a + b) + 1) by (nonlinear_arith) requires x == 2 * a + 1, y == 2 * b + 1; }
}
/// halving an even combination
proof fn lemma_lc_halve(a: int, x: int, y: int, u: int, v: int)
    requires lc(a, x, y, u, v), a % 2 == 0, u % 2 == 1 || v % 2 == 1, u > 0, v > 0
    ensures ({ let odd = x % 2 != 0 || y % 2 != 0; let x1 = if odd { x + v } else { x }; let y1 = if odd { y + u } else { y }; x1 % 2 == 0 && y1 % 2 == 0 && lc(a / 2, x1 / 2, y1 / 2, u, v) && (odd ==> x1 / 2 == v - (v - x) / 2 && y1 / 2 == u - (u - y) / 2) })
{
    let odd = x % 2 != 0 || y % 2 != 0; let x1 = if odd { x + v } else { x }; let y1 = if odd { y + u } else { y };
    lemma_par(x, u); lemma_par(y, v);
    assert((x + v) * u - (y + u) * v == x * u - y * v) by (nonlinear_arith);
    assert(a == x1 * u - y1 * v);
    let (h, k) = (x1 / 2, y1 / 2);
    assert(x1 % 2 == 0 && y1 % 2 == 0);
    assert(x1 * u - y1 * v == 2 * (h * u - k * v)) by (nonlinear_arith) requires x1 == 2 * h, y1 == 2 * k;
}
/// subtracting one combination from the other
proof fn lemma_lc_sub(a: int, ax: int, ay: int, b: int, bx: int, by: int, u: int, v: int)
    requires lc(a, ax, ay, u, v), lc(b, bx, by, u, v), 0 <= a - b < v, u > 0
    ensures ({ let x1 = if ax < bx { ax + v } else { ax }; let y1 = if ax < bx { ay + u } else { ay }; x1 >= bx && y1 >= by && lc(a - b, x1 - bx, y1 - by, u, v) && (ax < bx ==> ay <= by) })
{
    let x1 = if ax < bx { ax + v } else { ax }; let y1 = if ax < bx { ay + u } else { ay };
    assert((ax + v) * u - (ay + u) * v == ax * u - ay * v) by (nonlinear_arith);
    let (x, y, c) = (x1 - bx, y1 - by, a - b);
    assert(c == x * u - y * v) by (nonlinear_arith) requires c == (x1 * u - y1 * v) - (bx * u - by * v), x == x1 - bx, y == y1 - by;
    assert(x * u <= v * u) by (nonlinear_arith) requires x <= v, u > 0;
    assert(x * u >= 0) by (nonlinear_arith) requires x >= 0, u > 0;
    assert(y >= 0) by (nonlinear_arith) requires y * v > -v, v > 0;
    assert(y <= u) by (nonlinear_arith) requires y * v <= v * u, v > 0;
}
/// the combinations after one Euclidean step
proof fn lemma_lc_start(u: int, v: int)
    requires u > 0, v > 0
    ensures u <= v ==> lc(u, 1, 0, u, v) && lc(v % u, v - v / u, u - 1, u, v) && v / u <= v && 0 <= v % u < u && same(u, v % u, u, v),
        v < u ==> lc(v, v, u - 1, u, v) && lc(u % v, 1, u / v, u, v) && 0 <= u % v < v && same(v, u % v, u, v)
{
    assert(1 * u == u && 0 * v == 0 && v * u - (u - 1) * v == v) by (nonlinear_arith);
    if u <= v { lemma_start1(v, u); let (q, r) = (v / u, v % u); assert(r == (v - q) * u - (u - 1) * v) by (nonlinear_arith) requires v == u * q + r;
        assert forall|d: nat| #[trigger] cd(d, u, r) == cd(d, u, v) by { assert(cd(d, r, u) == cd(d, v, u)); } }
    else { lemma_start1(u, v); let (q, r) = (u / v, u % v); assert(r == 1 * u - q * v) by (nonlinear_arith) requires u == v * q + r;
        assert forall|d: nat| #[trigger] cd(d, v, r) == cd(d, u, v) by { assert(cd(d, r, v) == cd(d, u, v)); } }
}
proof fn lemma_start1(x: int, y: int) requires 0 < y <= x ensures x == y * (x / y) + x % y, 0 <= x / y <= x, 0 <= x % y < y, same(x % y, y, x, y)
{
    lemma_fundamental_div_mod(x, y); lemma_mod_bound(x, y);
    let (q, r) = (x / y, x % y);
    assert(q >= 0) by (nonlinear_arith) requires x == y * q + r, r < y, x > 0, y > 0;
    assert(q <= x) by (nonlinear_arith) requires x == y * q + r, r >= 0, y > 0, q >= 0;
    assert(x - q * y == r) by (nonlinear_arith) requires x == y * q + r;
    lemma_lin(x, y, q);
}
/// numbers with an odd common-divisor class are not both even
proof fn lemma_not_both_even(a: int, b: int, u: int, v: int) requires same(a, b, u, v), u % 2 == 1 || v % 2 == 1 ensures a % 2 != 0 || b % 2 != 0
{ assert(cd(2, a, b) == cd(2, u, v)); }
proof fn lemma_low_div(x: nat, k: nat, z: nat) requires is_tz(x as int, k), z <= k ensures x == (x / p2(z)) * p2(z), z == k ==> (x / p2(z)) % 2 == 1, x / p2(z) > 0
{
    lemma_low_zero(x, z); lemma_p2_pos(z); lemma_fundamental_div_mod(x as int, p2(z) as int);
    assert(p2(z) * (x / p2(z)) == (x / p2(z)) * p2(z)) by (nonlinear_arith);
    lemma_tz_facts(x, k);
    assert(x / p2(z) > 0) by (nonlinear_arith) requires x == (x / p2(z)) * p2(z), x > 0;
}
@fn UBig::extended_gcd -> r
@rewrite `a_zeros . min ( b_zeros )` => `{ proof { za = a_zeros as nat; zb = b_zeros as nat; } usize_min(a_zeros, b_zeros) }`
@rewrite `0u8 . into ( )` => `IBig::from(0u8)`
@rewrite `1u8 . into ( )` => `IBig::from(1u8)`
@rewrite `self >> zeros` => `self.shr(zeros)`
@rewrite `rhs >> zeros` => `rhs.shr(zeros)`
@rewrite `& v - q` => `(&v).sub(q)`
@rewrite `& u - UBig :: from_word ( 1 )` => `(&u).sub(UBig::from_word(1))`
@rewrite `& v - ( ( & v - ax ) >> 1usize )` => `(&v).sub((&v).sub(ax).shr(1usize))`
@rewrite `& u - ( ( & u - ay ) >> 1usize )` => `(&u).sub((&u).sub(ay).shr(1usize))`
@rewrite `& v - ( & bx - ax )` => `(&v).sub((&bx).sub(ax))`
@rewrite `& u - ( & by - ay )` => `(&u).sub((&by).sub(ay))`
@rewrite `& b & 1u8` => `low_bit(&b)`
@rewrite `& a & 1u8` => `low_bit(&a)`
@rewrite `& ax & 1u8` => `low_bit(&ax)`
@rewrite `& ay & 1u8` => `low_bit(&ay)`
@panics self.v() == 0 && rhs.v() == 0
    requires self.wf(), rhs.wf()
    ensures r.0.wf(), r.1.wf(), r.2.wf(), is_gcd(r.0.v(), self.v() as int, rhs.v() as int), r.0.v() == r.1.v() * self.v() + r.2.v() * rhs.v(),
        // the bounds the documentation promises
        -bmax(rhs.v() as int) <= r.1.v() <= bmax(rhs.v() as int), -bmax(self.v() as int) <= r.2.v() <= bmax(self.v() as int)
@start
let ghost (a0, b0) = (self.v(), rhs.v());
let ghost (mut za, mut zb) = (0nat, 0nat);
proof { if a0 > 0 { lemma_gcd0(a0); } if b0 > 0 { lemma_gcd0(b0); } assert forall|k: nat| !#[trigger] is_tz(0, k) by { if is_tz(0, k) { lemma_tz_facts(0, k); } }
    assert(0 * a0 == 0 && 1 * b0 == b0 && 1 * a0 == a0 && 0 * b0 == 0); }
@before `let u =`
let ghost z = zeros as nat;
proof { lemma_low_div(a0, za, z); lemma_low_div(b0, zb, z); }
@before `let mut a ;`
let ghost (uu, vv) = (u.v() as int, v.v() as int);
proof { lemma_lc_start(uu, vv); }
@before `if & b & 1u8`
let ghost m = if uu <= vv { uu } else { vv };
proof { lemma_not_both_even(a.v() as int, b.v() as int, uu, vv); }
@loop 0
    invariant u.wf(), v.wf(), a.wf(), b.wf(), ax.wf(), ay.wf(), bx.wf(), by.wf(), uu == u.v(), vv == v.v(), uu > 0, vv > 0, m <= uu, m <= vv, uu % 2 == 1 || vv % 2 == 1,
        b.v() % 2 == 1, a.v() <= m, b.v() <= m, same(a.v() as int, b.v() as int, uu, vv), lc(a.v() as int, ax.v() as int, ay.v() as int, uu, vv), lc(b.v() as int, bx.v() as int, by.v() as int, uu, vv)
    decreases a.v() + b.v()
@loop 1
    invariant u.wf(), v.wf(), a.wf(), ax.wf(), ay.wf(), uu == u.v(), vv == v.v(), uu > 0, vv > 0, m <= uu, m <= vv, uu % 2 == 1 || vv % 2 == 1,
        b.v() % 2 == 1, a.v() > 0, a.v() <= m, a.v() <= a8, same(a.v() as int, b.v() as int, uu, vv), lc(a.v() as int, ax.v() as int, ay.v() as int, uu, vv)
    decreases a.v()
@loopbefore 0
proof { assert forall|d: nat| #[trigger] cd(d, a.v() as int, b.v() as int) == cd(d, uu, vv) by { assert(cd(d, a.v() as int, b.v() as int) == cd(d, b.v() as int, a.v() as int)); } }
@loopstart 0
broadcast use crate::ubig::lemma_eq;
let ghost a8 = a.v();
@loopstart 1
proof {
    let h = a.v() as int / 2;
    lemma_lc_halve(a.v() as int, ax.v() as int, ay.v() as int, uu, vv); lemma_halve(h, b.v() as int);
    assert forall|d: nat| #[trigger] cd(d, h, b.v() as int) == cd(d, uu, vv) by { assert(cd(d, 2 * h, b.v() as int) == cd(d, h, b.v() as int)); assert(cd(d, a.v() as int, b.v() as int) == cd(d, uu, vv)); }
    assert(p2(1) == 2) by { reveal_with_fuel(p2, 2); }
}
@before `a -= & b ;`
let ghost (a3, b3) = (a.v() as int, b.v() as int);
proof { lemma_lin(a3, b3, 1); assert(1 * b3 == b3);
   assert forall|d: nat| #[trigger] cd(d, a3 - b3, b3) == cd(d, uu, vv) by { assert(cd(d, a3 - 1 * b3, b3) == cd(d, a3, b3)); assert(cd(d, a3, b3) == cd(d, b3, a3)); assert(cd(d, a3, b3) == cd(d, uu, vv)); }
   lemma_lc_sub(a3, ax.v() as int, ay.v() as int, b3, bx.v() as int, by.v() as int, uu, vv);
}
@before `( b << zeros`
broadcast use crate::ubig::lemma_eq;
proof {
    let (g, x, y) = (b.v(), bx.v() as int, by.v() as int); let p = p2(z) as int;
    lemma_gcd0(g); lemma_same_gcd(g, a.v() as int, g as int, uu, vv); lemma_scale(g, uu, vv, z);
    lemma_p2_pos(z); assert(uu <= a0 && vv <= b0) by (nonlinear_arith) requires a0 == uu * p, b0 == vv * p, p >= 1, uu >= 0, vv >= 0;
    assert(g * p == x * a0 + (-y) * b0) by (nonlinear_arith) requires g == x * uu - y * vv, a0 == uu * p, b0 == vv * p;
}

@mod
proof fn lemma_dv_neg(d: nat, x: int) ensures dv(d, x) == dv(d, -x)
{ if d > 0 { if dv(d, x) { lemma_dvq(d, x); let q = x / (d as int); assert(-x == d * (-q)) by (nonlinear_arith) requires x == d * q; lemma_dv(d, -x, -q); }
  if dv(d, -x) { lemma_dvq(d, -x); let q = (-x) / (d as int); assert(x == d * (-q)) by (nonlinear_arith) requires -x == d * q; lemma_dv(d, x, -q); } } }
/// signs do not matter to divisibility
proof fn lemma_gcd_abs(g: nat, a: int, b: int) requires is_gcd(g, ab(a), ab(b)) ensures is_gcd(g, a, b)
{ assert forall|d: nat| #[trigger] cd(d, a, b) == dv(d, g as int) by { lemma_dv_neg(d, a); lemma_dv_neg(d, b); assert(cd(d, ab(a), ab(b)) == dv(d, g as int)); } }
proof fn lemma_bez(g: int, x: int, y: int, s: int, t: int, a: int, b: int) requires g == x * ab(a) + y * ab(b), a == s * ab(a), b == t * ab(b), s == 1 || s == -1, t == 1 || t == -1
    ensures g == (s * x) * a + (t * y) * b, ab(s * x) == ab(x), ab(t * y) == ab(y)
{
    assert((s * x) * a == x * ab(a)) by (nonlinear_arith) requires s == 1 || s == -1, a == s * ab(a);
    assert((t * y) * b == y * ab(b)) by (nonlinear_arith) requires t == 1 || t == -1, b == t * ab(b);
    if s == 1 { assert(s * x == x); } else { assert(s * x == -x) by (nonlinear_arith) requires s == -1; }
    if t == 1 { assert(t * y == y); } else { assert(t * y == -y) by (nonlinear_arith) requires t == -1; }
}
@fn IBig::gcd -> r
@rewrite `self . magnitude ( ) . gcd ( rhs . magnitude ( ) ) . into ( )` => `{ let r = IBig::from(self.magnitude().gcd(rhs.magnitude())); proof { lemma_gcd_abs(r.v() as nat, self.v(), rhs.v()); } r }`
@panics self.v() == 0 && rhs.v() == 0
    requires self.wf(), rhs.wf()
    ensures r.wf(), r.v() >= 0, is_gcd(r.v() as nat, self.v(), rhs.v())
@fn IBig::extended_gcd -> r
@panics self.v() == 0 && rhs.v() == 0
    requires self.wf(), rhs.wf()
    ensures r.0.wf(), r.1.wf(), r.2.wf(), r.0.v() >= 0, is_gcd(r.0.v() as nat, self.v(), rhs.v()), r.0.v() == r.1.v() * self.v() + r.2.v() * rhs.v(),
        -bmax(rhs.v()) <= r.1.v() <= bmax(rhs.v()), -bmax(self.v()) <= r.2.v() <= bmax(self.v())
@before `( IBig :: from ( g )`
proof { lemma_gcd_abs(g.v(), self.v(), rhs.v()); lemma_bez(g.v() as int, x.v(), y.v(), crate::add::sgn(self.sg()), crate::add::sgn(rhs.sg()), self.v(), rhs.v()); }
