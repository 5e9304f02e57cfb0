@file vp_std.rs
@mod
/// A documented panic written in line (`panic!` in the body of the function whose contract allows it).
#[verifier::external_body]
pub fn documented_panic() -> ! requires may_panic() ensures false { panic!() }
/// Ord::min on usize (documented behaviour of core).
#[verifier::external_body]
pub fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { a.min(b) }
@file gcd.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::vp_std::*;
use crate::ubig::*;
use vstd::arithmetic::div_mod::*;
use core::ops::*;
/// d divides x
pub open spec fn dv(d: nat, x: int) -> bool { d > 0 && x % (d as int) == 0 }
/// d divides both
pub open spec fn cd(d: nat, a: int, b: int) -> bool { dv(d, a) && dv(d, b) }
/// g is the greatest common divisor: its divisors are exactly the common divisors (so it is one and every other divides it)
pub open spec fn is_gcd(g: nat, a: int, b: int) -> bool { g > 0 && forall|d: nat| #[trigger] cd(d, a, b) == dv(d, g as int) }
spec fn same(a: int, b: int, u: int, v: int) -> bool { forall|d: nat| #[trigger] cd(d, a, b) == cd(d, u, v) }
proof fn lemma_dv(d: nat, x: int, k: int) requires d > 0, x == d * k ensures dv(d, x) { lemma_mod_multiples_basic(k, d as int); assert(d * k == k * d) by (nonlinear_arith); }
proof fn lemma_dvq(d: nat, x: int) requires dv(d, x) ensures x == d * (x / (d as int)) { lemma_fundamental_div_mod(x, d as int); }
/// the greatest common divisor is common and no common divisor exceeds it
proof fn lemma_gcd_means(g: nat, a: int, b: int) requires is_gcd(g, a, b), a > 0 || b > 0
    ensures dv(g, a), dv(g, b), forall|d: nat| cd(d, a, b) ==> d <= g
{
    lemma_dv(g, g as int, 1); assert(cd(g, a, b));
    assert forall|d: nat| cd(d, a, b) implies d <= g by { lemma_dvq(d, g as int); let k = g as int / d as int; assert(d <= g) by (nonlinear_arith) requires g == d * k, g > 0, d > 0; }
}
/// a and a + k*b have the same common divisors with b
proof fn lemma_lin(a: int, b: int, k: int) ensures same(a + k * b, b, a, b), same(a - k * b, b, a, b)
{
    assert forall|d: nat| #[trigger] cd(d, a + k * b, b) == cd(d, a, b) by { lemma_lin1(d, a, b, k); }
    assert forall|d: nat| #[trigger] cd(d, a - k * b, b) == cd(d, a, b) by { lemma_lin1(d, a, b, -k); assert(a - k * b == a + (-k) * b) by (nonlinear_arith); }
}
proof fn lemma_lin1(d: nat, a: int, b: int, k: int) ensures cd(d, a + k * b, b) == cd(d, a, b)
{
    if d > 0 && dv(d, b) {
        lemma_dvq(d, b); let t = b / d as int;
        if dv(d, a) { lemma_dvq(d, a); let s = a / d as int; assert(a + k * b == d * (s + k * t)) by (nonlinear_arith) requires a == d * s, b == d * t; lemma_dv(d, a + k * b, s + k * t); }
        if dv(d, a + k * b) { lemma_dvq(d, a + k * b); let s = (a + k * b) / d as int; assert(a == d * (s - k * t)) by (nonlinear_arith) requires a + k * b == d * s, b == d * t; lemma_dv(d, a, s - k * t); }
    }
}
/// factors of two do not matter next to an odd number
proof fn lemma_halve(x: int, b: int) requires b % 2 == 1 ensures same(2 * x, b, x, b)
{
    assert forall|d: nat| #[trigger] cd(d, 2 * x, b) == cd(d, x, b) by {
        if dv(d, b) {
            lemma_dvq(d, b); let t = b / d as int;
            assert(d % 2 == 1) by { if d % 2 == 0 { let e = d as int / 2; assert(b == 2 * (e * t)) by (nonlinear_arith) requires b == d * t, d == 2 * e; } }
            if dv(d, x) { lemma_dvq(d, x); let s = x / d as int; assert(2 * x == d * (2 * s)) by (nonlinear_arith) requires x == d * s; lemma_dv(d, 2 * x, 2 * s); }
            if dv(d, 2 * x) {
                lemma_dvq(d, 2 * x); let s = (2 * x) / d as int; let e = d as int / 2; assert(d == 2 * e + 1);
                if s % 2 == 1 { let h = s / 2; assert(s == 2 * h + 1); assert(2 * x == 2 * (2 * e * h + e + h) + 1) by (nonlinear_arith) requires 2 * x == d * s, d == 2 * e + 1, s == 2 * h + 1; }
                let h = s / 2; assert(s == 2 * h);
                assert(x == d * h) by (nonlinear_arith) requires 2 * x == d * s, s == 2 * h;
                lemma_dv(d, x, h);
            }
        }
    }
}
proof fn lemma_strip(x: int, b: int, k: nat) requires b % 2 == 1 ensures same(x * p2(k), b, x, b) decreases k
{
    if k == 0 { assert(p2(0) == 1); assert(x * 1 == x); } else {
        let p = p2((k - 1) as nat) as int;
        lemma_strip(x, b, (k - 1) as nat);
        lemma_halve(x * p, b);
        assert(p2(k) == 2 * p);
        assert(x * p2(k) == 2 * (x * p)) by (nonlinear_arith) requires p2(k) == 2 * p;
        assert forall|d: nat| #[trigger] cd(d, x * p2(k), b) == cd(d, x, b) by { assert(cd(d, 2 * (x * p), b) == cd(d, x * p, b)); assert(cd(d, x * p, b) == cd(d, x, b)); }
    }
}
/// common factors of two come out in front
proof fn lemma_double(g: nat, x: int, y: int) requires is_gcd(g, x, y) ensures is_gcd(2 * g, 2 * x, 2 * y)
{
    assert forall|d: nat| #[trigger] cd(d, 2 * x, 2 * y) == dv(d, (2 * g) as int) by {
        if d > 0 { if d % 2 == 0 {
            let e = (d / 2) as nat;
            assert(d == 2 * e);
            lemma_half(e, x); lemma_half(e, y); lemma_half(e, g as int);
            assert(cd(e, x, y) == dv(e, g as int));
        } else {
            lemma_odd(d, x); lemma_odd(d, y); lemma_odd(d, g as int);
            assert(cd(d, x, y) == dv(d, g as int));
        } }
    }
}
proof fn lemma_half(e: nat, x: int) requires e > 0 ensures dv(2 * e, 2 * x) == dv(e, x)
{
    if dv(e, x) { lemma_dvq(e, x); let k = x / e as int; assert(2 * x == (2 * e) * k) by (nonlinear_arith) requires x == e * k; lemma_dv(2 * e, 2 * x, k); }
    if dv(2 * e, 2 * x) { lemma_dvq(2 * e, 2 * x); let k = (2 * x) / ((2 * e) as int); assert(2 * (e * k) == (2 * e) * k) by (nonlinear_arith); lemma_dv(e, x, k); }
}
proof fn lemma_odd(d: nat, x: int) requires d % 2 == 1 ensures dv(d, 2 * x) == dv(d, x)
{
    lemma_halve(x, d as int); assert(cd(d, 2 * x, d as int) == cd(d, x, d as int)); lemma_dv(d, d as int, 1);
}
proof fn lemma_scale(g: nat, x: int, y: int, k: nat) requires is_gcd(g, x, y) ensures is_gcd(g * p2(k), x * p2(k), y * p2(k)) decreases k
{
    if k == 0 { assert(p2(0) == 1); assert(g * 1 == g && x * 1 == x && y * 1 == y); } else {
        let p = p2((k - 1) as nat);
        lemma_scale(g, x, y, (k - 1) as nat);
        lemma_p2_pos((k - 1) as nat);
        assert(g * p > 0) by (nonlinear_arith) requires g > 0, p > 0;
        lemma_double(g * p, x * p, y * p);
        assert(p2(k) == 2 * p);
        assert(g * p2(k) == 2 * (g * p) && x * p2(k) == 2 * (x * p) && y * p2(k) == 2 * (y * p)) by (nonlinear_arith) requires p2(k) == 2 * p;
    }
}
proof fn lemma_same_gcd(g: nat, a: int, b: int, u: int, v: int) requires same(a, b, u, v), is_gcd(g, a, b) ensures is_gcd(g, u, v)
{ assert forall|d: nat| #[trigger] cd(d, u, v) == dv(d, g as int) by { assert(cd(d, a, b) == cd(d, u, v)); } }
proof fn lemma_gcd0(b: nat) requires b > 0 ensures is_gcd(b, 0, b as int), is_gcd(b, b as int, 0)
{
    assert forall|d: nat| #[trigger] cd(d, 0, b as int) == dv(d, b as int) by { if d > 0 { lemma_dv(d, 0, 0); } }
    assert forall|d: nat| #[trigger] cd(d, b as int, 0) == dv(d, b as int) by { if d > 0 { lemma_dv(d, 0, 0); } }
}
proof fn lemma_gcd_sym(g: nat, a: int, b: int) requires is_gcd(g, a, b) ensures is_gcd(g, b, a)
{ assert forall|d: nat| #[trigger] cd(d, b, a) == dv(d, g as int) by { assert(cd(d, a, b) == cd(d, b, a)); } }
/// v / 2^k is odd when k is the number of trailing zeros, and v is that times 2^k
proof fn lemma_tz_strip(v: nat, k: nat) requires is_tz(v as int, k) ensures v == (v / p2(k)) * p2(k), (v / p2(k)) % 2 == 1, v / p2(k) > 0, v / p2(k) <= v
{ lemma_p2_pos(k); lemma_fundamental_div_mod(v as int, p2(k) as int); assert(p2(k) * (v / p2(k)) == (v / p2(k)) * p2(k)) by (nonlinear_arith); lemma_tz_facts(v, k);
  assert(v / p2(k) <= v) by (nonlinear_arith) requires v == (v / p2(k)) * p2(k), p2(k) >= 1; }
pub proof fn lemma_tz_facts(v: nat, k: nat) requires is_tz(v as int, k) ensures v % p2(k) == 0, (v / p2(k)) % 2 == 1, v > 0
{ lemma_low_zero(v, k); lemma_p2_pos(k); if v == 0 { lemma_bit_small(0, k); } }
pub proof fn lemma_low_zero(v: nat, k: nat) requires forall|j: nat| j < k ==> !#[trigger] bit(v as int, j) ensures v % p2(k) == 0 decreases k
{
    if k == 0 { assert(p2(0) == 1); } else {
        let j = (k - 1) as nat; let p = p2(j) as int; lemma_p2_pos(j);
        lemma_low_zero(v, j);
        assert(!bit(v as int, j));
        lemma_fundamental_div_mod(v as int, p);
        let q = v as int / p; let h = q / 2;
        assert(q == 2 * h);
        assert(p2(k) == 2 * p);
        assert(v == h * (2 * p)) by (nonlinear_arith) requires v == p * q, q == 2 * h;
        lemma_mod_multiples_basic(h, 2 * p);
    }
}
/// from the odd parts (a0 with za zeros, b0 with zb) to the numbers
proof fn lemma_odd_parts(g: nat, a: nat, b: nat, za: nat, zb: nat)
    requires is_gcd(g, a as int, b as int), a % 2 == 1, b % 2 == 1
    ensures is_gcd(g * p2(if za <= zb { za } else { zb }), (a * p2(za)) as int, (b * p2(zb)) as int)
{
    if za <= zb { lemma_odd_parts1(g, a, b, za, zb); } else { lemma_gcd_sym(g, a as int, b as int); lemma_odd_parts1(g, b, a, zb, za); lemma_gcd_sym(g * p2(zb), (b * p2(zb)) as int, (a * p2(za)) as int); }
}
proof fn lemma_odd_parts1(g: nat, a: nat, b: nat, za: nat, zb: nat)
    requires is_gcd(g, a as int, b as int), a % 2 == 1, b % 2 == 1, za <= zb
    ensures is_gcd(g * p2(za), (a * p2(za)) as int, (b * p2(zb)) as int)
{
    let k = (zb - za) as nat; let bk = b as int * p2(k) as int;
    lemma_strip(b as int, a as int, k);
    assert forall|d: nat| #[trigger] cd(d, a as int, bk) == dv(d, g as int) by { assert(cd(d, bk, a as int) == cd(d, b as int, a as int)); assert(cd(d, a as int, b as int) == dv(d, g as int)); }
    lemma_scale(g, a as int, bk, za);
    lemma_p2_add(k, za);
    assert(bk * p2(za) == b * p2(zb)) by (nonlinear_arith) requires bk == b * p2(k), p2(zb) == p2(k) * p2(za);
}
@fn UBig::gcd -> r
@rewrite `a_zeros . min ( b_zeros )` => `usize_min(a_zeros, b_zeros)`
@panics self.v() == 0 && rhs.v() == 0
    requires self.wf(), rhs.wf()
    ensures r.wf(), is_gcd(r.v(), self.v() as int, rhs.v() as int)
@start
let ghost (a0, b0) = (self.v(), rhs.v());
let ghost (mut za, mut zb) = (0nat, 0nat);
proof { if a0 > 0 { lemma_gcd0(a0); } if b0 > 0 { lemma_gcd0(b0); } assert forall|k: nat| !#[trigger] is_tz(0, k) by { if is_tz(0, k) { lemma_tz_facts(0, k); } } }
@before `a >>= a_zeros ;`
proof { za = a_zeros as nat; zb = b_zeros as nat; lemma_tz_strip(a0, za); lemma_tz_strip(b0, zb); }
@before `if a < b`
let ghost (ao, bo) = (a.v(), b.v());
@before `a %= & b`
let ghost (a1, b1) = (a.v() as int, b.v() as int);
proof { lemma_fundamental_div_mod(a1, b1); assert(a1 - (a1 / b1) * b1 == a1 % b1) by (nonlinear_arith) requires a1 == b1 * (a1 / b1) + a1 % b1; lemma_lin(a1, b1, a1 / b1); assert forall|d: nat| #[trigger] cd(d, a1 % b1, b1) == cd(d, ao as int, bo as int) by { assert(cd(d, a1 - (a1 / b1) * b1, b1) == cd(d, a1, b1)); } }
@loop 0
    invariant_except_break a.wf(), b.wf(), b.v() % 2 == 1, same(a.v() as int, b.v() as int, ao as int, bo as int)
    ensures a.v() == 0, b.wf(), b.v() % 2 == 1, same(a.v() as int, b.v() as int, ao as int, bo as int)
    decreases a.v() + b.v()
@loopstart 0
let ghost a2 = a.v();
proof { assert forall|k: nat| #[trigger] is_tz(a2 as int, k) implies a2 == (a2 / p2(k)) * p2(k) && (a2 / p2(k)) % 2 == 1 && 0 < a2 / p2(k) <= a2 && same((a2 / p2(k)) as int, b.v() as int, ao as int, bo as int) by {
    lemma_tz_strip(a2, k); lemma_strip((a2 / p2(k)) as int, b.v() as int, k);
    assert forall|d: nat| #[trigger] cd(d, (a2 / p2(k)) as int, b.v() as int) == cd(d, ao as int, bo as int) by { assert(cd(d, ((a2 / p2(k)) as int) * p2(k), b.v() as int) == cd(d, (a2 / p2(k)) as int, b.v() as int)); assert(cd(d, a2 as int, b.v() as int) == cd(d, ao as int, bo as int)); } } }
@before `a -= & b`
let ghost (a3, b3) = (a.v() as int, b.v() as int);
proof { lemma_lin(a3, b3, 1); assert(1 * b3 == b3);
   assert forall|d: nat| #[trigger] cd(d, a3 - b3, b3) == cd(d, ao as int, bo as int) by { assert(cd(d, a3 - 1 * b3, b3) == cd(d, a3, b3)); assert(cd(d, a3, b3) == cd(d, b3, a3)); } }
@before `b << zeros`
proof {
    lemma_gcd0(b.v()); lemma_same_gcd(b.v(), a.v() as int, b.v() as int, ao as int, bo as int);
    lemma_odd_parts(b.v(), ao, bo, za, zb);
}
