@file pow.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use vstd::arithmetic::power::*;
use core::ops::Mul;
use vstd::arithmetic::div_mod::*;
pub(crate) proof fn lemma_bit_us(x: usize, p: u32) requires p < 64
    ensures (x & (1usize << p) != 0) == ((x as nat / p2(p as nat)) % 2 == 1), (1usize << p) as nat == p2(p as nat), (x >> p) as nat == x as nat / p2(p as nat)
    decreases p
{
    if p == 0 {
        assert(x & (1usize << 0u32) == x % 2 && 1usize << 0u32 == 1 && x >> 0u32 == x) by (bit_vector);
        lemma_div_basics(x as int); assert(p2(0) == 1);
    } else {
        let q = (p - 1) as u32;
        lemma_bit_us(x, q); lemma_p2_pos(q as nat);
        let y = x >> q;
        assert(x >> p == y / 2 && 1usize << p == 2 * (1usize << q)) by (bit_vector) requires 0 < p < 64, q == sub(p, 1), y == x >> q;
        assert(p2(p as nat) == 2 * p2(q as nat));
        lemma_div_denominator(x as int, p2(q as nat) as int, 2);
        assert(p2(q as nat) * 2 == p2(p as nat));
        let z = x >> p;
        assert((x & (1usize << p) != 0) == (z % 2 == 1)) by (bit_vector) requires p < 64, z == x >> p;
    }
}
/// the exponent one bit further
proof fn lemma_next(x: usize, p: u32) requires p < 63 ensures x as nat / p2(p as nat) == 2 * (x as nat / p2((p + 1) as nat)) + (x as nat / p2(p as nat)) % 2
{
    let d = p2(p as nat); lemma_p2_pos(p as nat);
    assert(p2((p + 1) as nat) == 2 * d);
    lemma_div_denominator(x as int, d as int, 2);
    assert(d * 2 == p2((p + 1) as nat));
    lemma_fundamental_div_mod((x as nat / d) as int, 2);
}
proof fn lemma_start(x: usize, k: nat) requires x >= 2, is_bit_len(x as nat, k), k <= 64 ensures k >= 2, x as nat / p2((k - 1) as nat) == 1
{
    assert(p2(0) == 1 && p2(1) == 2) by { reveal_with_fuel(p2, 3); }
    if k < 2 { if k == 0 { } else { assert(x < 2); } }
    let d = p2((k - 1) as nat);
    assert(p2(k) == 2 * d);
    assert(x as nat / d == 1) by (nonlinear_arith) requires d <= x as nat, (x as nat) < 2 * d, d > 0;
}
/// powers of numbers
proof fn lemma_pow_even(b: int, e: nat) ensures pow(b, e) * pow(b, e) == pow(b, 2 * e), pow(b, e) * b == pow(b, e + 1)
{ lemma_pow_adds(b, e, e); lemma_pow_adds(b, e, 1); lemma_pow1(b); }
proof fn lemma_pow_p2(e: nat) ensures pow(2, e) == p2(e) decreases e { if e == 0 { lemma_pow0(2); } else { lemma_pow_p2((e - 1) as nat); lemma_pow_adds(2, 1, (e - 1) as nat); lemma_pow1(2); } }
/// bits of a power of two
proof fn lemma_set_p2(v: nat, n: nat) requires is_set(v as int, 0, n) ensures v == p2(n)
{
    assert forall|m: nat| #[trigger] bit(v as int, m) == bit(p2(n) as int, m) by {
        assert(bit(v as int, m) == (m == n || bit(0, m)));
        lemma_bit_p2(n, m);
        lemma_bit_zero(m);
    }
    lemma_bits_eq(v, p2(n), (v + p2(n)));
}
proof fn lemma_bit_zero(m: nat) ensures !bit(0, m) { lemma_p2_pos(m); lemma_bit_small(0, m); }
proof fn lemma_bit_p2(n: nat, m: nat) ensures bit(p2(n) as int, m) == (m == n)
{
    lemma_p2_pos(m); lemma_p2_pos(n);
    if m > n { lemma_p2_mono(n + 1, m); assert(p2(n + 1) == 2 * p2(n)); lemma_bit_small(p2(n), m); }
    else {
        let k = (n - m) as nat;
        lemma_p2_add(k, m); lemma_p2_pos(k);
        assert(p2(n) == p2(k) * p2(m));
        lemma_div_multiples_vanish(p2(k) as int, p2(m) as int);
        assert(p2(m) * p2(k) == p2(k) * p2(m)) by (nonlinear_arith);
        assert(p2(n) / p2(m) == p2(k));
        if k == 0 { assert(p2(0) == 1); } else { assert(p2(k) == 2 * p2((k - 1) as nat)); }
    }
}
/// numbers with the same bits are the same
proof fn lemma_bits_eq(a: nat, b: nat, k: nat) requires forall|m: nat| #[trigger] bit(a as int, m) == bit(b as int, m), a + b <= k ensures a == b decreases k
{
    if k > 0 && a + b > 0 {
        assert(p2(0) == 1);
        assert(bit(a as int, 0) == bit(b as int, 0));
        assert(a % 2 == b % 2) by { assert(a as int / 1 == a && b as int / 1 == b); }
        assert forall|m: nat| #[trigger] bit((a / 2) as int, m) == bit((b / 2) as int, m) by {
            lemma_p2_pos(m);
            assert(p2(m + 1) == 2 * p2(m));
            lemma_div_denominator(a as int, 2, p2(m) as int);
            lemma_div_denominator(b as int, 2, p2(m) as int);
            assert(bit(a as int, m + 1) == bit(b as int, m + 1));
        }
        lemma_bits_eq(a / 2, b / 2, (k - 1) as nat);
    }
}
proof fn lemma_pow01(e: nat) ensures e > 0 ==> pow(0, e) == 0, pow(1, e) == 1 { lemma1_pow(e); if e > 0 { lemma0_pow(e); } }
pub proof fn lemma_pow_nat(b: nat, e: nat) ensures pow(b as int, e) >= 0, b > 0 ==> pow(b as int, e) > 0 decreases e { if e == 0 { lemma_pow0(b as int); } else { lemma_pow_nat(b, (e - 1) as nat); lemma_pow_adds(b as int, (e - 1) as nat, 1); lemma_pow1(b as int); assert(pow(b as int, (e - 1) as nat) * b >= 0) by (nonlinear_arith) requires pow(b as int, (e - 1) as nat) >= 0; if b > 0 { assert(pow(b as int, (e - 1) as nat) * b > 0) by (nonlinear_arith) requires pow(b as int, (e - 1) as nat) > 0, b > 0; } } }
/// (-b)^e
proof fn lemma_pow_neg(b: int, e: nat) ensures pow(-b, e) == (if e % 2 == 1 { -pow(b, e) } else { pow(b, e) }) decreases e
{
    if e == 0 { lemma_pow0(b); lemma_pow0(-b); } else {
        let f = (e - 1) as nat;
        lemma_pow_neg(b, f); lemma_pow_adds(b, f, 1); lemma_pow_adds(-b, f, 1); lemma_pow1(b); lemma_pow1(-b);
        let p = pow(b, f);
        assert((-p) * (-b) == p * b && p * (-b) == -(p * b)) by (nonlinear_arith);
    }
}
@fn UBig::pow -> r
@rewrite `return self * self` => `return self.mul(self)`
@rewrite `let mut res = self * self` => `let mut res = self.mul(self)`
@rewrite `res = & res * & res` => `res = (&res).mul(&res)`
    requires self.wf()
    ensures r.wf(), r.v() == pow(self.v() as int, exp as nat)
@start
let ghost b = self.v() as int;
proof { lemma_pow0(b); lemma_pow1(b); lemma_pow_even(b, 1); lemma_pow01(exp as nat); lemma_pow_p2(exp as nat); }
@before `return x ;`
proof { lemma_set_p2(x.v(), exp as nat); }
@before `let mut res =`
proof { lemma_start(exp, (64 - (62 - p)) as nat); }
@loop 0
    invariant_except_break p < 63, res.v() == pow(b, 2 * (exp as nat / p2((p + 1) as nat))),
    invariant res.wf(), self.wf(), b == self.v()
    ensures res.wf(), res.v() == pow(b, exp as nat)
    decreases p
@before `if exp & ( 1 << p )`
proof {
    lemma_bit_us(exp, p); lemma_next(exp, p);
    lemma_pow_even(b, 2 * (exp as nat / p2((p + 1) as nat)));
}
@before `if p == 0`
proof { assert(res.v() == pow(b, exp as nat / p2(p as nat))); if p == 0 { assert(p2(0) == 1); lemma_div_basics(exp as int); } lemma_pow_even(b, exp as nat / p2(p as nat)); }
@fn IBig::pow -> r
    requires self.wf()
    ensures r.wf(), r.v() == pow(self.v(), exp as nat)
@start
proof { lemma_pow_neg(self.mag().v() as int, exp as nat); lemma_pow_nat(self.mag().v(), exp as nat); }
