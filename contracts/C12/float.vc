@file vp_float.rs
@mod
use vstd::prelude::*;
use crate::vp_bits::*;
use vstd::arithmetic::div_mod::*;
use crate::arch::word::Word;
/// The non-negative float with bit pattern b (mb mantissa bits), in units of the smallest subnormal. The pattern of infinity stands for
/// the next power of two after the largest finite float, as IEEE 754 rounding has it.
pub open spec fn sval(mb: nat, b: nat) -> nat {
    let (e, m) = (b / p2(mb), b % p2(mb));
    if e == 0 { m } else { (p2(mb) + m) * p2((e - 1) as nat) }
}
pub open spec fn dist(a: nat, b: nat) -> nat { if a <= b { (b - a) as nat } else { (a - b) as nat } }
/// b is the float nearest to s among all patterns up to infinity's, ties going to the even pattern.
#[verifier::opaque]
pub open spec fn nearest(mb: nat, inf: nat, b: nat, s: nat) -> bool {
    &&& b <= inf
    &&& forall|c: nat| #![trigger sval(mb, c)] c <= inf && c != b ==> dist(sval(mb, b), s) < dist(sval(mb, c), s) || dist(sval(mb, b), s) == dist(sval(mb, c), s) && b % 2 == 0
}
pub open spec fn rounded32(b: nat, v: nat) -> bool { nearest(23, 0x7f80_0000, b, v * p2(149)) }
pub open spec fn rounded64(b: nat, v: nat) -> bool { nearest(52, 0x7ff0_0000_0000_0000, b, v * p2(1074)) }
/// The bit pattern of a float.
pub uninterp spec fn fb32(x: f32) -> u32;
pub uninterp spec fn fb64(x: f64) -> u64;
@for $F $U $R $B $INF $SIGN in f32,u32,rounded32,fb32,0x7f80_0000,0x8000_0000 f64,u64,rounded64,fb64,0x7ff0_0000_0000_0000,0x8000_0000_0000_0000
#[verifier::external_body]
pub fn $F_from_bits(b: $U) -> (r: $F) ensures $B(r) == b { $F::from_bits(b) }
#[verifier::external_body]
pub fn $F_infinity() -> (r: $F) ensures $B(r) == $INF { $F::INFINITY }
/// `-x` flips the sign
#[verifier::external_body]
pub fn $F_neg(x: $F) -> (r: $F) requires $B(x) < $SIGN ensures $B(r) == $B(x) + $SIGN { -x }
/// `x as float` rounds to nearest even (the Rust reference)
#[verifier::external_body]
pub fn word_as_$F(x: Word) -> (r: $F) ensures $R($B(r) as nat, x as nat) { x as $F }
#[verifier::external_body]
pub fn $U_as_$F(x: $U) -> (r: $F) ensures $R($B(r) as nat, x as nat) { x as $F }
@endfor
pub proof fn lemma_sval_step(mb: nat, b: nat) ensures sval(mb, b) < sval(mb, b + 1)
{
    lemma_p2_pos(mb); let p = p2(mb) as int; let (e, m) = (b as int / p, b as int % p);
    lemma_fundamental_div_mod(b as int, p);
    assert(e * p == p * e) by (nonlinear_arith);
    if m + 1 < p {
        lemma_fundamental_div_mod_converse(b as int + 1, p, e, m + 1);
        if e == 0 { assert(sval(mb, b) == m); assert(sval(mb, b + 1) == m + 1); } else { let q = p2((e - 1) as nat); lemma_p2_pos((e - 1) as nat); assert(sval(mb, b) == (p + m) * q); assert(sval(mb, b + 1) == (p + m + 1) * q); assert((p + m) * q < (p + m + 1) * q) by (nonlinear_arith) requires q > 0; }
    } else {
        assert(e * p + p == (e + 1) * p) by (nonlinear_arith); assert(e * p == p * e) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(b as int + 1, p, e + 1, 0);
        if e == 0 { assert(p2(0) == 1); assert(sval(mb, b + 1) == p * 1); assert(sval(mb, b) == m); } else {
            let q = p2((e - 1) as nat); lemma_p2_pos((e - 1) as nat); assert(p2(e as nat) == 2 * q); assert(sval(mb, b) == (p + m) * q); assert(sval(mb, b + 1) == (p + 0) * p2(e as nat));
            assert((p + m) * q < p * (2 * q)) by (nonlinear_arith) requires q > 0, m == p - 1;
        }
    }
}
pub proof fn lemma_sval_mono(mb: nat, a: nat, b: nat) requires a < b ensures sval(mb, a) < sval(mb, b) decreases b - a
{ lemma_sval_step(mb, (b - 1) as nat); if a < b - 1 { lemma_sval_mono(mb, a, (b - 1) as nat); } }
pub proof fn lemma_nearest(mb: nat, inf: nat, c: nat, s: nat, up: bool)
    requires c < inf, sval(mb, c) <= s <= sval(mb, c + 1), up == (2 * s > sval(mb, c) + sval(mb, c + 1) || 2 * s == sval(mb, c) + sval(mb, c + 1) && c % 2 == 1)
    ensures nearest(mb, inf, if up { c + 1 } else { c }, s)
{
    reveal(nearest); let b = if up { c + 1 } else { c };
    lemma_sval_step(mb, c);
    assert forall|d: nat| #![trigger sval(mb, d)] d <= inf && d != b implies dist(sval(mb, b), s) < dist(sval(mb, d), s) || dist(sval(mb, b), s) == dist(sval(mb, d), s) && b % 2 == 0 by {
        if d < c { lemma_sval_mono(mb, d, c); } else if d > c + 1 { lemma_sval_mono(mb, c + 1, d); }
    }
}
pub proof fn lemma_nearest_inf(mb: nat, inf: nat, s: nat) requires sval(mb, inf) <= s ensures nearest(mb, inf, inf, s)
{
    reveal(nearest);
    assert forall|d: nat| #![trigger sval(mb, d)] d <= inf && d != inf implies dist(sval(mb, inf), s) < dist(sval(mb, d), s) by { lemma_sval_mono(mb, d, inf); }
}
/// Truncating v (n bits) to mb + 1 bits, then rounding by the bits cut off, is rounding to nearest even.
/// sh: the scale (v * 2^sh in units); x: the mantissa with one extra bit; e0: exponent field - 1.
pub proof fn lemma_round(mb: nat, inf: nat, sh: nat, v: nat, k: nat, x: nat, e0: nat, low: bool, up: bool)
    requires x == v / p2(k), 2 * p2(mb) <= x < 4 * p2(mb), low == (v % p2(k) != 0), e0 == k + 1 + sh, e0 * p2(mb) + x / 2 < inf,
        up == (x % 2 == 1 && (low || (x / 2) % 2 == 1)), mb > 0,
    ensures nearest(mb, inf, (e0 * p2(mb) + x / 2 + (if up { 1nat } else { 0nat })) as nat, v * p2(sh))
{
    let m = x / 2; let p = p2(mb); let u = p2(k + 1 + sh); let c = e0 * p + m; let s = v * p2(sh);
    lemma_p2_pos(mb); lemma_p2_pos(k); lemma_p2_pos(sh); lemma_p2_add(k + 1, sh); lemma_p2_pos(e0);
    let (pk, ps) = (p2(k), p2(sh)); assert(p2(k + 1) == 2 * pk);
    let r = v % pk;
    lemma_fundamental_div_mod(v as int, pk as int);
    // patterns c and c + 1
    assert(c == (e0 + 1) * p + (m - p)) by (nonlinear_arith) requires c == e0 * p + m;
    lemma_fundamental_div_mod_converse(c as int, p as int, e0 as int + 1, m - p);
    assert(sval(mb, c) == m * u);
    if m - p + 1 < p {
        lemma_fundamental_div_mod_converse(c as int + 1, p as int, e0 as int + 1, m - p + 1);
        assert(sval(mb, c + 1) == (m + 1) * u);
    } else {
        assert((e0 + 1) * p + p == (e0 + 2) * p) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(c as int + 1, p as int, e0 as int + 2, 0);
        assert(p2((e0 + 1) as nat) == 2 * p2(e0 as nat));
        assert(sval(mb, c + 1) == p * (2 * u));
        assert((m + 1) * u == p * (2 * u)) by (nonlinear_arith) requires m + 1 == 2 * p;
    }
    // s = m * u + rest, rest = (x % 2) * u / 2 + r * ps
    let h = pk * ps; assert(u == 2 * h) by (nonlinear_arith) requires u == (2 * pk) * ps, h == pk * ps;
    assert(s == x * h + r * ps) by (nonlinear_arith) requires s == v * ps, v == pk * x + r, h == pk * ps;
    assert(r * ps < h) by (nonlinear_arith) requires r < pk, ps >= 1, h == pk * ps;
    assert(low == (r * ps > 0)) by (nonlinear_arith) requires low == (r != 0), ps >= 1, r >= 0;
    assert(m * u == (2 * m) * h) by (nonlinear_arith) requires u == 2 * h;
    assert((m + 1) * u == m * u + u) by (nonlinear_arith);
    let z = r * ps;
    if x % 2 == 1 { assert(x * h == (2 * m) * h + h) by (nonlinear_arith) requires x == 2 * m + 1; } else { assert(x == 2 * m); }
    assert(c % 2 == m % 2) by { lemma_even_mul(e0, mb); };
    lemma_nearest(mb, inf, c, s, up);
}
proof fn lemma_even_mul(e: nat, mb: nat) requires mb > 0 ensures (e * p2(mb)) % 2 == 0
{ let q = p2((mb - 1) as nat); assert(e * (2 * q) == 2 * (e * q)) by (nonlinear_arith); }
pub proof fn lemma_p2_values() ensures p2(8) == 0x100, p2(16) == 0x1_0000, p2(23) == 0x80_0000, p2(24) == 0x100_0000, p2(25) == 0x200_0000, p2(32) == 0x1_0000_0000, p2(52) == 0x10_0000_0000_0000, p2(53) == 0x20_0000_0000_0000, p2(54) == 0x40_0000_0000_0000, p2(64) == 0x1_0000_0000_0000_0000
{
    reveal_with_fuel(p2, 9); assert(p2(8) == 0x100);
    lemma_p2_add(8, 8); lemma_p2_add(16, 7); assert(p2(7) == 0x80); lemma_p2_add(16, 8); lemma_p2_add(24, 1); assert(p2(1) == 2); lemma_p2_add(16, 16);
    lemma_p2_add(32, 16); lemma_p2_add(48, 4); assert(p2(4) == 16); lemma_p2_add(52, 1); lemma_p2_add(53, 1); lemma_p2_add(32, 32);
}
/// the top d bits of an n-bit number
pub proof fn lemma_top_bits(v: nat, n: nat, d: nat) requires is_bit_len(v, n), 0 < d <= n ensures p2((d - 1) as nat) <= v / p2((n - d) as nat) < p2(d)
{
    let k = (n - d) as nat; lemma_p2_pos(k); lemma_p2_add(k, d); lemma_p2_add(k, (d - 1) as nat);
    let (p, a, b) = (p2(k) as int, p2(d) as int, p2((d - 1) as nat) as int);
    assert(p * a == a * p && p * b == b * p) by (nonlinear_arith);
    lemma_fundamental_div_mod(v as int, p); let q = v as int / p; let r = v as int % p;
    assert(q < a) by (nonlinear_arith) requires p * q + r < p * a, r >= 0, p > 0;
    assert(q >= b) by (nonlinear_arith) requires p * q + r >= p * b, r < p, p > 0;
}
/// a number with more than nmax bits is beyond the largest finite float
pub proof fn lemma_overflow(v: nat, mb: nat, sh: nat, inf: nat, n: nat, nmax: nat) requires v >= p2(nmax), nmax + sh == e_of(inf, mb) - 1 + mb, inf % p2(mb) == 0, e_of(inf, mb) > 0 ensures nearest(mb, inf, inf, v * p2(sh))
{
    lemma_p2_add(nmax, sh); lemma_p2_add(mb, (e_of(inf, mb) - 1) as nat); lemma_p2_pos(sh);
    let (a, b, c) = (v as int, p2(nmax) as int, p2(sh) as int);
    assert(a * c >= b * c) by (nonlinear_arith) requires a >= b, c >= 0;
    lemma_nearest_inf(mb, inf, v * p2(sh));
}
pub open spec fn e_of(inf: nat, mb: nat) -> nat { inf / p2(mb) }
@file convert.rs
@mod
use crate::vp_float::*;
use crate::vp_bits::*;
@fn round_to_even_adjustment -> r
    ensures r == (bits >= 6 || bits == 3)
@for $F $U $B $R $MB $D $EB $SH $INF $NMAX $X $LO $PM $EM $SIGN in f32,u32,fb32,rounded32,23,25,126,149,0x7f80_0000,128,mantissa25,32,0x80_0000,0x200,0x8000_0000 f64,u64,fb64,rounded64,52,54,1022,1074,0x7ff0_0000_0000_0000,1024,mantissa54,64,0x10_0000_0000_0000,0x800,0x8000_0000_0000_0000
@mod
proof fn lemma_fields_$F(x: $U, e: $U) requires e < $EM ensures e << $MB == e * $PM, x >> 1 == x / 2
{
    assert(e << $MB == mul(e, $PM)) by (bit_vector) requires e < $EM;
    assert(x >> 1 == x / 2) by (bit_vector);
}
proof fn lemma_low_$F(x: $U, b: u32) requires b < 2 ensures (((x & 0b11) as u32) << 1) | b == ((x % 4) as u32) * 2 + b
{
    assert((((x & 0b11) as u32) << 1) | b == add(mul((x % 4) as u32, 2), b)) by (bit_vector) requires b < 2;
}
@fn UBig::to_$F -> r
@rewrite `* word as $F` => `word_as_$F(*word)`
@rewrite `val as $F` => `$U_as_$F(val)`
    requires self.wf()
    ensures $R($B(r) as nat, self.v())
@fn UBig::to_$F_slow -> r
@rewrite `$F :: INFINITY` => `$F_infinity()`
@rewrite `$F :: from_bits (` => `$F_from_bits(`
@rewrite `( $LO .. $NMAX ) . contains ( & exponent )` => `($LO <= exponent && exponent < $NMAX)`
    requires self.wf(), self.v() > $U::MAX as nat
    ensures $R($B(r) as nat, self.v())
@start
let ghost v = self.v();
proof { lemma_p2_values(); }
@after `let n = self . bit_len ( ) ;`
proof {
    if n <= $LO { lemma_p2_mono(n as nat, $LO); }
    if n > $NMAX { lemma_p2_mono($NMAX, (n - 1) as nat); lemma_overflow(v, $MB, $SH, $INF, n as nat, $NMAX); }
}
@before `let $X =`
let ghost k = (n - $D) as nat;
proof { lemma_top_bits(v, n as nat, $D); }
@before `let value = ( ( exponent`
proof {
    lemma_fields_$F($X, (exponent + $EB) as $U);
}
@before `$F :: from_bits (`
proof {
    let x = $X; let e = (exponent + $EB) as $U;
    lemma_low_$F(x, if extra_bit { 1 } else { 0 });
    lemma_round($MB, $INF, $SH, v, k, x as nat, e as nat, extra_bit, adjustment);
}
@fn IBig::to_$F -> r
@rewrite `- val` => `$F_neg(val)`
    requires self.wf()
    ensures self.v() >= 0 ==> $R($B(r) as nat, self.v() as nat), self.v() < 0 ==> $B(r) >= $SIGN && $R(($B(r) - $SIGN) as nat, (-self.v()) as nat)
@start
proof { reveal(nearest); }
@endfor
