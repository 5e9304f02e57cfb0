@file vp_bits.rs
@mod
use crate::vp_math::*;
#[allow(unused_imports)]
use vstd::arithmetic::power2::*;
#[allow(unused_imports)]
use vstd::arithmetic::mul::*;
#[allow(unused_imports)]
use vstd::arithmetic::div_mod::*;

/// 2^n
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub proof fn lemma_p2_pos(n: nat) ensures p2(n) >= 1 decreases n { if n > 0 { lemma_p2_pos((n - 1) as nat); } }
pub proof fn lemma_p2_add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases a
{
    if a == 0 { assert(1 * p2(b) == p2(b)); } else {
        lemma_p2_add((a - 1) as nat, b);
        let (x, y) = (p2((a - 1) as nat), p2(b));
        assert(2 * (x * y) == (2 * x) * y) by (nonlinear_arith);
    }
}
pub proof fn lemma_p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b) decreases b - a
{ if a < b { lemma_p2_mono(a, (b - 1) as nat); } }
pub proof fn lemma_p2_wb() ensures p2($BITS) == B(), p2($DBITS) == B() * B(), WB() == $BITS
{
    lemma_p2_add(8, 8); lemma_p2_add(16, 16); lemma_p2_add(32, 32); lemma_p2_add(64, 64);
    assert(p2(8) == 256) by { reveal_with_fuel(p2, 9); }
    assert(0x100 * 0x100 == 0x1_0000 && 0x1_0000 * 0x1_0000 == 0x1_0000_0000nat && 0x1_0000_0000 * 0x1_0000_0000 == 0x1_0000_0000_0000_0000nat);
}
/// B^n == 2^(n*BITS)
pub proof fn lemma_pw_p2(n: nat) ensures pw(n) == p2(n * $BITS) decreases n
{
    if n > 0 {
        lemma_pw_p2((n - 1) as nat);
        lemma_p2_wb();
        lemma_p2_add($BITS, ((n - 1) * $BITS) as nat);
        assert($BITS + (n - 1) * $BITS == n * $BITS);
    }
}
pub proof fn lemma_one_shl(s: u32) requires s < $DBITS ensures (1$DW << s) as nat == p2(s as nat) decreases s
{
    if s == 0 { assert((1$DW << 0u32) == 1) by (bit_vector); }
    else {
        let t = (s - 1) as u32;
        lemma_one_shl(t);
        assert(t < $DBITS - 1 ==> (1$DW << ((t + 1) as u32)) == add(1$DW << t, 1$DW << t)) by (bit_vector);
        assert(t < $DBITS - 1 ==> (1$DW << t) <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128) by (bit_vector);
        assert(t < $DBITS - 1 ==> (1$DW << t) <= $DMAX$DW / 2) by (bit_vector);
    }
}
pub proof fn lemma_one_shl_w(s: u32) requires s < $BITS ensures (1$W << s) as nat == p2(s as nat)
{
    lemma_one_shl(s);
    assert(s < $BITS ==> (1$W << s) as $DW == (1$DW << s)) by (bit_vector);
}
/// A word shifted left in a double word is a multiplication.
pub proof fn lemma_shl_mul(x: $W, s: u32) requires s <= $BITS ensures ((x as $DW) << s) as nat == x as nat * p2(s as nat) decreases s
{
    if s == 0 { assert(((x as $DW) << 0u32) == x as $DW) by (bit_vector); assert(x as nat * 1 == x as nat); }
    else {
        let t = (s - 1) as u32;
        lemma_shl_mul(x, t);
        assert(t < $BITS ==> ((x as $DW) << ((t + 1) as u32)) == add((x as $DW) << t, (x as $DW) << t)) by (bit_vector);
        assert(t < $BITS ==> ((x as $DW) << t) <= $DMAX$DW / 2) by (bit_vector);
        let p = p2(t as nat);
        assert(x as nat * (2 * p) == 2 * (x as nat * p)) by (nonlinear_arith);
    }
}
pub proof fn lemma_split(d: $DW) ensures d == (d as $W) as $DW + $BASE * ((d >> $BITSu32) as $W), (d as $W) as nat == d as nat % B(), ((d >> $BITSu32) as $W) as nat == d as nat / B(), (d >> $BITSu32) < $BASE
{
    assert((d as $W) as $DW == d % ($BASE as $DW)) by (bit_vector);
    assert((d >> $BITSu32) == d / ($BASE as $DW)) by (bit_vector);
    assert(d / ($BASE as $DW) < $BASE) by (bit_vector);
    assert((d >> $BITSu32) as $W as $DW == d >> $BITSu32) by (bit_vector);
}
pub proof fn lemma_join(lo: $W, hi: $W) ensures ((lo as $DW) | ((hi as $DW) << $BITSu32)) as nat == lo as nat + B() * hi as nat
{
    assert(((lo as $DW) | ((hi as $DW) << $BITSu32)) == add(lo as $DW, mul(hi as $DW, $BASE as $DW))) by (bit_vector);
    assert(hi as nat * B() == B() * hi as nat);
}
/// Shift left within a double word, low half or-ed with a smaller carry.
pub proof fn lemma_shl_word(x: $W, c: $W, s: u32)
    requires 0 < s < $BITS, c < p2(s as nat)
    ensures
        (((((x as $DW) << s) as $W) | c) as nat + B() * ((((x as $DW) << s) >> $BITSu32) as $W) as nat) == x as nat * p2(s as nat) + c as nat,
        ((((x as $DW) << s) >> $BITSu32) as $W) < p2(s as nat)
{
    lemma_shl_mul(x, s);
    lemma_one_shl_w(s);
    let d = (x as $DW) << s;
    lemma_split(d);
    assert(0 < s && s < $BITS && c < (1$W << s) ==> (((((x as $DW) << s) as $W) | c) == add(((x as $DW) << s) as $W, c)) && (((x as $DW) << s) as $W) <= sub($MAX$W, c)) by (bit_vector);
    assert(0 < s && s < $BITS ==> ((((x as $DW) << s) >> $BITSu32) as $W) < (1$W << s)) by (bit_vector);
}
/// Shift right: x = q*2^s + r, the remainder kept left-justified.
pub proof fn lemma_shr_word(x: $W, c: $W, s: u32)
    requires 0 < s < $BITS, c as nat % p2(($BITS - s) as nat) == 0
    ensures ({
        let d = ((x as $DW) << $BITSu32) >> s;
        let lo = d as $W; let hi = (d >> $BITSu32) as $W;
        &&& (hi | c) as nat == hi as nat + c as nat
        &&& hi as nat * p2(s as nat) + (lo as nat / p2(($BITS - s) as nat)) == x as nat
        &&& lo as nat % p2(($BITS - s) as nat) == 0
        &&& lo as nat / p2(($BITS - s) as nat) < p2(s as nat)
        &&& hi as nat == x as nat / p2(s as nat)
        &&& (lo >> (($BITS - s) as u32)) as nat == x as nat % p2(s as nat)
        &&& lo as nat == (x as nat % p2(s as nat)) * p2(($BITS - s) as nat)
    })
{
    let d = ((x as $DW) << $BITSu32) >> s;
    let (lo, hi) = (d as $W, (d >> $BITSu32) as $W);
    let t = ($BITS - s) as u32;
    lemma_one_shl_w(s); lemma_one_shl_w(t);
    lemma_p2_add(s as nat, t as nat); lemma_p2_wb();
    assert(0 < s && s < $BITS ==> hi == x >> s) by (bit_vector) requires hi == (((((x as $DW) << $BITSu32) >> s) >> $BITSu32) as $W);
    assert(0 < s && s < $BITS ==> lo == x << sub($BITSu32, s)) by (bit_vector) requires lo == ((((x as $DW) << $BITSu32) >> s) as $W);
    lemma_shr_div(x, s);
    lemma_shr_div(lo, t);
    lemma_mask_mod(x, s); lemma_mask_mod(lo, t); lemma_mask_mod(c, t);
    assert((x << t) >> t == x & sub(1$W << s, 1)) by (bit_vector) requires 0 < s < $BITS, t == sub($BITSu32, s);
    assert((x << t) & sub(1$W << t, 1) == 0) by (bit_vector) requires 0 < s < $BITS, t == sub($BITSu32, s);
    assert((x >> s) | c == add(x >> s, c) && (x >> s) <= sub($MAX$W, c)) by (bit_vector) requires 0 < s < $BITS, t == sub($BITSu32, s), c & sub(1$W << t, 1) == 0;
    lemma_fundamental_div_mod(lo as int, p2(t as nat) as int);
    lemma_fundamental_div_mod(x as int, p2(s as nat) as int);
    lemma_mod_bound(x as int, p2(s as nat) as int);
    lemma_mul_is_commutative(p2(t as nat) as int, lo as int / p2(t as nat) as int);
    lemma_mul_is_commutative(p2(s as nat) as int, x as int / p2(s as nat) as int);
}
pub proof fn lemma_shr_div(x: $W, s: u32) requires s < $BITS ensures (x >> s) as nat == x as nat / p2(s as nat) decreases s
{
    lemma_p2_pos(s as nat);
    if s == 0 { assert(x >> 0u32 == x) by (bit_vector); assert(x as nat / 1 == x as nat); }
    else {
        let t = (s - 1) as u32;
        lemma_shr_div(x, t);
        assert(t < $BITS - 1 ==> (x >> ((t + 1) as u32)) == (x >> t) / 2) by (bit_vector);
        lemma_p2_pos(t as nat);
        lemma_div_denominator(x as int, p2(t as nat) as int, 2);
        assert(p2(t as nat) * 2 == p2(s as nat));
    }
}
pub proof fn lemma_mask_mod(x: $W, s: u32) requires s < $BITS ensures (x & sub(1$W << s, 1)) as nat == x as nat % p2(s as nat)
{
    lemma_one_shl_w(s); lemma_shr_div(x, s); lemma_p2_pos(s as nat);
    let m = 1$W << s;
    let (q, r) = (x >> s, x & sub(m, 1));
    assert((x & sub(1$W << s, 1)) < (1$W << s)) by (bit_vector) requires s < $BITS;
    assert(x == add((x >> s) << s, x & sub(1$W << s, 1)) && ((x >> s) << s) <= x) by (bit_vector) requires s < $BITS;
    assert((((x >> s) as $DW) << s) == ((x >> s) << s) as $DW) by (bit_vector) requires s < $BITS;
    lemma_shl_mul(q, s);
    let (mi, qi, ri, xi) = (m as int, q as int, r as int, x as int);
    assert(qi * mi == mi * qi) by (nonlinear_arith);
    let a = (x >> s) << s;
    assert(add(((x >> s) << s) as $DW, (x & sub(1$W << s, 1)) as $DW) == x as $DW) by (bit_vector) requires s < $BITS;
    assert(a as $DW as int + r as $DW as int == x as int);
    assert((q as $DW) << s == a as $DW);
    assert(a as int == qi * mi);
    assert(xi == qi * mi + ri);
    assert(mi * qi == qi * mi && 0 <= ri < mi);
    lemma_fundamental_div_mod_converse(xi, mi, qi, ri);
}
/// A remainder below the divisor determines the quotient.
pub proof fn lemma_quot(a: nat, q: nat, d: nat, r: nat) requires a == q * d + r, r < d ensures q == a / d, r == a % d
{ lemma_fundamental_div_mod_converse(a as int, d as int, q as int, r as int); }
@file primitive.rs
@item const WORD_BITS
@item const WORD_BITS_USIZE
@fn extend_word -> r
    ensures r == word as DoubleWord
@fn double_word -> r
    ensures r as nat == low as nat + crate::vp_math::B() * high as nat, r == (low as DoubleWord) | ((high as DoubleWord) << $BITSu32)
@start
proof { crate::vp_bits::lemma_join(low, high); }
@fn split_double_word -> r
    ensures dw as nat == r.0 as nat + crate::vp_math::B() * r.1 as nat, r.0 == dw as Word, r.1 == (dw >> ($BITSu32)) as Word, r.1 as nat == dw as nat / crate::vp_math::B(), r.0 as nat == dw as nat % crate::vp_math::B()
@start
proof { crate::vp_bits::lemma_split(dw); }

@file shift.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
pub proof fn lemma_shl_step(w0: Seq<Word>, wf: Seq<Word>, i: int, s: nat, c0: nat, c1: nat)
    requires 0 <= i < w0.len(), w0.len() == wf.len(),
        val(wf.take(i)) + c0 * pw(i as nat) == val(w0.take(i)) * p2(s),
        wf[i] as nat + B() * c1 == w0[i] as nat * p2(s) + c0,
    ensures val(wf.take(i + 1)) + c1 * pw((i + 1) as nat) == val(w0.take(i + 1)) * p2(s)
{
    lemma_val_take(w0, i); lemma_val_take(wf, i); lemma_pw_step(i as nat);
    let (p, m, a, f, va, vf) = (pw(i as nat) as int, p2(s) as int, w0[i] as int, wf[i] as int, val(w0.take(i)) as int, val(wf.take(i)) as int);
    assert((va + a * p) * m == va * m + (a * m) * p) by (nonlinear_arith);
    let x = a * m; let (c0, c1) = (c0 as int, c1 as int);
    assert(f * p + c1 * (B() * p) == x * p + c0 * p) by (nonlinear_arith) requires f + B() * c1 == x + c0;
}
@fn shl_in_place -> carry
    requires shift < $BITS
    ensures final(words).len() == old(words).len(),
        val(final(words)@) + carry as nat * pw(old(words).len() as nat) == val(old(words)@) * p2(shift as nat),
        carry < p2(shift as nat),
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = words@;
let ghost wf = final(words)@;
@before `return 0 ;`
proof { let a = val(w0) as int; assert(a * 1 == a); }
@loop 0 it iter_mut
    invariant it.wf(), it.seq().len() == w0.len(), 0 < shift < $BITS,
        forall|j: int| 0 <= j < w0.len() ==> *it.seq()[j] == w0[j] && *final(it.seq()[j]) == wf[j],
        carry < p2(shift as nat),
        val(wf.take(it.index())) + carry as nat * pw(it.index() as nat) == val(w0.take(it.index())) * p2(shift as nat),
@loopbefore 0
proof { lemma_p2_pos(shift as nat); let z = p2(shift as nat) as int; assert(0 * z == 0); }
@loopstart 0
let ghost c0 = carry;
proof { lemma_shl_mul(*word, shift); lemma_shl_word(*word, carry, shift); }
@loopend 0
proof { lemma_shl_step(w0, wf, it.index(), shift as nat, c0 as nat, carry as nat); }
@tail
proof { assert(w0.take(w0.len() as int) =~= w0); assert(wf.take(w0.len() as int) =~= wf); }

@fn shr_in_place -> out
    requires shift < $BITS
    ensures final(words).len() == old(words).len(),
        val(final(words)@) * p2(shift as nat) + out as nat == val(old(words)@), out < p2(shift as nat),
        val(final(words)@) == val(old(words)@) / p2(shift as nat), out as nat == val(old(words)@) % p2(shift as nat),
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = words@;
@before `return 0 ;`
proof { let a = val(w0) as int; assert(a * 1 == a); }
@before `return 0 ;`
proof { let a = val(w0) as int; assert(a * 1 == a); assert(p2(0) == 1); lemma_quot(val(w0), val(w0), 1, 0); }
@loop 0 i idx
    invariant 0 <= i <= words.len(), words.len() == w0.len(), 0 < shift < $BITS,
        forall|j: int| 0 <= j < i ==> words@[j] == w0[j],
        carry as nat % p2(($BITS - shift) as nat) == 0, carry as nat / p2(($BITS - shift) as nat) < p2(shift as nat),
        val(words@.skip(i as int)) * p2(shift as nat) + carry as nat / p2(($BITS - shift) as nat) == val(w0.skip(i as int)),
    decreases i
@loopbefore 0
proof { lemma_p2_pos(shift as nat); let z = p2(shift as nat) as int; assert(0 * z == 0); lemma_p2_pos(($BITS - shift) as nat); 
    vstd::arithmetic::div_mod::lemma_small_mod(0, p2(($BITS - shift) as nat));
    vstd::arithmetic::div_mod::lemma_div_of0(p2(($BITS - shift) as nat) as int); }
@looppre 0
let ghost ws = words@;
@loopstart 0
let ghost (c0, x0) = (carry, *word);
proof { let x = *word; assert((0$W as $DW) | ((x as $DW) << $BITSu32) == (x as $DW) << $BITSu32) by (bit_vector); lemma_shr_word(*word, carry, shift);  lemma_split(((*word as $DW) << $BITSu32) >> shift); }
@loopend 0
proof {
    assert(words@.skip(i + 1) =~= ws.skip(i + 1));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c0 as int, p2(($BITS - shift) as nat) as int);
    let (c, m) = (c0 as int / p2(($BITS - shift) as nat) as int, p2(($BITS - shift) as nat) as int);
    assert(m * c == c * m) by (nonlinear_arith);
    lemma_shr_step(w0, words@, i as int, shift as nat, ($BITS - shift) as nat, x0 as nat / p2(shift as nat), c0 as nat / p2(($BITS - shift) as nat), carry as nat / p2(($BITS - shift) as nat));
}
@tail
proof { assert(w0.skip(0) =~= w0); assert(words@.skip(0) =~= words@); lemma_shr_div(carry, ($BITS - shift) as u32);
    lemma_quot(val(w0), val(words@), p2(shift as nat), carry as nat / p2(($BITS - shift) as nat)); }

@mod
pub proof fn lemma_shr_step(w0: Seq<Word>, wf: Seq<Word>, i: int, s: nat, t: nat, q: nat, d0: nat, d1: nat)
    requires 0 <= i < w0.len(), w0.len() == wf.len(), s + t == $BITS,
        wf[i] as nat == q + d0 * p2(t), q * p2(s) + d1 == w0[i],
        val(wf.skip(i + 1)) * p2(s) + d0 == val(w0.skip(i + 1)),
    ensures val(wf.skip(i)) * p2(s) + d1 == val(w0.skip(i))
{
    lemma_val_first(w0.skip(i)); lemma_val_first(wf.skip(i));
    assert(w0.skip(i).skip(1) =~= w0.skip(i + 1)); assert(wf.skip(i).skip(1) =~= wf.skip(i + 1));
    lemma_p2_add(t, s); lemma_p2_wb();
    let (m, n, v, u) = (p2(s) as int, p2(t) as int, val(wf.skip(i + 1)) as int, val(w0.skip(i + 1)) as int);
    let (q, d0, d1, b) = (q as int, d0 as int, d1 as int, B() as int);
    assert((q + d0 * n + b * v) * m + d1 == q * m + d1 + b * u) by (nonlinear_arith) requires v * m + d0 == u, n * m == b;
}
