@file vp_bits.rs
@mod
/// x shifted by a usize amount
pub proof fn lemma_shl_usize(x: $W, s: usize) requires s <= $BITS ensures ((x as $DW) << s) as nat == x as nat * p2(s as nat)
{
    lemma_shl_mul(x, s as u32);
    let t = s as u32;
    assert((x as $DW) << s == (x as $DW) << t) by (bit_vector) requires s <= $BITS, t == s as u32;
}
pub proof fn lemma_shr_usize(x: $W, s: usize) requires s < $BITS ensures (x >> s) as nat == x as nat / p2(s as nat)
{
    lemma_shr_div(x, s as u32);
    let t = s as u32;
    assert(x >> s == x >> t) by (bit_vector) requires s < $BITS, t == s as u32;
}
/// Double word shifted right.
pub proof fn lemma_dshr_div(x: $DW, s: u32) requires s < $DBITS ensures (x >> s) as nat == x as nat / p2(s as nat) decreases s
{
    lemma_p2_pos(s as nat);
    if s == 0 { assert(x >> 0u32 == x) by (bit_vector); assert(x as nat / 1 == x as nat); }
    else {
        let t = (s - 1) as u32;
        lemma_dshr_div(x, t);
        assert(t < $DBITS - 1 ==> (x >> ((t + 1) as u32)) == (x >> t) / 2) by (bit_vector);
        lemma_p2_pos(t as nat);
        lemma_div_denominator(x as int, p2(t as nat) as int, 2);
        assert(p2(t as nat) * 2 == p2(s as nat));
    }
}
/// 2^n = B^(n / BITS) * 2^(n % BITS)
pub proof fn lemma_p2_split(n: nat) ensures p2(n) == pw(n / $BITS) * p2(n % $BITS)
{
    lemma_pw_p2(n / $BITS);
    lemma_p2_add((n / $BITS) * $BITS, n % $BITS);
}
/// Leading words moved up by n words.
pub proof fn lemma_val_zeros_front(n: nat, s: Seq<Word>) ensures val(Seq::new(n, |i: int| 0 as Word) + s) == pw(n) * val(s)
{
    let z = Seq::new(n, |i: int| 0 as Word);
    lemma_val_concat(z, s); lemma_val_zero(z);
}
pub proof fn lemma_val_zeros_back(n: nat, s: Seq<Word>) ensures val(s + Seq::new(n, |i: int| 0 as Word)) == val(s)
{
    let z = Seq::new(n, |i: int| 0 as Word);
    lemma_val_concat(s, z); lemma_val_zero(z);
    let p = pw(s.len()) as int; assert(p * 0 == 0);
}
/// Dropping k low words is division by B^k.
pub proof fn lemma_val_skip_div(s: Seq<Word>, k: int) requires 0 <= k <= s.len() ensures val(s.skip(k)) == val(s) / pw(k as nat), val(s.take(k)) == val(s) % pw(k as nat)
{
    lemma_val_split(s, k); lemma_val_bound(s.take(k)); lemma_pw_pos(k as nat);
    let (p, q, r) = (pw(k as nat) as int, val(s.skip(k)) as int, val(s.take(k)) as int);
    assert(p * q == q * p) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(val(s) as int, p, q, r);
}
pub proof fn lemma_div_p2_split(v: nat, n: nat) ensures v / p2(n) == (v / pw(n / $BITS)) / p2(n % $BITS), v / pw(n / $BITS) == v / p2(n / $BITS * $BITS)
{
    lemma_p2_split(n); lemma_pw_pos(n / $BITS); lemma_p2_pos(n % $BITS); lemma_pw_p2(n / $BITS);
    lemma_div_denominator(v as int, pw(n / $BITS) as int, p2(n % $BITS) as int);
}
pub proof fn lemma_div_zero(a: nat, d: nat) requires a < d ensures a / d == 0 { vstd::arithmetic::div_mod::lemma_basic_div(a as int, d as int); }
/// All words below the shift: nothing left.
pub proof fn lemma_shr_all(s: Seq<Word>, n: nat) requires n / $BITS >= s.len() ensures val(s) / p2(n) == 0, val(s) < p2(n)
{
    lemma_val_bound(s); lemma_pw_mono(s.len(), n / $BITS); lemma_p2_split(n); lemma_p2_pos(n % $BITS);
    let (p, q) = (pw(n / $BITS) as int, p2(n % $BITS) as int);
    assert(p * q >= p) by (nonlinear_arith) requires q >= 1, p >= 0;
    lemma_div_zero(val(s), p2(n));
}
/// Division by 2^n rounding down, for any sign.
pub open spec fn fdiv(a: int, d: int) -> int { a / d }
@file math.rs
@fn ones -> r
@mono T=Word as ones_gw
    requires n <= $BITS
    ensures r as nat == crate::vp_bits::p2(n as nat) - 1, n == $BITS ==> r == $MAX, n < $BITS ==> r == sub(1$W << n, 1)
@start
proof {
    if n > 0 { assert(n <= $BITS && 0 < n ==> ($MAX$W >> sub($BITSu32, n)) as $DW == sub((1$DW << n), 1) && (1$DW << n) >= 1) by (bit_vector); }
    if n < $BITS { assert(n < $BITS && 0 < n ==> ($MAX$W >> sub($BITSu32, n)) == sub((1$W << n), 1)) by (bit_vector); assert(sub(1$W << 0u32, 1) == 0) by (bit_vector); }
    assert(n == $BITS ==> ($MAX$W >> sub($BITSu32, n)) == $MAX$W) by (bit_vector);
    crate::vp_bits::lemma_one_shl(n);
}
@file shift_ops.rs
@mod
use crate::vp_math::*;
use crate::vp_std::*;
use crate::vp_bits::*;
use crate::ubig::*;
@expand impl_shifts
@fn UBig::shl_word -> r
    requires word != 0
    ensures r.wf(), r.v() == word as nat * p2(rhs as nat)
@start
proof { if rhs <= $BITS { lemma_shl_usize(word, rhs); } }
@fn UBig::shl_word_slow -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    ensures r.wf(), r.v() == word as nat * p2(rhs as nat)
@before `buffer . into ( )` last
proof {
    lemma_shl_mul(word, shift_bits); lemma_p2_split(rhs as nat);
    let hi2 = seq![lo, hi];
    assert(buffer@ =~= Seq::new(shift_words as nat, |i: int| 0 as Word) + hi2);
    lemma_val_zeros_front(shift_words as nat, hi2); crate::add_ops::lemma_val_two(hi2);
    let (a, p, q) = (word as int, pw(shift_words as nat) as int, p2(shift_bits as nat) as int);
    assert(p * (a * q) == a * (p * q)) by (nonlinear_arith);
}
@fn UBig::shl_large -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf()
    ensures r.wf(), r.v() == val(buffer@) * p2(rhs as nat)
@start
let ghost b0 = buffer@;
let ghost b1;
@after `shift :: shl_in_place ( & mut buffer , shift_bits ) ;`
proof { b1 = buffer@; }
@before `buffer . into ( )` last
proof {
    lemma_val_push(b1, carry); lemma_val_zeros_front(shift_words as nat, b1.push(carry)); lemma_p2_split(rhs as nat);
    let (a, p, q) = (val(b0) as int, pw(shift_words as nat) as int, p2(shift_bits as nat) as int);
    assert(p * (a * q) == a * (p * q)) by (nonlinear_arith);
}
@fn UBig::shl_ref_large -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
@rewrite `buffer . extend ( words )` => `crate::buffer::buffer_extend_ref(&mut buffer, words)`
    requires words.len() <= MAXLEN() + 4
    ensures r.wf(), r.v() == val(words@) * p2(rhs as nat)
@start
let ghost b1;
let ghost b2;
@before `let carry = shift`
proof { b1 = buffer@; }
@before `buffer . push ( carry )`
proof { b2 = buffer@; assert(b1.skip(shift_words as int) =~= words@); assert(b2.take(shift_words as int) =~= Seq::new(shift_words as nat, |i: int| 0 as Word)); }
@before `buffer . into ( )` last
proof {
    let w = b2.skip(shift_words as int);
    assert(buffer@ =~= Seq::new(shift_words as nat, |i: int| 0 as Word) + w.push(carry));
    lemma_val_push(w, carry); lemma_val_zeros_front(shift_words as nat, w.push(carry)); lemma_p2_split(rhs as nat);
    let (a, p, q) = (val(words@) as int, pw(shift_words as nat) as int, p2(shift_bits as nat) as int);
    assert(p * (a * q) == a * (p * q)) by (nonlinear_arith);
}
@fn UBig::shr_word -> r
    ensures r.wf(), r.v() == word as nat / p2(rhs as nat)
@start
proof { if rhs < $BITS { lemma_shr_usize(word, rhs); } else { lemma_val_one(word); lemma_shr_all(seq![word], rhs as nat); } }
@fn UBig::shr_large -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf()
    ensures r.wf(), r.v() == val(buffer@) / p2(rhs as nat)
@start
let ghost b0 = buffer@;
proof { if rhs / $BITS >= buffer@.len() { lemma_shr_all(buffer@, rhs as nat); } else { lemma_val_skip_div(b0, (rhs / $BITS) as int); lemma_div_p2_split(val(b0), rhs as nat); } }
@fn UBig::shr_large_ref -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
@rewrite `buffer . extend ( words )` => `crate::buffer::buffer_extend_ref(&mut buffer, words)`
@rewrite `match words {` => `match words.len() {`
@rewrite `[ ] => UBig` => `0 => UBig`
@rewrite `& [ w ] => UBig :: from_word ( w >>` => `1 => UBig::from_word(words[0] >>`
@rewrite `& [ lo , hi ] => UBig :: from ( double_word ( lo , hi ) >>` => `2 => UBig::from(double_word(words[0], words[1]) >>`
    ensures r.wf(), r.v() == val(words@) / p2(rhs as nat)
@start
let ghost w0 = words@;
proof { if rhs / $BITS >= words@.len() { lemma_shr_all(words@, rhs as nat); } else { lemma_val_skip_div(w0, (rhs / $BITS) as int); lemma_div_p2_split(val(w0), rhs as nat); } }
@before `match words`
proof {
    if shift_words < w0.len() {
        if words@.len() == 1 { lemma_val_one(words@[0]); assert(words@ =~= seq![words@[0]]); lemma_shr_div(words@[0], shift_bits); }
        if words@.len() == 2 { crate::add_ops::lemma_val_two(words@); lemma_join(words@[0], words@[1]); lemma_dshr_div((words@[0] as DoubleWord) | ((words@[1] as DoubleWord) << $BITSu32), shift_bits); }
    }
}
@plain
use crate::arch::word::DoubleWord;
@for $T in UBig &UBig
@fn Shl<usize> for $T::shl -> r
@pre self.wf()
    ensures r.wf(), r.v() == self.v() * p2(rhs as nat)
@start
proof { let z = p2(rhs as nat) as int; assert(0 * z == 0); }
@fn Shr<usize> for $T::shr -> r
@pre self.wf()
    ensures r.wf(), r.v() == self.v() / p2(rhs as nat)
@endfor
