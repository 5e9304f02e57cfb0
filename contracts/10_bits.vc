@file vp_bits.rs
@mod
/// Bit i of the infinite two's complement representation of v (division rounds down).
pub open spec fn bit(v: int, i: nat) -> bool { (v / (p2(i) as int)) % 2 == 1 }
pub proof fn lemma_bit_small(v: nat, i: nat) requires v < p2(i) ensures !bit(v as int, i) { lemma_div_zero(v, p2(i)); }
pub proof fn lemma_wbit(w: $W, j: u32) requires j < $BITS ensures bit(w as int, j as nat) == ((w >> j) & 1 == 1), bit(w as int, j as nat) == (w & (1$W << j) != 0)
{
    lemma_shr_div(w, j);
    let x = w >> j;
    assert((x & 1) == x % 2) by (bit_vector);
    assert(((w >> j) & 1 == 1) == (w & (1$W << j) != 0)) by (bit_vector) requires j < $BITS;
}
/// bits of the word operators
pub proof fn lemma_wops(a: $W, b: $W, j: nat)
    ensures bit((a & b) as int, j) == (bit(a as int, j) && bit(b as int, j)),
        bit((a | b) as int, j) == (bit(a as int, j) || bit(b as int, j)),
        bit((a ^ b) as int, j) == (bit(a as int, j) != bit(b as int, j)),
        bit((a & !b) as int, j) == (bit(a as int, j) && !bit(b as int, j)),
{
    if j < $BITS {
        let k = j as u32;
        lemma_wbit(a, k); lemma_wbit(b, k); lemma_wbit(a & b, k); lemma_wbit(a | b, k); lemma_wbit(a ^ b, k); lemma_wbit(a & !b, k);
        assert((((a & b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) && ((b >> k) & 1 == 1))) by (bit_vector) requires k < $BITS;
        assert((((a | b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) || ((b >> k) & 1 == 1))) by (bit_vector) requires k < $BITS;
        assert((((a ^ b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) != ((b >> k) & 1 == 1))) by (bit_vector) requires k < $BITS;
        assert((((a & !b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) && !((b >> k) & 1 == 1))) by (bit_vector) requires k < $BITS;
    } else {
        lemma_p2_wb(); lemma_p2_mono($BITS, j);
        lemma_bit_small(a as nat, j); lemma_bit_small(b as nat, j); lemma_bit_small((a & b) as nat, j); lemma_bit_small((a | b) as nat, j); lemma_bit_small((a ^ b) as nat, j); lemma_bit_small((a & !b) as nat, j);
    }
}
/// Bit i of a word string is bit i % BITS of word i / BITS.
pub open spec fn wsbit(s: Seq<Word>, i: nat) -> bool { i / $BITS < s.len() && bit(s[(i / $BITS) as int] as int, i % $BITS) }
pub proof fn lemma_bit_words(s: Seq<Word>, i: nat) ensures bit(val(s) as int, i) == wsbit(s, i)
{
    let k = i / $BITS; let t = i % $BITS;
    if k >= s.len() { lemma_shr_all(s, i); lemma_bit_small(val(s), i); }
    else {
        lemma_div_p2_split(val(s), i); lemma_val_skip_div(s, k as int); lemma_val_first(s.skip(k as int));
        let (w, r) = (s[k as int] as nat, val(s.skip(k as int).skip(1)));
        lemma_bit_low(w, r, t);
    }
}
/// (w + B r) / 2^t has the parity of w / 2^t for t < BITS
pub proof fn lemma_bit_low(w: nat, r: nat, t: nat) requires t < $BITS ensures ((w + B() * r) / p2(t)) % 2 == (w / p2(t)) % 2, (w + B() * r) % p2(t) == w % p2(t)
{
    lemma_p2_wb(); lemma_p2_pos(t); lemma_p2_add(t, ($BITS - t) as nat); lemma_p2_add(1, ($BITS - t - 1) as nat); lemma_p2_pos(($BITS - t - 1) as nat);
    assert(p2(1) == 2) by { reveal_with_fuel(p2, 2); }
    let (m, h) = (p2(t) as int, p2(($BITS - t - 1) as nat) as int);
    let (ri, wi) = (r as int, w as int);
    assert(B() as int == m * (2 * h));
    assert(B() * ri == m * (2 * h * ri)) by (nonlinear_arith) requires B() as int == m * (2 * h);
    lemma_hoist_over_denominator(wi, 2 * h * ri, m as nat);
    let (a, b) = (2 * h * ri, m * (2 * h * ri));
    assert(a * m == b) by (nonlinear_arith) requires a == 2 * h * ri, b == m * (2 * h * ri);
    let q = wi / m; let z = h * ri;
    assert(2 * h * ri == 2 * z) by (nonlinear_arith) requires z == h * ri;
    assert((q + 2 * z) % 2 == q % 2);
    lemma_mod_multiples_vanish(a, wi, m);
    assert(m * a + wi == wi + B() * ri);
}
/// complement
pub proof fn lemma_bit_not(v: int, i: nat) ensures bit(-v - 1, i) == !bit(v, i)
{
    lemma_p2_pos(i);
    let d = p2(i) as int;
    let (q, r) = (v / d, v % d);
    lemma_fundamental_div_mod(v, d); lemma_mod_bound(v, d);
    assert(-v - 1 == (-q - 1) * d + (d - 1 - r)) by (nonlinear_arith) requires v == d * q + r;
    lemma_fundamental_div_mod_converse(-v - 1, d, -q - 1, d - 1 - r);
}
pub broadcast proof fn lemma_bit_not_b(v: int, i: nat) ensures #[trigger] bit(-v - 1, i) == !bit(v, i) { lemma_bit_not(v, i); }
/// -(v) / d in terms of v / d
pub proof fn lemma_neg_fdiv(v: int, d: int) requires d > 0, v >= 0 ensures (-v) / d == -(v / d) - (if v % d != 0 { 1int } else { 0 })
{
    lemma_fundamental_div_mod(v, d); lemma_mod_bound(v, d);
    let (q, r) = (v / d, v % d);
    if r == 0 { assert(-v == (-q) * d + 0) by (nonlinear_arith) requires v == d * q; lemma_fundamental_div_mod_converse(-v, d, -q, 0); }
    else { assert(-v == (-q - 1) * d + (d - r)) by (nonlinear_arith) requires v == d * q + r; lemma_fundamental_div_mod_converse(-v, d, -q - 1, d - r); }
}
/// low n bits of a word string
pub proof fn lemma_mod_words(s: Seq<Word>, n: nat) requires n / $BITS < s.len()
    ensures val(s) % p2(n) == val(s.take((n / $BITS) as int)) + pw(n / $BITS) * (s[(n / $BITS) as int] as nat % p2(n % $BITS))
{
    let k = n / $BITS; let t = n % $BITS;
    lemma_p2_split(n); lemma_pw_pos(k); lemma_p2_pos(t);
    lemma_val_skip_div(s, k as int); lemma_val_first(s.skip(k as int));
    lemma_bit_low(s[k as int] as nat, val(s.skip(k as int).skip(1)), t);
    lemma_mod_breakdown(val(s) as int, pw(k) as int, p2(t) as int);
}
@file vp_std.rs
@mod
/// words.iter().any(|x| *x != 0)
#[verifier::external_body]
pub fn any_nonzero(words: &[Word]) -> (r: bool) ensures r == exists|i: int| 0 <= i < words@.len() && words@[i] != 0 { words.iter().any(|x| *x != 0) }
#[verifier::external_body]
pub fn all_zero(words: &[Word]) -> (r: bool) ensures r == forall|i: int| 0 <= i < words@.len() ==> words@[i] == 0 { words.iter().all(|x| *x == 0) }
@file bits.rs
@mod
use crate::vp_math::*;
use crate::vp_std::*;
use crate::vp_bits::*;
use crate::ubig::*;
proof fn lemma_low_bits(s: Seq<Word>, n: nat) requires s.len() >= 2, s.last() != 0
    ensures n / $BITS >= s.len() ==> val(s) % p2(n) != 0,
        n / $BITS < s.len() ==> (val(s) % p2(n) != 0) == ((exists|i: int| 0 <= i < n / $BITS && s[i] != 0) || s[(n / $BITS) as int] & (sub(1$W << (n % $BITS), 1)) != 0)
{
    lemma_large_big(s);
    if n / $BITS >= s.len() { lemma_shr_all(s, n); vstd::arithmetic::div_mod::lemma_small_mod(val(s), p2(n)); }
    else {
        let k = (n / $BITS) as int;
        lemma_mod_words(s, n); lemma_pw_pos(n / $BITS);
        let t = (n % $BITS) as u32;
        lemma_mask_mod(s[k], t);
        assert((1$W << (n % $BITS)) == (1$W << t));
        let (p, q) = (pw(n / $BITS) as int, (s[k] as nat % p2(n % $BITS)) as int);
        assert(q == 0 ==> p * q == 0) by (nonlinear_arith); assert(q > 0 ==> p * q > 0) by (nonlinear_arith) requires p >= 1;
        let lo = s.take(k);
        if val(lo) == 0 { lemma_val_is_zero(lo); assert forall|i: int| 0 <= i < k implies s[i] == 0 by { assert(lo[i] == 0); } }
        else if forall|i: int| 0 <= i < k ==> s[i] == 0 { lemma_val_zero(lo); }
    }
}
@fn UBig::are_low_bits_nonzero -> r
@rewrite `word & math :: ones :: < Word > (` => `*word & math::ones_gw(`
@rewrite `buffer [ n_words ] & math :: ones :: < Word > (` => `buffer[n_words] & math::ones_gw(`
@rewrite `buffer [ .. n_words ] . iter ( ) . any ( | x | * x != 0 )` => `crate::vp_std::any_nonzero(&buffer[..n_words])`
    requires self.wf()
    ensures r == (self.v() % p2(n as nat) != 0)
@start
proof {
    match self.rp() {
        Small(w) => {
            let m = if n < $BITS { n as u32 } else { $BITSu32 };
            if n < $BITS { lemma_mask_mod(w, m); }
            else { lemma_p2_wb(); lemma_p2_mono($BITS, n as nat); vstd::arithmetic::div_mod::lemma_small_mod(w as nat, p2(n as nat)); assert(w & $MAX$W == w) by (bit_vector); }
        }
        Large(b) => {
            lemma_low_bits(b@, n as nat);
            let k = (n / $BITS) as int;
            if k < b@.len() {
                let t = (n % $BITS) as u32;
                assert((1$W << (n % $BITS)) == (1$W << t));
                let lo = b@.subrange(0, k);
                assert forall|i: int| 0 <= i < k implies #[trigger] b@[i] == lo[i] by { }
                if exists|i: int| 0 <= i < lo.len() && lo[i] != 0 { let i = choose|i: int| 0 <= i < lo.len() && lo[i] != 0; assert(b@[i] != 0); }
            }
        }
    }
}
@after `let n = n . min ( WORD_BITS_USIZE ) as u32 ;`
assert(n <= $BITS);
@file convert.rs
@fn From < bool > for UBig::from -> r
@rewrite `u8 :: from ( b ) . into ( )` => `<UBig as From<u8>>::from(u8::from(b))`
    ensures r.wf(), r.v() == (if b { 1int } else { 0 })
@fn From < bool > for IBig::from -> r
@rewrite `u8 :: from ( b ) . into ( )` => `<IBig as From<u8>>::from(u8::from(b))`
    ensures r.wf(), r.v() == (if b { 1int } else { 0 })
@file shift_ops.rs
@for $T in IBig &IBig
@fn Shl<usize> for $T::shl -> r
@pre self.wf()
    ensures r.wf(), r.v() == self.v() * p2(rhs as nat)
@start
proof {
    let (m, z) = (self.mag().v() as int, p2(rhs as nat) as int);
    assert((-m) * z == -(m * z)) by (nonlinear_arith);
    assert(m * z == (m * z));
}
@fn Shr<usize> for $T::shr -> r
@pre self.wf()
    ensures r.wf(), r.v() == fdiv(self.v(), p2(rhs as nat) as int)
@start
proof { lemma_p2_pos(rhs as nat); lemma_neg_fdiv(self.mag().v() as int, p2(rhs as nat) as int); }
@endfor
@for $T in UBig IBig
@for $R in $T &$T
@fn Shl<&usize> for $R::shl -> r
@pre self.wf()
    ensures r.wf(), r.v() == self.v() * p2(*rhs as nat)
@fn Shr<&usize> for $R::shr -> r
@pre self.wf()
    ensures r.wf(), r.v() == fdiv(self.v() as int, p2(*rhs as nat) as int)
@endfor
@fn ShlAssign<usize> for $T::shl_assign
@pre self.wf()
    ensures final(self).wf(), final(self).v() == old(self).v() * p2(rhs as nat)
@fn ShlAssign<&usize> for $T::shl_assign
@pre self.wf()
    ensures final(self).wf(), final(self).v() == old(self).v() * p2(*rhs as nat)
@fn ShrAssign<usize> for $T::shr_assign
@pre self.wf()
    ensures final(self).wf(), final(self).v() == fdiv(old(self).v() as int, p2(rhs as nat) as int)
@fn ShrAssign<&usize> for $T::shr_assign
@pre self.wf()
    ensures final(self).wf(), final(self).v() == fdiv(old(self).v() as int, p2(*rhs as nat) as int)
@endfor
