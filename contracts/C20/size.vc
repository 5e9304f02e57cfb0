@file vp_std.rs
@mod
/// Permission to refuse because a number is too large. Nothing in the crate proves it except the condition under which a
/// function is contracted to refuse.
pub uninterp spec fn toobig() -> bool;
@file ubig.rs
@mod
/// a number is below the limit exactly when its words are within the limit
pub proof fn lemma_len_small(s: Seq<Word>) requires s.len() <= MAXLEN() ensures val(s) < pw(MAXLEN())
{ lemma_val_bound(s); lemma_pw_mono(s.len(), MAXLEN()); }
pub proof fn lemma_len_big(s: Seq<Word>) requires s.len() > MAXLEN(), s.last() != 0 ensures val(s) >= pw(MAXLEN())
{ lemma_val_top(s); lemma_pw_mono(MAXLEN(), (s.len() - 1) as nat); }
@file ubig.rs
@also UBig::panic_number_too_large
@toolarge true
@also From<Buffer> for UBig::from
@toolarge buffer@.len() > MAXLEN() && val(buffer@) >= pw(MAXLEN())
@mod
/// a number is within the limit
pub proof fn lemma_small(x: &UBig) requires x.wf() ensures x.v() < pw(MAXLEN())
{ match x.rp() { Small(w) => { lemma_pw1(); lemma_pw_mono(1, MAXLEN()); } Large(b) => { lemma_len_small(b@); } } }
@file ibig.rs
@mod
pub proof fn lemma_small_i(x: &IBig) requires x.wf() ensures -crate::vp_math::pw(crate::vp_std::MAXLEN()) < x.v() < crate::vp_math::pw(crate::vp_std::MAXLEN())
{ crate::ubig::lemma_small(&x.mag()); }
@file buffer.rs
@also Buffer::allocate
@toolarge num_words > MAXLEN() + 4
@also Buffer::ensure_capacity
@toolarge num_words > MAXLEN() + 4
@also Buffer::reallocate
@toolarge num_words > MAXLEN() + 4
@also Buffer::push_may_reallocate
@toolarge self@.len() >= MAXLEN() + 4
@file add_ops.rs
@also UBig::add_large_word
@toolarge buffer@.len() > MAXLEN() || val(buffer@) + rhs >= pw(MAXLEN())
@also UBig::add_large
@toolarge buffer@.len() > MAXLEN() || rhs@.len() > MAXLEN() || val(buffer@) + val(rhs@) >= pw(MAXLEN())
@also UBig::sub_large_word
@toolarge lhs@.len() > MAXLEN()
@also UBig::sub_large
@toolarge lhs@.len() > MAXLEN()
@also UBig::sub_large_ref_val
@toolarge lhs@.len() > MAXLEN()
@also IBig::sub_large_word
@toolarge lhs@.len() > MAXLEN()
@also IBig::sub_large
@toolarge lhs@.len() > MAXLEN() || rhs@.len() > MAXLEN()
@for $A $B in UBig,UBig UBig,&~UBig &~UBig,UBig &~UBig,&~UBig
@also Add<$B> for $A::add
@toolarge self.v() + rhs.v() >= pw(MAXLEN())
@endfor
@for $A $B in IBig,IBig IBig,&~IBig &~IBig,IBig &~IBig,&~IBig
@also Add<$B> for $A::add
@toolarge self.v() + rhs.v() >= pw(MAXLEN()) || self.v() + rhs.v() <= -pw(MAXLEN())
@also Sub<$B> for $A::sub
@toolarge self.v() - rhs.v() >= pw(MAXLEN()) || self.v() - rhs.v() <= -pw(MAXLEN())
@endfor
@for $A in UBig &~UBig
@also AddAssign<$A> for UBig::add_assign
@toolarge self.v() + rhs.v() >= pw(MAXLEN())
@endfor
@for $A in IBig &~IBig
@also AddAssign<$A> for IBig::add_assign
@toolarge self.v() + rhs.v() >= pw(MAXLEN()) || self.v() + rhs.v() <= -pw(MAXLEN())
@also SubAssign<$A> for IBig::sub_assign
@toolarge self.v() - rhs.v() >= pw(MAXLEN()) || self.v() - rhs.v() <= -pw(MAXLEN())
@endfor
@file bits.rs
@mod
proof fn lemma_np2_limit(v: nat, r: nat) requires is_np2(r, v), r >= pw(MAXLEN()) ensures 2 * v > pw(MAXLEN())
{
    let k = choose|k: nat| r == p2(k);
    assert(k > 0) by { reveal_with_fuel(p2, 2); lemma_pw_mono(1, MAXLEN()); crate::ubig::lemma_pw1(); }
    let j = (k - 1) as nat;
    assert(p2(k) == 2 * p2(j)) by { reveal_with_fuel(p2, 2); }
    lemma_p2_pos(j);
    if p2(j) >= v { assert(p2(j) >= r); }
}

@for $T in IBig &IBig
@also Not for $T::not
@toolarge self.v() + 1 >= pw(MAXLEN()) || self.v() + 1 <= -pw(MAXLEN())
@endfor
@also UBig::set_bit
@toolarge n as int / $BITS >= MAXLEN()
@also NextPowerOfTwo for &UBig::next_power_of_two
@toolarge 2 * self.v() > pw(MAXLEN())
@also NextPowerOfTwo for UBig::next_power_of_two
@toolarge 2 * self.v() > pw(MAXLEN())
@also UBig::bitand_large
@toolarge buffer@.len() > MAXLEN()
@also UBig::bitor_large_word
@toolarge buffer@.len() > MAXLEN()
@also UBig::bitor_large
@toolarge buffer@.len() > MAXLEN() || rhs@.len() > MAXLEN()
@also UBig::bitxor_large_word
@toolarge buffer@.len() > MAXLEN()
@also UBig::bitxor_large
@toolarge buffer@.len() > MAXLEN() || rhs@.len() > MAXLEN()
@also UBig::and_not_large_word
@toolarge buffer@.len() > MAXLEN()
@also UBig::and_not_large
@toolarge buffer@.len() > MAXLEN()
@also UBig::with_bit_word_slow
@toolarge n as int / $BITS >= MAXLEN()
@also UBig::with_bit_large
@toolarge buffer@.len() > MAXLEN() || n as int / $BITS >= MAXLEN()
@also UBig::without_bit_large
@toolarge buffer@.len() > MAXLEN()
@also UBig::next_power_of_two_large
@toolarge buffer@.len() > MAXLEN() || 2 * val(buffer@) > pw(MAXLEN())
@before `buffer . into ( )`
proof { if val(buffer@) >= pw(MAXLEN()) { lemma_np2_limit(val(b0), val(buffer@)); } }
@file convert.rs
@mod
use crate::vp_std::MAXLEN;
proof fn lemma_bytes_big(s: Seq<u8>) requires s.len() > 0, s.last() != 0 ensures (s.len() - 1) / $WBYTES >= MAXLEN() ==> bval(s) >= pw(MAXLEN())
{
    let n = (s.len() - 1) as nat; let k = n / $WBYTES;
    if k >= MAXLEN() {
        lemma_bval_split(s, n as int); assert(s.skip(n as int) =~= seq![s.last()]);
        assert(bval(seq![s.last()]) == s.last()) by { reveal_with_fuel(bval, 3); assert(seq![s.last()].skip(1) =~= Seq::<u8>::empty()); }
        lemma_bp_pw(k); lemma_bp_mono(k * $WBYTES, n); lemma_pw_mono(MAXLEN(), k);
        let (p, x) = (bp(n) as int, s.last() as int);
        assert(p * x >= p) by (nonlinear_arith) requires x >= 1, p >= 0;
    }
}
@also UBig::from_le_bytes_large
@toolarge bytes@.last() == 0 || bval(bytes@) >= pw(MAXLEN())
@start
proof { let s = bytes@; if s.last() != 0 { lemma_bytes_big(s); } }
@also UBig::from_be_bytes_large
@toolarge bytes@[0] == 0 || bval(bytes@.reverse()) >= pw(MAXLEN())
@start
proof { let s = bytes@.reverse(); if s.last() != 0 { lemma_bytes_big(s); } }
@also UBig::from_le_bytes
@toolarge bval(bytes@) >= pw(MAXLEN())
@also UBig::from_be_bytes
@toolarge bval(bytes@.reverse()) >= pw(MAXLEN())
@file div_ops.rs
@mod
proof fn lemma_quot_le(a: nat, b: nat) ensures b > 0 ==> a / b <= a
{ if b > 0 { let (q, r) = ((a / b) as int, (a % b) as int); lemma_fundamental_div_mod(a as int, b as int); lemma_mod_bound(a as int, b as int);
    assert(q <= a) by (nonlinear_arith) requires a == b * q + r, r >= 0, b >= 1, q >= 0; } }
@also UBig::div_rem_large_word
@toolarge buffer@.len() > MAXLEN()
@also UBig::div_rem_in_lhs
@toolarge lhs@.len() > MAXLEN() || rhs@.len() > MAXLEN()
@also UBig::div_large_word
@toolarge lhs@.len() > MAXLEN()
@also UBig::div_large
@toolarge lhs@.len() > MAXLEN() || rhs@.len() > MAXLEN()
@after `lhs . erase_front ( rhs . len ( ) ) ;`
proof { if w0.len() <= MAXLEN() { crate::ubig::lemma_len_small(w0); lemma_val_top(r0); lemma_pw_pos((r0.len() - 1) as nat); lemma_quot_le(val(w0), val(r0)); } }
@also UBig::rem_large
@toolarge lhs@.len() > MAXLEN() || rhs@.len() > MAXLEN()
@also UBig::div_rem_large
@toolarge lhs@.len() > MAXLEN() || rhs@.len() > MAXLEN()
@before `debug_assert !`
proof { if w0.len() <= MAXLEN() { crate::ubig::lemma_len_small(w0); lemma_val_top(r0); lemma_pw_pos((r0.len() - 1) as nat); lemma_quot_le(val(w0), val(r0)); } }
@mod
/// Euclidean quotient and remainder are within the operands
proof fn lemma_euclid_small(a: int, b: int) requires b != 0 ensures -a <= a / b <= a || a <= a / b <= -a, 0 <= a % b, a % b < b || a % b < -b
{
    let (e, m) = (a / b, a % b);
    lemma_fundamental_div_mod(a, b); 
    if b > 0 { lemma_mod_bound(a, b); } else { assert(0 <= m < -b) by (nonlinear_arith) requires m == a % b, b < 0; }
    if a >= 0 {
        if e > a { if b > 0 { assert(b * e > a) by (nonlinear_arith) requires b >= 1, e > a, a >= 0; } else { assert(b * e + m < 0) by (nonlinear_arith) requires b <= -1, e >= 1, m < -b; } }
        if e < -a { if b > 0 { assert(b * e + m < 0) by (nonlinear_arith) requires b >= 1, e <= -1, m < b; } else { assert(b * e > a) by (nonlinear_arith) requires b <= -1, e < -a, a >= 0; } }
    } else {
        if e > -a { if b > 0 { assert(b * e > 0) by (nonlinear_arith) requires b >= 1, e >= 1; } else { assert(b * e + m < a) by (nonlinear_arith) requires b <= -1, e >= -a + 1, m < -b, a <= -1; } }
        if e < a { if b > 0 { assert(b * e + m < a) by (nonlinear_arith) requires b >= 1, e <= a - 1, m < b, a <= -1; } else { assert(b * e > 0) by (nonlinear_arith) requires b <= -1, e <= -1; } }
    }
}
@for $A $B in IBig,IBig IBig,&~IBig &~IBig,IBig &~IBig,&~IBig
@for $O $M in Div,div_euclid Rem,rem_euclid DivRem,div_rem_euclid
@also $OEuclid<$B> for $A::$M
@start
proof { crate::ibig::lemma_small_i(&self); crate::ibig::lemma_small_i(&rhs); if rhs.v() != 0 { lemma_euclid_small(self.v(), rhs.v()); } }
@endfor
@endfor
@file gcd.rs
@mod
proof fn lemma_gcd_le(g: nat, a: nat, b: nat) requires is_gcd(g, a as int, b as int), a > 0 || b > 0 ensures g <= a || g <= b
{
    lemma_dv(g, g as int, 1);
    assert(cd(g, a as int, b as int));
    let x = if a > 0 { a } else { b };
    lemma_dvq(g, x as int); let q = x as int / (g as int);
    assert(g <= x) by (nonlinear_arith) requires x == g * q, x > 0, g > 0;
}
@also UBig::gcd
@start
proof { crate::ubig::lemma_small(self); crate::ubig::lemma_small(rhs); }
@before `b << zeros`
proof { lemma_gcd_le(b.v() * p2(zeros as nat), a0, b0); }
@also UBig::extended_gcd
@start
proof { crate::ubig::lemma_small(self); crate::ubig::lemma_small(rhs); }
@before `( b << zeros`
proof { let (g, p) = (b.v() as int, p2(z) as int); assert(g * p <= a0) by (nonlinear_arith) requires a0 == uu * p, g <= uu, p >= 0; }
@file pow.rs
@mod
use crate::vp_std::MAXLEN;
use crate::ubig::lemma_small;
proof fn lemma_pow_upto(b: int, i: nat, e: nat, l: int) requires b >= 0, i <= e, l >= 2 ensures pow(b, i) >= l ==> pow(b, e) >= l
{ if b > 0 { lemma_pow_increases(b as nat, i, e); } else { if i > 0 { lemma0_pow(i); } else { lemma_pow0(b); } } }
proof fn lemma_quot_upto(e: nat, q: nat) requires q >= 1 ensures e / q <= e { assert(e / q <= e) by (nonlinear_arith) requires q >= 1, e >= 0; }
@also UBig::pow
@toolarge pow(self.v() as int, exp as nat) >= pw(MAXLEN())
@start
let ghost l = pw(MAXLEN()) as int;
proof {
    lemma_pw_mono(1, MAXLEN()); crate::ubig::lemma_pw1();
    lemma_pow_upto(b, 2, if exp < 2 { 2 } else { exp as nat }, l); 
    lemma_small(self);
}
@loopinv 0
    l == pw(MAXLEN()), l >= 2, b >= 0, pow(b, exp as nat) >= l ==> crate::vp_std::toobig(),
@before `if exp & ( 1 << p )`
proof {
    let h = (exp as nat / p2((p + 1) as nat)) as nat; lemma_bit_us(exp, p); lemma_next(exp, p); lemma_p2_pos(p as nat);
    let g = (exp as nat / p2(p as nat)) as nat;
    lemma_quot_upto(exp as nat, p2(p as nat));
    lemma_pow_upto(b, g, exp as nat, l); lemma_pow_adds(b, 2 * h, 1); lemma_pow1(b);
}
@before `res = & res`
proof {
    let g = (exp as nat / p2((p + 1) as nat)) as nat; lemma_p2_pos((p + 1) as nat); lemma_p2_pos(p as nat);
    lemma_next(exp, p); lemma_quot_upto(exp as nat, p2(p as nat)); lemma_pow_upto(b, 2 * g, exp as nat, l); lemma_pow_even(b, g);
}
@before `let mut x = `
proof {
    if exp as int / $BITS >= MAXLEN() { crate::shift_ops::lemma_shift_big(1, exp as nat); }
    lemma_pow_p2(exp as nat);
}
@also IBig::pow
@toolarge pow(self.v(), exp as nat) >= pw(MAXLEN()) || pow(self.v(), exp as nat) <= -pw(MAXLEN())
@file mul_ops.rs
@also UBig::mul_large_word
@toolarge buffer@.len() > MAXLEN() || val(buffer@) * a >= pw(MAXLEN())
@also UBig::mul_large
@toolarge lhs@.last() == 0 || rhs@.last() == 0 || val(lhs@) * val(rhs@) >= pw(MAXLEN())
@start
proof {
    if lhs@.last() != 0 && rhs@.last() != 0 && lhs@.len() + rhs@.len() > MAXLEN() + 4 {
        let (m, n) = ((lhs@.len() - 1) as nat, (rhs@.len() - 1) as nat);
        lemma_val_top(lhs@); lemma_val_top(rhs@); lemma_pw_add(m, n); lemma_pw_mono(MAXLEN(), m + n);
        let (x, y, p, q) = (val(lhs@) as int, val(rhs@) as int, pw(m) as int, pw(n) as int);
        assert(x * y >= p * q) by (nonlinear_arith) requires x >= p, y >= q, p >= 0, q >= 0;
    }
}
@for $A $B in UBig,UBig UBig,&~UBig &~UBig,UBig &~UBig,&~UBig
@also Mul<$B> for $A::mul
@toolarge self.v() * rhs.v() >= pw(MAXLEN())
@endfor
@for $A $B in IBig,IBig IBig,&~IBig &~IBig,IBig &~IBig,&~IBig
@also Mul<$B> for $A::mul
@toolarge self.v() * rhs.v() >= pw(MAXLEN()) || self.v() * rhs.v() <= -pw(MAXLEN())
@endfor
@for $T in UBig IBig
@also MulAssign<$T> for $T::mul_assign
@toolarge self.v() * rhs.v() >= pw(MAXLEN()) || self.v() * rhs.v() <= -pw(MAXLEN())
@also MulAssign<& $T> for $T::mul_assign
@toolarge self.v() * rhs.v() >= pw(MAXLEN()) || self.v() * rhs.v() <= -pw(MAXLEN())
@endfor
@file shift_ops.rs
@mod
/// a word shifted by more words than the limit
pub proof fn lemma_shift_big(v: nat, n: nat) requires v > 0, n / $BITS >= MAXLEN() ensures v * p2(n) >= pw(MAXLEN())
{
    lemma_p2_split(n); lemma_p2_pos(n % $BITS); lemma_pw_mono(MAXLEN(), n / $BITS);
    let (p, q, m) = (pw(n / $BITS) as int, p2(n % $BITS) as int, p2(n) as int);
    assert(p * q >= p) by (nonlinear_arith) requires q >= 1, p >= 0;
    assert(v * m >= m) by (nonlinear_arith) requires v >= 1, m >= 0;
}
pub proof fn lemma_shift_big_words(s: Seq<Word>, n: nat) requires s.len() > 0, s.last() != 0, n / $BITS + s.len() > MAXLEN() ensures val(s) * p2(n) >= pw(MAXLEN())
{
    let k = (s.len() - 1) as nat; let j = n / $BITS;
    lemma_val_top(s); lemma_p2_split(n); lemma_p2_pos(n % $BITS); lemma_pw_mono(MAXLEN(), k + j); lemma_pw_add(k, j);
    let (v, p, q, m, t) = (val(s) as int, pw(j) as int, p2(n % $BITS) as int, p2(n) as int, pw(k) as int);
    assert(p * q >= p) by (nonlinear_arith) requires q >= 1, p >= 0;
    assert(v * m >= t * p) by (nonlinear_arith) requires v >= t, m >= p, t >= 0, p >= 0;
}
@also UBig::shl_word
@toolarge word * p2(rhs as nat) >= pw(MAXLEN())
@for $T in UBig &UBig IBig &IBig
@also Shl<usize> for $T::shl
@toolarge self.v() * p2(rhs as nat) >= pw(MAXLEN()) || self.v() * p2(rhs as nat) <= -pw(MAXLEN())
@also Shl<&usize> for $T::shl
@toolarge self.v() * p2(*rhs as nat) >= pw(MAXLEN()) || self.v() * p2(*rhs as nat) <= -pw(MAXLEN())
@endfor
@mod
use vstd::arithmetic::div_mod::*;
proof fn lemma_fdiv_le(v: int, p: int) requires p >= 1, v < 0 ensures v <= v / p <= 0
{ lemma_fundamental_div_mod(v, p); lemma_mod_bound(v, p); let (q, r) = (v / p, v % p);
  assert(q >= v) by (nonlinear_arith) requires v == p * q + r, r < p, p >= 1, v <= -1;
  assert(q <= 0) by (nonlinear_arith) requires v == p * q + r, r >= 0, p >= 1, v <= -1; }
@for $T in IBig &IBig
@also Shr<usize> for $T::shr
@start
proof { crate::ibig::lemma_small_i(&self); if self.v() < 0 { lemma_fdiv_le(self.v(), p2(rhs as nat) as int); } }
@endfor
@for $T in UBig IBig
@also ShlAssign<usize> for $T::shl_assign
@toolarge self.v() * p2(rhs as nat) >= pw(MAXLEN()) || self.v() * p2(rhs as nat) <= -pw(MAXLEN())
@also ShlAssign<&usize> for $T::shl_assign
@toolarge self.v() * p2(*rhs as nat) >= pw(MAXLEN()) || self.v() * p2(*rhs as nat) <= -pw(MAXLEN())
@endfor
@also UBig::shr_large_ref
@toolarge words@.len() > MAXLEN()
@also UBig::shr_large
@toolarge buffer@.len() > MAXLEN()
@also UBig::shl_word_slow
@toolarge word == 0 || word * p2(rhs as nat) >= pw(MAXLEN())
@start
proof { if word != 0 && rhs as nat / $BITS >= MAXLEN() { lemma_shift_big(word as nat, rhs as nat); } }
@also UBig::shl_ref_large
@toolarge words@.len() == 0 || words@.last() == 0 || val(words@) * p2(rhs as nat) >= pw(MAXLEN())
@start
proof { if words@.len() > 0 && words@.last() != 0 && rhs as nat / $BITS + words@.len() > MAXLEN() { lemma_shift_big_words(words@, rhs as nat); } }
@also UBig::shl_large
@toolarge buffer@.len() == 0 || buffer@.last() == 0 || val(buffer@) * p2(rhs as nat) >= pw(MAXLEN())
@file bits.rs
@mod
/// De Morgan: the ways the signed operators are computed
proof fn lemma_dm(a: int, b: int) ensures
    forall|x: int| #[trigger] is_or(x, -a - 1, -b - 1) ==> is_and(-x - 1, a, b),
    forall|x: int| #[trigger] is_and(x, -a - 1, -b - 1) ==> is_or(-x - 1, a, b),
    forall|x: int| #[trigger] is_andnot(x, -b - 1, a) ==> is_or(-x - 1, a, b),
    forall|x: int| #[trigger] is_andnot(x, -a - 1, b) ==> is_or(-x - 1, a, b),
    forall|x: int| #[trigger] is_xor(x, a, -b - 1) ==> is_xor(-x - 1, a, b),
    forall|x: int| #[trigger] is_xor(x, -a - 1, b) ==> is_xor(-x - 1, a, b),
    forall|x: int| #[trigger] is_or(x, -a - 1, b) ==> is_andnot(-x - 1, a, b),
    forall|x: int| #[trigger] is_and(x, b, a) ==> is_and(x, a, b),
    forall|x: int| #[trigger] is_or(x, b, a) ==> is_or(x, a, b),
    forall|x: int| #[trigger] is_xor(x, b, a) ==> is_xor(x, a, b)
{
    assert forall|n: nat| #[trigger] bit(-a - 1, n) == !bit(a, n) by { lemma_bit_not(a, n); }
    assert forall|n: nat| #[trigger] bit(-b - 1, n) == !bit(b, n) by { lemma_bit_not(b, n); }
    assert forall|x: int, n: nat| #[trigger] bit(-x - 1, n) == !bit(x, n) by { lemma_bit_not(x, n); }
}
@for $TR $M $P in BitAnd,bitand,is_and BitOr,bitor,is_or BitXor,bitxor,is_xor AndNot,and_not,is_andnot
@for $S $R in IBig,IBig IBig,&IBig &IBig,IBig &IBig,&IBig
@also $TR<$R> for $S::$M
@toolarge exists|r: int| #[trigger] $P(r, self.v(), rhs.v()) && (r >= pw(MAXLEN()) || r <= -pw(MAXLEN()))
@start
proof { lemma_dm(self.v(), rhs.v()); crate::ibig::lemma_small_i(&self); crate::ibig::lemma_small_i(&rhs); }
@endfor
@endfor
@for $TR $M $P in BitAndAssign,bitand_assign,is_and BitOrAssign,bitor_assign,is_or BitXorAssign,bitxor_assign,is_xor
@for $R in IBig &IBig
@also $TR<$R> for IBig::$M
@toolarge exists|r: int| #[trigger] $P(r, self.v(), rhs.v()) && (r >= pw(MAXLEN()) || r <= -pw(MAXLEN()))
@endfor
@endfor
@file convert.rs
@for $T in u8 u16 u32 u64 u128 usize
@also UBig::from_unsigned as ubig_from_unsigned_$T
@start
proof { crate::vp_bytes::lemma_bp_pw(16nat / $WBYTES); lemma_pw_mono(16nat / $WBYTES, MAXLEN());
  assert forall|r: Seq<u8>| r.len() <= 16 implies #[trigger] bval(r) < pw(MAXLEN()) by { lemma_bval_bound(r); lemma_bp_mono(r.len(), 16); } }
@endfor
@file vp_parse.rs
@mod
use crate::vp_std::MAXLEN;
/// So many digits that the text denotes a number over the limit (when its first digit is not 0), or digits that do.
pub open spec fn biglit(s: Seq<u8>, radix: int) -> bool { s.len() > 0 && pow(radix, (s.len() - 1) as nat) >= pw(MAXLEN()) || all_digits(s, radix) && sv(s, radix) >= pw(MAXLEN()) }
/// As text of the user: the number is over the limit, or it is not a number but has as many digits as one over the limit.
pub open spec fn bigtext(s: Seq<u8>, radix: int) -> bool { if all_digits(s, radix) { sv(s, radix) >= pw(MAXLEN()) } else { s.len() > 0 && pow(radix, (s.len() - 1) as nat) >= pw(MAXLEN()) } }
pub proof fn lemma_big_first(s: Seq<u8>, radix: int) requires radix >= 2, s.len() == 0 || s[0] != 48 ensures biglit(s, radix) ==> bigtext(s, radix)
{
    if all_digits(s, radix) && s.len() > 0 {
        lemma_sv_split(s, 1, radix); let t = s.take(1);
        assert(t =~= Seq::<u8>::empty().push(s[0])); lemma_sv_push(Seq::<u8>::empty(), s[0], radix); assert(sv(Seq::<u8>::empty(), radix) == 0);
        assert(0 <= dig(s[0]) < radix); let d = dig(s[0]); assert(d >= 1);
        lemma_digits_sub(s, 1, s.len() as int, radix); assert(s.skip(1) =~= s.subrange(1, s.len() as int)); lemma_sv_bound(s.skip(1), radix);
        let p = pow(radix, (s.len() - 1) as nat); lemma_pow_mono(radix, 0, (s.len() - 1) as nat);
        assert(d * p >= p) by (nonlinear_arith) requires d >= 1, p >= 0;
    }
}
/// part of a long text
pub proof fn lemma_big_part(s: Seq<u8>, t: Seq<u8>, radix: int) requires radix >= 2, t.len() < s.len() ensures biglit(t, radix) ==> biglit(s, radix)
{
    if t.len() > 0 { lemma_pow_mono(radix, (t.len() - 1) as nat, (s.len() - 1) as nat); }
    if all_digits(t, radix) { lemma_sv_bound(t, radix); lemma_pow_mono(radix, t.len(), (s.len() - 1) as nat); }
}
@file parse/power_two.rs
@mod
use vstd::arithmetic::power::*;
proof fn lemma_big_p2(n: nat, lr: nat, radix: int) requires n >= 1, lr == lg(radix), radix == 2 || radix == 4 || radix == 8 || radix == 16 || radix == 32, n * lr >= (MAXLEN() + 1) * $BITS ensures pow(radix, (n - 1) as nat) >= pw(MAXLEN())
{
    lemma_pow_p2(radix, (n - 1) as nat); let e = lr * (n - 1) as nat;
    assert(e >= MAXLEN() * $BITS) by (nonlinear_arith) requires e == lr * (n - 1), n * lr >= (MAXLEN() + 1) * $BITS, lr <= 5;
    lemma_p2_mono(MAXLEN() * $BITS, e); lemma_pw_p2(MAXLEN());
}
@also parse
@toolarge biglit(src.spec_bytes(), radix as int)
@also parse_large
@toolarge biglit(src.spec_bytes(), radix as int)
@start
proof { if n * lr >= (MAXLEN() + 1) * $BITS { lemma_big_p2(n, lr, radix as int); } }
@file parse/non_power_two.rs
@also parse
@toolarge biglit(src.spec_bytes(), radix as int)
@also parse_large
@toolarge biglit(bytes@, radix as int)
@after `let radix_info = radix :: radix_info ( radix ) ;`
proof { let c = CHUNK_LEN * k; assert(bytes@.len() > c); lemma_pow_mono(rx, c as nat, (n - 1) as nat); lemma_pow_multiplies(rx, k as nat, CHUNK_LEN as nat); assert(k * CHUNK_LEN == c) by (nonlinear_arith) requires c == CHUNK_LEN * k; }
@loopstart 0
proof { lemma_pow_mono(rx, (cb * p2(m)) as nat, (n - 1) as nat); }
@also parse_large_divide_conquer
@toolarge biglit(bytes@, radix as int)
@start
proof {
    if m > 0 { let a = n - cb * p2((m - 1) as nat); if a > 0 { assert(cb * p2((m - 1) as nat) >= 1) by (nonlinear_arith) requires cb >= 1, p2((m - 1) as nat) >= 1; lemma_big_part(s, s.take(a), rx); lemma_big_part(s, s.skip(a), rx);
        if all_digits(s.skip(a), rx) { lemma_sv_bound(s.skip(a), rx); } } }
}
@file parse/mod.rs
@also FromStr for UBig::from_str
@toolarge bigtext(strip_plus(s.spec_bytes()), 10)
@also FromStr for IBig::from_str
@toolarge bigtext(strip_sign(s.spec_bytes()), 10)
@also UBig::from_str_radix
@toolarge bigtext(strip_plus(src.spec_bytes()), radix as int)
@also UBig::from_str_with_radix_prefix
@toolarge ({ let t = strip_plus(src.spec_bytes()); bigtext(prefix_rest(t), prefix_radix(t)) })
@also UBig::from_str_with_radix_prefix_no_sign
@toolarge bigtext(prefix_rest(src.spec_bytes()), prefix_radix(src.spec_bytes()))
@also UBig::from_str_radix_no_sign
@toolarge bigtext(src.spec_bytes(), radix as int)
@loopinv 0
    src.spec_bytes().len() <= s0.len(),
@loopafter 0
proof { let t = src.spec_bytes(); lemma_big_first(t, radix as int); if t.len() > 0 { lemma_pow_mono(radix as int, (t.len() - 1) as nat, (s0.len() - 1) as nat); } }
@also IBig::from_str_radix
@toolarge bigtext(strip_sign(src.spec_bytes()), radix as int)
@also IBig::from_str_with_radix_prefix
@toolarge ({ let t = strip_sign(src.spec_bytes()); bigtext(prefix_rest(t), prefix_radix(t)) })
