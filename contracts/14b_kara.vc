@file math.rs
@fn bit_len -> r
@mono T=usize as bit_len_us
    ensures crate::vp_bits::is_bit_len(x as nat, r as nat), r <= 64
@fn ceil_log_2 -> r
@mono T=usize as ceil_log_2_us
@rewrite `bit_len (` => `bit_len_us(`
    requires x > 0
    ensures crate::vp_bits::is_bit_len((x - 1) as nat, r as nat), r <= 64
@file vp_bits.rs
@mod
pub assume_specification [usize::leading_zeros] (x: usize) -> (r: u32) ensures r <= 64, is_bit_len(x as nat, (64 - r) as nat);
@file vp_std.rs
@mod
pub assume_specification [i64::abs] (x: i64) -> (r: i64) requires x != i64::MIN ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i32::abs] (x: i32) -> (r: i32) requires x != i32::MIN ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i16::abs] (x: i16) -> (r: i16) requires x != i16::MIN ensures r as int == (if x < 0 { -(x as int) } else { x as int });
@file mul_ops.rs
@mod
use crate::add::sgn;
use crate::vp_math::*;
@fn Mul<Sign> for Sign::mul -> r
    ensures sgn(r) == sgn(self) * sgn(rhs), r == (if self == rhs { crate::sign::Sign::Positive } else { crate::sign::Sign::Negative })
@fn MulAssign<Sign> for Sign::mul_assign
    ensures sgn(*final(self)) == sgn(*old(self)) * sgn(rhs), *final(self) == (if *old(self) == rhs { crate::sign::Sign::Positive } else { crate::sign::Sign::Negative })
@file mul/mod.rs
@mod
use crate::vp_bits::*;
/// Number of words of scratch memory a multiplication needs, smaller factor n words: the recurrences of the algorithms.
pub open spec fn clog(n: nat) -> nat decreases n { if n <= 1 { 0 } else { 1 + clog((n + 1) / 2) } }
pub open spec fn kreq(n: nat) -> nat { 2 * n + 2 * clog(n) }
pub open spec fn treq(n: nat) -> nat decreases n, 0nat { if n < 6 { 0 } else { 8 * ((n + 2) / 3 + 1) + mreq((n + 2) / 3 + 1) } }
pub open spec fn mreq(n: nat) -> nat decreases n, 1nat { if n <= MAX_LEN_SIMPLE { 0 } else if n <= MAX_LEN_KARATSUBA { kreq(n) } else { treq(n) } }
pub proof fn lemma_clog_mono(a: nat, b: nat) requires a <= b ensures clog(a) <= clog(b) decreases b { if a > 1 { lemma_clog_mono((a + 1) / 2, (b + 1) / 2); } }
/// clog is the bit length of n - 1.
pub proof fn lemma_clog(n: nat, r: nat) requires n >= 1, is_bit_len((n - 1) as nat, r) ensures r == clog(n) decreases n
{
    if n == 1 { if r > 0 { lemma_p2_pos((r - 1) as nat); } }
    else {
        let k = (r - 1) as nat;
        assert(r > 0) by { assert(p2(0) == 1); }
        let h = ((n + 1) / 2) as nat;
        assert((h - 1) as nat == (n - 1) as nat / 2);
        assert(p2(r) == 2 * p2(k));
        if k > 0 { assert(p2(k) == 2 * p2((k - 1) as nat)); } else { assert(p2(0) == 1); }
        lemma_clog(h, k);
    }
}
pub proof fn lemma_kreq_mono(a: nat, b: nat) requires a <= b ensures kreq(a) <= kreq(b) { lemma_clog_mono(a, b); }
/// Karatsuba's scratch memory suffices for its recursion.
pub proof fn lemma_kreq_rec(n: nat) requires 3 <= n <= MAX_LEN_KARATSUBA
    ensures kreq(n) >= 2 * ((n + 1) / 2) + mreq((n + 1) / 2), kreq(n) >= 2 * ((n + 1) / 2) + mreq((n / 2))
{
    let h = (n + 1) / 2;
    assert(kreq(n) >= 2 * h + kreq(h));
    lemma_clog_mono(n / 2, h);
}
#[verifier::rlimit(50)]
pub proof fn lemma_mreq_mono(a: nat, b: nat) requires a <= b ensures mreq(a) <= mreq(b) decreases b
{
    if a > MAX_LEN_KARATSUBA { lemma_mreq_mono((a + 2) / 3 + 1, (b + 2) / 3 + 1); }
    else if b <= MAX_LEN_KARATSUBA { lemma_kreq_mono(a, b); }
    else if a > MAX_LEN_SIMPLE {
        lemma_kreq_mono(a, MAX_LEN_KARATSUBA as nat);
        assert(clog(192) == 8) by (compute);
        assert(kreq(192) == 400);
        lemma_mreq_mono(66, (b + 2) / 3 + 1);
    }
}
@item const MAX_LEN_SIMPLE
@item const MAX_LEN_KARATSUBA
@fn memory_requirement_up_to -> r
    requires smaller_len <= 0x0800_0000_0000_0000
    ensures crate::memory::lw(r) >= mreq(smaller_len as nat)
@start
proof { if smaller_len > MAX_LEN_KARATSUBA { crate::mul::toom_3::lemma_treq(smaller_len as nat); } }
@fn memory_requirement_exact -> r
    requires smaller_len <= 0x0800_0000_0000_0000
    ensures crate::memory::lw(r) >= mreq(smaller_len as nat)
@fn add_signed_mul -> r
    requires old(c).len() == a.len() + b.len(), old(memory).cap() >= mreq(if a.len() < b.len() { a.len() as nat } else { b.len() as nat })
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@))
    decreases a@.len() + b@.len(), 3int
@start
proof { assert(val(a@) * val(b@) == val(b@) * val(a@)) by (nonlinear_arith); }
@fn add_signed_mul_same_len -> r
    requires old(c).len() == a.len() + b.len(), a.len() == b.len(), old(memory).cap() >= mreq(a.len() as nat)
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@))
    decreases a@.len() + b@.len(), 1int

@file mul/simple.rs
@fn add_signed_mul -> r
@rewrite `helpers :: add_signed_mul_split_into_chunks ( c , sign , a , b , CHUNK_LEN , memory , add_signed_mul_chunk , )` => `helpers::split_simple(c, sign, a, b, CHUNK_LEN, memory)`
    requires a.len() >= b.len(), old(c).len() == a.len() + b.len(), b.len() <= crate::mul::MAX_LEN_SIMPLE
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@))
    decreases a@.len() + b@.len(), 2int
@fn add_signed_mul_same_len -> r
    requires a.len() == b.len(), old(c).len() == a.len() + b.len(), b.len() <= MAX_SMALLER_LEN
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@))

@file mul/helpers.rs
@mod
use crate::vp_math::*;
use crate::add::sgn;
use crate::mul::mreq;
pub(crate) proof fn lemma_chunk(done: Seq<Word>, w1: Seq<Word>, w2: Seq<Word>, w3: Seq<Word>, n: int, m: int, c0: int, k1: int, k2: int, s: int, alo: Seq<Word>, apre: Seq<Word>, bv: int, w0: Seq<Word>)
    requires 0 < m, 0 <= n, m + n <= w1.len(), w1.len() == w2.len(), w2.len() == w3.len(), alo.len() == m, apre.len() == done.len(),
        w1.take(n) =~= w2.take(n), w1.skip(m + n) =~= w2.skip(m + n), w2.skip(m + n) =~= w3.skip(m + n),
        val(w2.subrange(n, m + n)) + k1 * pw(m as nat) == val(w1.subrange(n, m + n)) + c0,
        val(w3.take(m + n)) + k2 * pw((m + n) as nat) == val(w2.take(m + n)) + s * (val(alo) * bv),
        val(done) + pw(done.len()) * (val(w1) + c0 * pw(n as nat)) == val(w0) + s * (val(apre) * bv),
    ensures
        val(done + w3.take(m)) + pw(done.len() + m as nat) * (val(w3.skip(m)) + (k1 + k2) * pw(n as nat)) == val(w0) + s * (val(apre + alo) * bv),
{
    lemma_mid_add(w1, w2, n, m + n, k1, c0);
    assert(w2.take(0) =~= w3.take(0)); assert(w2.subrange(0, m + n) =~= w2.take(m + n)); assert(w3.subrange(0, m + n) =~= w3.take(m + n));
    let al = val(alo) as int;
    lemma_mid_add(w2, w3, 0, m + n, k2, s * (al * bv));
    assert(pw(0) == 1);
    let x = s * (al * bv);
    assert(x * 1 == x) by (nonlinear_arith);
    lemma_val_concat(done, w3.take(m)); lemma_val_concat(apre, alo); lemma_val_split(w3, m);
    lemma_pw_add(done.len(), m as nat); lemma_pw_add(m as nat, n as nat);
    let (p, q, t, v1, v3, v3l, v3h, ap, d) = (pw(done.len()) as int, pw(m as nat) as int, pw(n as nat) as int, val(w1) as int, val(w3) as int, val(w3.take(m)) as int, val(w3.skip(m)) as int, val(apre) as int, val(done) as int);
    let k = k1 + k2;
    assert(k1 * (q * t) + k2 * (q * t) == k * (q * t)) by (nonlinear_arith) requires k == k1 + k2;
    assert(v3 + k * (q * t) == v1 + c0 * t + x);
    assert((p * q) * (v3h + k * t) == p * (q * v3h + k * (q * t))) by (nonlinear_arith);
    assert(d + p * v3l + (p * q) * (v3h + k * t) == d + p * (v3l + q * v3h + k * (q * t))) by (nonlinear_arith) requires (p * q) * (v3h + k * t) == p * (q * v3h + k * (q * t));
    assert(p * (v1 + c0 * t + x) == p * (v1 + c0 * t) + p * x) by (nonlinear_arith);
    assert(s * ((ap + p * al) * bv) == s * (ap * bv) + p * (s * (al * bv))) by (nonlinear_arith);
}
pub(crate) proof fn lemma_chunk_end(done: Seq<Word>, w1: Seq<Word>, w2: Seq<Word>, w3: Seq<Word>, n: int, c0: int, k1: int, k2: int, s: int, arest: Seq<Word>, apre: Seq<Word>, bv: int, w0: Seq<Word>)
    requires 0 <= n <= w1.len(), w1.len() == w2.len(), w2.len() == w3.len(), apre.len() == done.len(),
        w1.take(n) =~= w2.take(n),
        val(w2.skip(n)) + k1 * pw((w1.len() - n) as nat) == val(w1.skip(n)) + c0,
        val(w3) + k2 * pw(w1.len()) == val(w2) + s * (val(arest) * bv),
        val(done) + pw(done.len()) * (val(w1) + c0 * pw(n as nat)) == val(w0) + s * (val(apre) * bv),
    ensures
        val(done + w3) + (k1 + k2) * pw(done.len() + w1.len()) == val(w0) + s * (val(apre + arest) * bv),
{
    assert(w1.subrange(n, w1.len() as int) =~= w1.skip(n)); assert(w2.subrange(n, w1.len() as int) =~= w2.skip(n));
    assert(w1.skip(w1.len() as int) =~= w2.skip(w1.len() as int));
    lemma_mid_add(w1, w2, n, w1.len() as int, k1, c0);
    let al = val(arest) as int;
    let x = s * (al * bv);
    lemma_val_concat(done, w3); lemma_val_concat(apre, arest);
    lemma_pw_add(done.len(), w1.len());
    let (p, q, v1, v3, ap, d, y) = (pw(done.len()) as int, pw(w1.len()) as int, val(w1) as int, val(w3) as int, val(apre) as int, val(done) as int, c0 * pw(n as nat));
    let k = k1 + k2;
    assert(v3 + k * q == v1 + y + x) by (nonlinear_arith) requires v3 + k1 * q + k2 * q == v1 + y + x, k == k1 + k2;
    assert(p * v3 + k * (p * q) == p * (v1 + y) + p * x) by (nonlinear_arith) requires v3 + k * q == v1 + y + x;
    assert(s * ((ap + p * al) * bv) == s * (ap * bv) + p * (s * (al * bv))) by (nonlinear_arith);
}
// `f(&mut c[i..j], ..)` is outlined as `at_f(c, i, j, ..)` in the large functions (the call itself is unchanged).
pub fn at_add_same(c: &mut [Word], i: usize, j: usize, sign: Sign, rhs: &[Word]) -> (r: SignedWord)
    requires i <= j <= old(c).len(), rhs.len() == j - i
    ensures final(c).len() == old(c).len(), -1 <= r <= 1,
        val(final(c)@) + r * pw(j as nat) == val(old(c)@) + (sgn(sign) * val(rhs@)) * pw(i as nat)
{
    let ghost w = c@;
    let r = add::add_signed_same_len_in_place(&mut c[i..j], sign, rhs);
    proof { assert(w.take(i as int) =~= c@.take(i as int)); assert(w.skip(j as int) =~= c@.skip(j as int)); lemma_mid_add(w, c@, i as int, j as int, r as int, sgn(sign) * val(rhs@)); }
    r
}
pub fn at_add(c: &mut [Word], i: usize, j: usize, sign: Sign, rhs: &[Word]) -> (r: SignedWord)
    requires i <= j <= old(c).len(), rhs.len() <= j - i
    ensures final(c).len() == old(c).len(), -1 <= r <= 1,
        val(final(c)@) + r * pw(j as nat) == val(old(c)@) + (sgn(sign) * val(rhs@)) * pw(i as nat)
{
    let ghost w = c@;
    let r = add::add_signed_in_place(&mut c[i..j], sign, rhs);
    proof { assert(w.take(i as int) =~= c@.take(i as int)); assert(w.skip(j as int) =~= c@.skip(j as int)); lemma_mid_add(w, c@, i as int, j as int, r as int, sgn(sign) * val(rhs@)); }
    r
}
pub fn at_word(c: &mut [Word], i: usize, j: usize, rhs: SignedWord) -> (r: SignedWord)
    requires i <= j <= old(c).len()
    ensures final(c).len() == old(c).len(), i < j ==> -1 <= r <= 1, i == j ==> r == rhs,
        val(final(c)@) + r * pw(j as nat) == val(old(c)@) + rhs * pw(i as nat)
{
    let ghost w = c@;
    let r = add::add_signed_word_in_place(&mut c[i..j], rhs);
    proof { assert(w.take(i as int) =~= c@.take(i as int)); assert(w.skip(j as int) =~= c@.skip(j as int)); lemma_mid_add(w, c@, i as int, j as int, r as int, rhs as int);
        let y = r as int; assert(y * 1 == y) by (nonlinear_arith); assert(pw(0) == 1); if i == j { assert(val(w.subrange(i as int, j as int)) == 0); assert(val(c@.subrange(i as int, j as int)) == 0); } }
    r
}
pub fn at_mul(c: &mut [Word], i: usize, j: usize, sign: Sign, a: &[Word], b: &[Word], memory: &mut Memory) -> (r: SignedWord)
    requires i <= j <= old(c).len(), a.len() == b.len(), a.len() + b.len() == j - i, old(memory).cap() >= mreq(a.len() as nat)
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(j as nat) == val(old(c)@) + (sgn(sign) * (val(a@) * val(b@))) * pw(i as nat)
    decreases a@.len() + b@.len(), 2int
{
    let ghost w = c@;
    let r = mul::add_signed_mul_same_len(&mut c[i..j], sign, a, b, memory);
    proof { assert(w.take(i as int) =~= c@.take(i as int)); assert(w.skip(j as int) =~= c@.skip(j as int)); lemma_mid_add(w, c@, i as int, j as int, r as int, sgn(sign) * (val(a@) * val(b@))); }
    r
}
@for $NM $F $INV $REQ in split_simple,crate::mul::simple::add_signed_mul_chunk,chunk_len<=crate::mul::simple::CHUNK_LEN&&b.len()<=crate::mul::MAX_LEN_SIMPLE,chunk_len<=crate::mul::simple::CHUNK_LEN&&b.len()<=crate::mul::MAX_LEN_SIMPLE split_kara,crate::mul::karatsuba::add_signed_mul_same_len,chunk_len==b.len()&&3<=b.len()<=crate::mul::MAX_LEN_KARATSUBA&&cap0>=crate::mul::kreq(b.len()~as~nat),chunk_len==b.len()&&3<=b.len()<=crate::mul::MAX_LEN_KARATSUBA&&old(memory).cap()>=crate::mul::kreq(b.len()~as~nat) split_toom,crate::mul::toom_3::add_signed_mul_same_len,chunk_len==b.len()&&b.len()>=16&&cap0>=crate::mul::treq(b.len()~as~nat),chunk_len==b.len()&&b.len()>=16&&old(memory).cap()>=crate::mul::treq(b.len()~as~nat)
@fn add_signed_mul_split_into_chunks -> r
@attr #[verifier::rlimit(100)]
@defun f_add_signed_mul_chunk=$F as $NM
    requires a.len() >= b.len(), old(c).len() == a.len() + b.len(), b.len() <= chunk_len, 1 <= chunk_len <= a.len(), $REQ, old(memory).cap() >= mreq(b.len() as nat)
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@))
    decreases a@.len() + b@.len(), 1int
@start
let ghost len0 = a@.len() + b@.len();
let ghost (w0, a0, bv) = (c@, a@, val(b@) as int);
let ghost wf = final(c)@;
let ghost mut done: Seq<Word> = Seq::empty();
let ghost mut apre: Seq<Word> = Seq::empty();
let ghost s = sgn(sign);
let ghost cap0 = memory.cap();
proof { assert(s * (0 * bv) == 0) by (nonlinear_arith); assert(pw(0) == 1); }
@loop 0
    invariant c.len() == a.len() + n, n == b.len(), wf =~= done + final(c)@, a0 =~= apre + a@, apre.len() == done.len(), -2 <= carry_n <= 2,
        memory.cap() == cap0, a.len() < chunk_len ==> apre.len() > 0, s == sgn(sign), bv == val(b@), a.len() + b.len() <= len0,
        len0 == a0.len() + b.len(), 1 <= chunk_len <= a0.len(), b.len() <= chunk_len, $INV,
        val(done) + pw(done.len()) * (val(c@) + carry_n * pw(n as nat)) == val(w0) + s * (val(apre) * bv),
    decreases a.len()
@loopstart 0
let ghost (w1, c0) = (c@, carry_n);
@after `carry_n = add :: add_signed_word_in_place ( & mut c [ n .. chunk_len + n ] , carry_n ) ;`
let ghost (w2, k1) = (c@, carry_n);
@after `b , memory ) ;` 0
let ghost w3 = c@;
let ghost f3 = final(c)@;
@loopend 0
proof {
    lemma_chunk(done, w1, w2, w3, n as int, chunk_len as int, c0 as int, k1 as int, carry_n - k1, s, a_lo@, apre, bv, w0);
    assert(f3 =~= w3.take(chunk_len as int) + final(c)@);
    assert(c@ =~= w3.skip(chunk_len as int));
    done = done + w3.take(chunk_len as int); apre = apre + a_lo@;
}
@loopafter 0
let ghost (w4, c4, r4) = (c@, carry_n, a@);
proof { crate::mul::lemma_mreq_mono(if a.len() < b.len() { a.len() as nat } else { b.len() as nat }, b.len() as nat); }
@after `let mut carry = add :: add_signed_word_in_place ( & mut c [ n .. ] , carry_n ) ;`
let ghost (w5, k5) = (c@, carry);
proof { let x = val(r4) as int; assert(x * bv == bv * x) by (nonlinear_arith); let y = k5 as int; assert(y * 1 == y) by (nonlinear_arith); assert(pw(0) == 1); assert(-2 <= carry <= 2);
    if r4.len() == 0 { assert(s * (0 * bv) == 0) by (nonlinear_arith); } 
    if r4.len() == 0 && bv == 0 { assert(s * (0 * 0) == 0) by (nonlinear_arith); } }
@tail
proof {
    let y = pw(w5.len()) as int; assert(0 * y == 0) by (nonlinear_arith);
    lemma_chunk_end(done, w4, w5, c@, n as int, c4 as int, k5 as int, carry - k5, s, r4, apre, bv, w0);
    assert(wf =~= done + c@); assert(a0 =~= apre + r4);
    lemma_prod_bound(a0, b@);
    lemma_carry1(wf, w0, carry as int, s, val(a0) * bv);
}
@endfor

@file mul/karatsuba.rs
@mod
use crate::vp_math::*;
use crate::add::sgn;
use crate::mul::{kreq, mreq};
@item const MIN_LEN
@fn memory_requirement_up_to -> r
@rewrite `math :: ceil_log_2 (` => `math::ceil_log_2_us(`
    requires 1 <= n <= 0x0800_0000_0000_0000
    ensures crate::memory::lw(r) >= kreq(n as nat)
@before `memory :: array_layout`
proof { let r = ((num_words - 2 * n) / 2) as nat; crate::mul::lemma_clog(n as nat, r); }
@fn add_signed_mul -> r
@rewrite `helpers :: add_signed_mul_split_into_chunks ( c , sign , a , b , b . len ( ) , memory , add_signed_mul_same_len , )` => `helpers::split_kara(c, sign, a, b, b.len(), memory)`
    requires a.len() >= b.len(), b.len() >= MIN_LEN, old(c).len() == a.len() + b.len(), b.len() <= crate::mul::MAX_LEN_KARATSUBA, old(memory).cap() >= kreq(b.len() as nat)
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@))
    decreases a@.len() + b@.len(), 2int
@fn add_signed_mul_same_len -> r
@rewrite `add :: add_signed_same_len_in_place ( & mut c [ .. 2 * mid ] , sign , c_lo )` => `crate::mul::helpers::at_add_same(c, 0, 2 * mid, sign, c_lo)`
@rewrite `add :: add_signed_same_len_in_place ( & mut c [ mid .. 3 * mid ] , sign , c_lo )` => `crate::mul::helpers::at_add_same(c, mid, 3 * mid, sign, c_lo)`
@rewrite `add :: add_signed_same_len_in_place ( & mut c [ 2 * mid .. ] , sign , c_hi )` => `crate::mul::helpers::at_add_same(c, 2 * mid, c.len(), sign, c_hi)`
@rewrite `add :: add_signed_in_place ( & mut c [ mid .. 3 * mid ] , sign , c_hi )` => `crate::mul::helpers::at_add(c, mid, 3 * mid, sign, c_hi)`
@rewrite `add :: add_signed_word_in_place ( & mut c [ 2 * mid .. 3 * mid ] , carry_c0 )` => `crate::mul::helpers::at_word(c, 2 * mid, 3 * mid, carry_c0)`
@rewrite `add :: add_signed_word_in_place ( & mut c [ 3 * mid .. ] , carry_c1 )` => `crate::mul::helpers::at_word(c, 3 * mid, c.len(), carry_c1)`
@rewrite `mul :: add_signed_mul_same_len ( & mut c [ mid .. 3 * mid ] , - sign * diff_sign , a_diff , b_diff , & mut memory , )` => `crate::mul::helpers::at_mul(c, mid, 3 * mid, -sign * diff_sign, a_diff, b_diff, &mut memory)`
    requires a.len() == b.len(), old(c).len() == a.len() + b.len(), MIN_LEN <= a.len() <= crate::mul::MAX_LEN_KARATSUBA, old(memory).cap() >= kreq(a.len() as nat)
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@))
    decreases a@.len() + b@.len(), 0int
@attr #[verifier::rlimit(30)]
@start
let ghost (w0, s) = (c@, sgn(sign));
let ghost mut k0: int = 0; let ghost mut k1: int = 0; let ghost mut k2: int = 0; let ghost mut k3: int = 0; let ghost mut k4: int = 0; let ghost mut ad: int = 0; let ghost mut bd: int = 0; let ghost mut ds: int = 0; let ghost mut sa: int = 0;
proof { crate::mul::lemma_kreq_rec(a.len() as nat); }
@before `let mut carry : SignedWord = 0 ;`
let ghost (al, ah, bl, bh) = (a_lo@, a_hi@, b_lo@, b_hi@);
let ghost (x1, x2, x3, z) = (pw(mid as nat) as int, pw((2 * mid) as nat) as int, pw((3 * mid) as nat) as int, pw((2 * n) as nat) as int);
let ghost (p, q) = (val(al) * val(bl), val(ah) * val(bh));
proof {
    lemma_val_split(a@, mid as int); lemma_val_split(b@, mid as int);
    lemma_prod_bound(al, bl); lemma_prod_bound(ah, bh); assert(pw(0) == 1);
}
@before `let overflow = mul :: add_signed_mul_same_len ( c_lo`
proof { lemma_val_zero(c_lo@); }
@before `assert ! ( overflow == 0 ) ;` 0
proof { assert(1 * p == p); lemma_carry0(c_lo@, overflow as int, p as int); }
@after `add :: add_signed_same_len_in_place ( & mut c [ .. 2 * mid ] , sign , c_lo ) ;`
proof { k0 = carry_c0 as int; assert((s * p) * 1 == s * p) by (nonlinear_arith); }
@after `add :: add_signed_same_len_in_place ( & mut c [ mid .. 3 * mid ] , sign , c_lo ) ;`
proof { k1 = carry_c1 as int; }
@before `let overflow = mul :: add_signed_mul_same_len ( c_hi`
proof { lemma_val_zero(c_hi@); }
@before `assert ! ( overflow == 0 ) ;` 1
proof { assert(1 * q == q); lemma_carry0(c_hi@, overflow as int, q as int); }
@after `add :: add_signed_same_len_in_place ( & mut c [ 2 * mid .. ] , sign , c_hi ) ;`
proof { k2 = carry as int; }
@after `add :: add_signed_in_place ( & mut c [ mid .. 3 * mid ] , sign , c_hi ) ;`
proof { k3 = carry_c1 as int - k1; }
@after `let mut diff_sign = add :: sub_in_place_with_sign ( a_diff , a_hi ) ;`
proof { ad = val(a_diff@) as int; sa = sgn(diff_sign); }
@after `diff_sign *= add :: sub_in_place_with_sign ( b_diff , b_hi ) ;`
proof { bd = val(b_diff@) as int; ds = sgn(diff_sign); lemma_diff_prod(val(al) as int, val(ah) as int, val(bl) as int, val(bh) as int, ad, bd, sa, ds);
    let y = ad * bd; assert((-s * ds) * y == -(s * (ds * y))) by (nonlinear_arith); }
@before `carry_c1 += add :: add_signed_word_in_place ( & mut c [ 2 * mid .. 3 * mid ] , carry_c0 ) ;`
proof { k4 = carry_c1 as int - k1 - k3; }
@after `add :: add_signed_word_in_place ( & mut c [ 2 * mid .. 3 * mid ] , carry_c0 ) ;`
let ghost k5 = carry_c1 as int - k1 - k3 - k4;
@after `add :: add_signed_word_in_place ( & mut c [ 3 * mid .. ] , carry_c1 ) ;`
let ghost k6 = carry as int - k2;
proof {
    lemma_pw_add(mid as nat, mid as nat);
    let y = ds * (ad * bd);
    lemma_kara(val(w0) as int, val(c@) as int, carry as int, k0, k1, k2, k3, k4, k5, k6, x1, x2, x3, z, s, val(al) as int, val(ah) as int, val(bl) as int, val(bh) as int, y);
    assert(val(c@) + carry * z == val(w0) + s * (val(a@) * val(b@)));
    lemma_prod_bound(a@, b@);
    lemma_carry1(c@, w0, carry as int, s, (val(a@) * val(b@)) as int);
}
@mod
proof fn lemma_diff_prod(al: int, ah: int, bl: int, bh: int, ad: int, bd: int, sa: int, ds: int)
    requires sa == 1 || sa == -1, al - ah == sa * ad, ds == sa || ds == -sa, bl - bh == (if ds == sa { bd } else { -bd })
    ensures ds * (ad * bd) == (al - ah) * (bl - bh)
{
    let (x, y) = (al - ah, bl - bh);
    if sa == 1 { assert(x == ad); } else { assert(x == -ad) by (nonlinear_arith) requires x == sa * ad, sa == -1; }
    if sa == 1 && ds == 1 { assert(ds * (ad * bd) == x * y) by (nonlinear_arith) requires x == ad, y == bd, ds == 1; }
    else if sa == 1 { assert(ds * (ad * bd) == x * y) by (nonlinear_arith) requires x == ad, y == -bd, ds == -1; }
    else if ds == 1 { assert(ds * (ad * bd) == x * y) by (nonlinear_arith) requires x == -ad, y == -bd, ds == 1; }
    else { assert(ds * (ad * bd) == x * y) by (nonlinear_arith) requires x == -ad, y == bd, ds == -1; }
}
proof fn lemma_kara(w0: int, w7: int, carry: int, k0: int, k1: int, k2: int, k3: int, k4: int, k5: int, k6: int, x: int, x2: int, x3: int, z: int, s: int, al: int, ah: int, bl: int, bh: int, d: int)
    requires x2 == x * x, carry == k2 + k6, d == (al - ah) * (bl - bh),
       w7 + k6 * z == w0 + s * (al * bl) * 1 - k0 * x2 + (s * (al * bl)) * x - k1 * x3 + (s * (ah * bh)) * x2 - k2 * z + (s * (ah * bh)) * x - k3 * x3 + (-(s * d)) * x - k4 * x3 + k0 * x2 - k5 * x3 + (k1 + k3 + k4 + k5) * x3
    ensures w7 + carry * z == w0 + s * ((al + x * ah) * (bl + x * bh))
{
    assert((k1 + k3 + k4 + k5) * x3 == k1 * x3 + k3 * x3 + k4 * x3 + k5 * x3) by (nonlinear_arith);
    assert(carry * z == k2 * z + k6 * z) by (nonlinear_arith) requires carry == k2 + k6;
    let p = al * bl; let q = ah * bh; let m = al * bh + ah * bl;
    assert(d == p + q - m) by (nonlinear_arith) requires d == (al - ah) * (bl - bh), p == al * bl, q == ah * bh, m == al * bh + ah * bl;
    let (u, v) = (x * ah, x * bh);
    assert((al + u) * (bl + v) == al * bl + al * v + u * bl + u * v) by (nonlinear_arith);
    assert(al * (x * bh) == x * (al * bh)) by (nonlinear_arith);
    assert((x * ah) * bl == x * (ah * bl)) by (nonlinear_arith);
    assert((x * ah) * (x * bh) == (x * x) * (ah * bh)) by (nonlinear_arith);
    assert(x * (al * bh + ah * bl) == x * (al * bh) + x * (ah * bl)) by (nonlinear_arith);
    assert(s * (p + x * m + x2 * q) == s * p + (s * m) * x + (s * q) * x2) by (nonlinear_arith);
    let (sp, sq, sm) = (s * p, s * q, s * m);
    assert(s * d == sp + sq - sm) by (nonlinear_arith) requires d == p + q - m, sp == s * p, sq == s * q, sm == s * m;
    assert(sp * x + sq * x + (-(sp + sq - sm)) * x == sm * x) by (nonlinear_arith);
}
@file mul/toom_3.rs
@mod
use crate::vp_math::*;
use crate::add::sgn;
use crate::mul::{treq, mreq};
#[verifier::external_body]
pub proof fn lemma_treq(n: nat) ensures treq(n) <= 4 * n + 13 * crate::mul::clog(n) {}
@item const MIN_LEN
@fn memory_requirement_up_to -> r
@rewrite `math :: ceil_log_2 (` => `math::ceil_log_2_us(`
    requires 1 <= n <= 0x0800_0000_0000_0000
    ensures crate::memory::lw(r) >= treq(n as nat)
@before `memory :: array_layout`
proof { let r = ((num_words - 4 * n) / 13) as nat; crate::mul::lemma_clog(n as nat, r); lemma_treq(n as nat); }
@fn add_signed_mul -> r
@rewrite `helpers :: add_signed_mul_split_into_chunks ( c , sign , a , b , b . len ( ) , memory , add_signed_mul_same_len , )` => `helpers::split_toom(c, sign, a, b, b.len(), memory)`
    requires a.len() >= b.len(), b.len() >= MIN_LEN, old(c).len() == a.len() + b.len(), old(memory).cap() >= treq(b.len() as nat), old(memory).cap() >= mreq(b.len() as nat)
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@))
    decreases a@.len() + b@.len(), 2int
@trusted add_signed_mul_same_len -> r
    requires a.len() == b.len(), old(c).len() == a.len() + b.len(), MIN_LEN <= a.len(), old(memory).cap() >= treq(a.len() as nat)
    ensures final(c).len() == old(c).len(), -1 <= r <= 1, final(memory).cap() == old(memory).cap(),
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@))
