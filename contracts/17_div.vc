@file div/mod.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use vstd::arithmetic::div_mod::*;
@item const MAX_LEN_SIMPLE
@mod
/// w0 divided by r (len n): quotient in the top words of wf with carry c, remainder in the bottom n words.
#[verifier::opaque]
pub open spec fn is_div(w0: Seq<Word>, wf: Seq<Word>, r: Seq<Word>, c: bool) -> bool {
    &&& wf.len() == w0.len()
    &&& val(w0) == (val(wf.skip(r.len() as int)) + b2n(c) * pw((w0.len() - r.len()) as nat)) * val(r) + val(wf.take(r.len() as int))
    &&& val(wf.take(r.len() as int)) < val(r)
}
/// Scratch words the recursive division needs.
pub open spec fn dreq(l: nat, n: nat) -> nat {
    if n <= MAX_LEN_SIMPLE || l - n <= MAX_LEN_SIMPLE { 0 } else { crate::mul::mreq(if n / 2 < l - n { n / 2 } else { (l - n) as nat }) }
}
/// r is a normalized divisor and f divides by its top word.
pub(crate) open spec fn is_top(r: Seq<Word>, f: FastDivideNormalized) -> bool { r.len() >= 2 && f.wf() && f.d() == r.last() as nat }
proof fn lemma_dw_step(w1: Seq<Word>, wf: Seq<Word>, i: int, d: nat, r0: nat, m0: nat, m1: nat)
    requires 0 <= i < w1.len(), w1.len() == wf.len(),
        val(wf.skip(i + 1)) * d + m0 == val(w1.skip(i + 1)) + r0 * pw((w1.len() - i - 1) as nat),
        w1[i] as nat + B() * m0 == wf[i] as nat * d + m1,
    ensures val(wf.skip(i)) * d + m1 == val(w1.skip(i)) + r0 * pw((w1.len() - i) as nat)
{
    lemma_val_first(w1.skip(i)); lemma_val_first(wf.skip(i));
    assert(w1.skip(i).skip(1) =~= w1.skip(i + 1)); assert(wf.skip(i).skip(1) =~= wf.skip(i + 1));
    lemma_pw_step((w1.len() - i - 1) as nat);
    let (x, y, p, q, b) = (val(wf.skip(i + 1)) as int, val(w1.skip(i + 1)) as int, pw((w1.len() - i - 1) as nat) as int, wf[i] as int, B() as int);
    let (d, r0, m0) = (d as int, r0 as int, m0 as int);
    assert((q + b * x) * d == q * d + b * (x * d)) by (nonlinear_arith);
    assert(b * (x * d) + b * m0 == b * y + b * (r0 * p)) by (nonlinear_arith) requires x * d + m0 == y + r0 * p;
    assert(b * (r0 * p) == r0 * (b * p)) by (nonlinear_arith);
}
/// Undo the normalization shift.
pub proof fn lemma_dw_end(v: nat, q: nat, d: nat, p: nat, rhs: nat, rem: nat)
    requires q * d + rem == v * p, d == rhs * p, rem < d, p >= 1
    ensures v == q * rhs + rem / p, rem / p < rhs, rem % p == 0
{
    let (vi, qi, ri, pi) = (v as int, q as int, rhs as int, p as int);
    assert(rem as int == (vi - qi * ri) * pi) by (nonlinear_arith) requires qi * (ri * pi) + rem == vi * pi;
    let t = vi - qi * ri;
    assert(t >= 0) by (nonlinear_arith) requires t * pi >= 0, pi >= 1;
    assert(t < ri) by (nonlinear_arith) requires t * pi < ri * pi, pi >= 1;
    lemma_quot(rem, t as nat, p, 0);
}
pub proof fn lemma_norm_word(rhs: Word)
    requires rhs > 0
    ensures lzs(rhs) < $BITS, ((rhs << (lzs(rhs) as u32)) as nat) == rhs as nat * p2(lzs(rhs) as nat), 2 * (rhs << (lzs(rhs) as u32)) >= B()
{
    lemma_lz(rhs); lemma_p2_wb();
    let s = lzs(rhs) as u32; let k = ($BITS - s) as nat;
    lemma_shl_mul(rhs, s);
    lemma_p2_add(k, s as nat); lemma_p2_pos(s as nat); lemma_p2_pos(k);
    assert(p2(k) == 2 * p2((k - 1) as nat));
    let (x, p, h) = (rhs as int, p2(s as nat) as int, p2((k - 1) as nat) as int);
    assert(x * p < (2 * h) * p) by (nonlinear_arith) requires x < 2 * h, p >= 1;
    assert(2 * (x * p) >= (2 * h) * p) by (nonlinear_arith) requires x >= h, p >= 1;
    assert(s < $BITS ==> ((rhs as $DW) << s) < $BASE$DW ==> ((rhs << s) as $DW) == ((rhs as $DW) << s)) by (bit_vector);
}
@fn normalize_large -> r
    requires old(words).len() >= 2, old(words)@.last() != 0
    ensures final(words).len() == old(words).len(), r.0 < $BITS, val(final(words)@) == val(old(words)@) * p2(r.0 as nat), is_top(final(words)@, r.1)
@start
let ghost w0 = words@;
proof { lemma_lz(w0.last()); }
@before `assert ! ( overflow == 0 )`
proof { lemma_norm_large(w0, words@, shift, overflow); }
@mod
proof fn lemma_norm_large(w0: Seq<Word>, w1: Seq<Word>, shift: u32, ov: Word)
    requires w0.len() >= 2, w1.len() == w0.len(), w0.last() != 0, shift == lzs(w0.last()), val(w1) + ov as nat * pw(w0.len()) == val(w0) * p2(shift as nat)
    ensures ov == 0, 2 * w1.last() >= B(), val(w1) == val(w0) * p2(shift as nat)
{
    let x = w0.last(); let n = (w0.len() - 1) as nat;
    lemma_lz(x); lemma_norm_word(x);
    lemma_val_bound(w0.drop_last()); lemma_val_bound(w1.drop_last()); lemma_pw_step(n); lemma_p2_pos(shift as nat);
    let k = ($BITS - shift) as nat; lemma_p2_add(k, shift as nat); lemma_p2_wb();
    let (a, b, p, s, m, o, y) = (val(w0.drop_last()) as int, val(w1.drop_last()) as int, pw(n) as int, p2(shift as nat) as int, x as int, ov as int, w1.last() as int);
    assert(p2(k) == 2 * p2((k - 1) as nat));
    let ms = m * s;
    // x + 1 <= 2^k, so (a + x p) s < 2^k p s = B p
    assert((a + m * p) * s < p2(k) * p * s) by (nonlinear_arith) requires a < p, m + 1 <= p2(k), s >= 1, p >= 1, a >= 0, m >= 0;
    assert(p2(k) * p * s == B() * p) by (nonlinear_arith) requires p2(k) * s == B();
    assert(o == 0) by (nonlinear_arith) requires b + y * p + o * (B() * p) < B() * p, o >= 0, b >= 0, y >= 0, p >= 1;
    assert(0 * pw(w0.len()) == 0);
    assert((a + m * p) * s == a * s + ms * p) by (nonlinear_arith) requires ms == m * s;
    assert(a * s >= 0) by (nonlinear_arith) requires a >= 0, s >= 0;
    assert(y >= ms) by (nonlinear_arith) requires b + y * p >= ms * p, b < p, p >= 1;
}
@fn div_by_word_in_place -> r
    requires rhs > 0
    ensures final(words).len() == old(words).len(), val(old(words)@) == val(final(words)@) * rhs as nat + r as nat, r < rhs
@start
proof { lemma_norm_word(rhs); lemma_val_empty(Seq::<Word>::empty()); let k = rhs as nat; assert(0 * k == 0); }
@before `let sh = rhs . trailing_zeros`
proof { lemma_tz(rhs); lemma_p2_word(rhs); }
@mod
pub proof fn lemma_p2_word(x: Word) requires is_p2(x as nat) ensures x > 0, tzs(x) < $BITS, x as nat == p2(tzs(x) as nat)
{
    let k = choose|k: nat| #[trigger] p2(k) == x as nat;
    lemma_p2_pos(k); lemma_tz(x); lemma_p2_wb();
    let t = tzs(x) as nat;
    lemma_p2_pos(t); assert(p2(0) == 1);
    if k >= $BITS { lemma_p2_mono($BITS, k); }
    if t < k { let (a, b) = (p2(t) as int, p2((k - t) as nat) as int); lemma_p2_add(t, (k - t) as nat); assert(b == 2 * p2((k - t - 1) as nat));
        assert(a * b == b * a) by (nonlinear_arith); lemma_fundamental_div_mod_converse(a * b, a, b, 0); assert(!bit(x as int, t)); }
    if t > k { lemma_div_by_self(p2(k) as int); assert(bit(x as int, k)); }
}
@fn fast_div_by_word_in_place -> r
    requires rhs > 0, fast_div_rhs.wf(), fast_div_rhs.d() == rhs as nat * p2(lzs(rhs) as nat)
    ensures final(words).len() == old(words).len(), val(old(words)@) == val(final(words)@) * rhs as nat + r as nat, r < rhs
@start
let ghost w0 = words@;
let ghost n = words.len();
proof { fast_div_rhs.lemma_wf(); lemma_lz(rhs); }
let ghost d = fast_div_rhs.d();
@loop 0 i idx
    invariant 0 <= i <= words.len(), words.len() == n, w1.len() == n, fast_div_rhs.wf(), fast_div_rhs.d() == d, rem < d, d < B(),
        forall|j: int| 0 <= j < i ==> words@[j] == w1[j],
        val(words@.skip(i as int)) * d + rem as nat == val(w1.skip(i as int)) + r0 * pw((n - i) as nat),
    decreases i
@loopbefore 0
let ghost w1 = words@;
let ghost r0 = rem as nat;
proof { lemma_p2_pos(shift as nat); let (x, p) = (rhs as int, p2(shift as nat) as int); assert(p <= x * p) by (nonlinear_arith) requires x >= 1, p >= 1;
    lemma_val_empty(w1.skip(n as int)); assert(0 * d == 0); assert(r0 * 1 == r0); lemma_pw_step(0); }
@looppre 0
let ghost ws = words@;
@loopstart 0
let ghost (m0, x0) = (rem, *word);
proof { let (m, b) = (rem as int, B() as int); assert(x0 + b * m < d * b) by (nonlinear_arith) requires 0 <= x0 < b, m + 1 <= d, b > 0; }
@loopend 0
proof { assert(words@.skip(i + 1) =~= ws.skip(i + 1)); lemma_dw_step(w1, words@, i as int, d, r0, m0 as nat, rem as nat); }
@loopafter 0
proof { assert(words@.skip(0) =~= words@); assert(w1.skip(0) =~= w1); 
    lemma_dw_end(val(w0), val(words@), d, p2(shift as nat), rhs as nat, rem as nat); lemma_shr_div(rem, shift); }
@fn rem_by_word -> r
    requires rhs > 0
    ensures r as nat == val(words@) % rhs as nat
@start
proof { lemma_norm_word(rhs); if words.len() == 0 { lemma_val_empty(words@); } lemma_small_mod(0, rhs as nat);  }
@before `return words [ 0 ] & ( rhs - 1 ) ;`
proof { lemma_p2_word(rhs); lemma_rem_low(words@, rhs); }
@before `let ( _ , rem ) =`
let ghost m = rem;
let ghost p = p2(shift as nat);
proof { fast_div_rhs.lemma_wf(); lemma_shl_mul(rem, shift); lemma_p2_pos(shift as nat); lemma_p2_wb(); lemma_p2_mono(shift as nat, $BITS); let d = fast_div_rhs.d() as int; let (x, y) = (m as int, p as int);
    assert(x * y < d * B()) by (nonlinear_arith) requires 0 <= x < d, 1 <= y <= B(); assert(a as nat == m as nat * p); }
@before `rem >> shift`
proof { lemma_rem_end(val(words@), rhs as nat, p, m as nat, rem as nat); lemma_shr_div(rem, shift); }
@mod
proof fn lemma_rem_low(w: Seq<Word>, rhs: Word) requires w.len() > 0, rhs > 0, tzs(rhs) < $BITS, rhs as nat == p2(tzs(rhs) as nat)
    ensures (w[0] & sub(rhs, 1)) as nat == val(w) % rhs as nat
{
    let s = tzs(rhs) as u32; lemma_mask_mod(w[0], s); lemma_one_shl_w(s);
    lemma_val_first(w); lemma_p2_add(s as nat, ($BITS - s) as nat); lemma_p2_wb();
    let (x, y, p, q, v) = (w[0] as int, val(w) as int, p2(s as nat) as int, p2(($BITS - s) as nat) as int, val(w.skip(1)) as int);
    assert(B() * v == p * (q * v)) by (nonlinear_arith) requires B() == p * q;
    lemma_mod_multiples_vanish(q * v, x, p);
}
proof fn lemma_rem_end(v: nat, rhs: nat, p: nat, m: nat, t: nat) requires rhs > 0, p > 0, m == v % (rhs * p), t == (m * p) % (rhs * p)
    ensures t / p == v % rhs
{
    let d = (rhs * p) as int; let (v, rhs, p, m, t) = (v as int, rhs as int, p as int, m as int, t as int);
    assert(d > 0) by (nonlinear_arith) requires d == rhs * p, rhs > 0, p > 0;
    lemma_fundamental_div_mod(v, d); lemma_fundamental_div_mod(m * p, d); lemma_mod_bound(m * p, d);
    let (k, j) = (v / d, (m * p) / d);
    assert(t == (m - j * rhs) * p) by (nonlinear_arith) requires m * p == d * j + t, d == rhs * p;
    let u = m - j * rhs;
    assert(0 <= u < rhs) by (nonlinear_arith) requires 0 <= u * p < rhs * p, p > 0;
    lemma_div_multiples_vanish(u, p); assert(u * p == p * u) by (nonlinear_arith);
    assert(v == rhs * (k * p + j) + u) by (nonlinear_arith) requires v == d * k + m, d == rhs * p, u == m - j * rhs;
    lemma_fundamental_div_mod_converse(v, rhs, k * p + j, u);
}
proof fn lemma_rem_step(w: Seq<Word>, i: int, d: nat, m0: nat, m1: nat)
    requires 0 <= i < w.len(), d > 0, m0 == val(w.skip(i + 1)) % d, m1 == (w[i] as nat + B() * m0) % d
    ensures m1 == val(w.skip(i)) % d
{
    lemma_val_first(w.skip(i)); assert(w.skip(i).skip(1) =~= w.skip(i + 1));
    let (x, v, d, b) = (w[i] as int, val(w.skip(i + 1)) as int, d as int, B() as int);
    lemma_mul_mod_noop_right(b, v, d);
    lemma_add_mod_noop_right(x, b * v, d); lemma_add_mod_noop_right(x, b * (v % d), d);
}
@fn fast_rem_by_normalized_word -> r
@rewrite `let mut iter = words . iter ( ) . rev ( ) ;` => `let mut vp_n: usize = words.len();`
@rewrite `iter . next ( )` => `(if vp_n == 0 { None } else { vp_n = vp_n - 1; Some(&words[vp_n]) })`
    requires fast_div_rhs.wf()
    ensures r as nat == val(words@) % fast_div_rhs.d(), r < fast_div_rhs.d()
@start
proof { fast_div_rhs.lemma_wf(); if words.len() == 0 { lemma_val_empty(words@); } lemma_small_mod(0, fast_div_rhs.d()); }
@loop 0 i idx over iter words[..vp_n] rev
    invariant 0 <= i <= vp_n < words.len(), fast_div_rhs.wf(), rem as nat == val(words@.skip(i as int)) % fast_div_rhs.d(), rem < fast_div_rhs.d() < B()
    decreases i
@loopbefore 0
proof { let d = fast_div_rhs.d() as int; lemma_mod_bound(words@.last() as int, d); lemma_val_first(words@.skip(vp_n as int)); lemma_val_empty(words@.skip(vp_n as int).skip(1)); assert(B() * 0 == 0); }
@loopstart 0
proof { let (m, b, d) = (rem as int, B() as int, fast_div_rhs.d() as int); let x = words[i as int] as int; assert(x + b * m < d * b) by (nonlinear_arith) requires 0 <= x < b, m + 1 <= d, b > 0; }
let ghost m0 = rem;
@loopend 0
proof { lemma_rem_step(words@, i as int, fast_div_rhs.d(), m0 as nat, rem as nat); }
@loopafter 0
proof { assert(words@.skip(0) =~= words@); }
@fn memory_requirement_exact -> r
    requires lhs_len >= rhs_len >= 2, lhs_len <= 0x0800_0000_0000_0000
    ensures crate::memory::lw(r) >= dreq(lhs_len as nat, rhs_len as nat)
@fn div_rem_in_place -> c
    requires old(lhs).len() <= 0x0800_0000_0000_0000, old(lhs).len() >= rhs.len(), is_top(rhs@, fast_div_rhs_top), old(memory).cap() >= dreq(old(lhs).len() as nat, rhs.len() as nat)
    ensures final(lhs)@.len() == old(lhs)@.len(), is_div(old(lhs)@, final(lhs)@, rhs@, c)
@file div/simple.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::div::*;
/// Two top words of the divisor and three of the dividend: a quotient digit q is at most one too large.
spec fn est_ok(q: int, x: int, v: int) -> bool { (q - 1) * v <= x < (q + 1) * v }
/// x = u*p + xlo (u: top three words), v = v2*p + vlo (v2: top two words, normalized)
proof fn lemma_est(q: int, u: int, v2: int, p: int, xlo: int, vlo: int, x: int, v: int)
    requires 0 <= q < B(), x == u * p + xlo, v == v2 * p + vlo, 0 <= xlo < p, 0 <= vlo < p, v2 >= B(), q * v2 <= u, u >= 0
    ensures (q - 1) * v <= x
{
    let (qv, qp, qvlo, v2p) = (q * v2, q * p, q * vlo, v2 * p);
    assert(q * v == qv * p + qvlo) by (nonlinear_arith) requires v == v2 * p + vlo, qv == q * v2, qvlo == q * vlo;
    assert(qv * p <= u * p) by (nonlinear_arith) requires qv <= u, p >= 0;
    assert(qvlo <= qp) by (nonlinear_arith) requires qvlo == q * vlo, qp == q * p, vlo <= p, q >= 0;
    assert(qp <= v2p) by (nonlinear_arith) requires qp == q * p, v2p == v2 * p, q <= v2, p >= 0;
    assert((q - 1) * v == q * v - v) by (nonlinear_arith);
}
/// q*v2 > u: the quotient is below q.
proof fn lemma_est_dec(q: int, u: int, v2: int, p: int, xlo: int, vlo: int, x: int, v: int)
    requires 0 <= q, x == u * p + xlo, v == v2 * p + vlo, 0 <= xlo < p, 0 <= vlo < p, q * v2 > u, u >= 0
    ensures x < q * v
{
    let (qv, qvlo) = (q * v2, q * vlo);
    assert(q * v == qv * p + qvlo) by (nonlinear_arith) requires v == v2 * p + vlo, qv == q * v2, qvlo == q * vlo;
    assert(qv * p >= u * p + p) by (nonlinear_arith) requires qv >= u + 1, p >= 0;
    assert(qvlo >= 0) by (nonlinear_arith) requires qvlo == q * vlo, q >= 0, vlo >= 0;
}
/// the first estimate, from the top word of the divisor, is not too small
proof fn lemma_est_first(q: int, r: int, v0: int, v1: int, u01: int, u2: int, p: int, xlo: int, vlo: int, x: int, v: int)
    requires 0 <= q, u01 == q * v0 + r, r < v0, x == (u01 * B() + u2) * p + xlo, v == (v0 * B() + v1) * p + vlo, 0 <= xlo < p, 0 <= vlo < p, 0 <= u2 < B(), 0 <= v1
    ensures x < (q + 1) * v
{
    let b = B() as int; let k = q + 1;
    assert(k * v0 == q * v0 + v0) by (nonlinear_arith) requires k == q + 1;
    let kv = k * v0; let bp = b * p; let v1p = v1 * p;
    assert((u01 * b + u2) * p == u01 * bp + u2 * p) by (nonlinear_arith) requires bp == b * p;
    assert((v0 * b + v1) * p == v0 * bp + v1p) by (nonlinear_arith) requires bp == b * p, v1p == v1 * p;
    assert(k * v == kv * bp + k * (v1p + vlo)) by (nonlinear_arith) requires v == v0 * bp + v1p + vlo, kv == k * v0;
    assert(v1p >= 0) by (nonlinear_arith) requires v1p == v1 * p, v1 >= 0, p >= 0;
    assert(k * (v1p + vlo) >= 0) by (nonlinear_arith) requires k >= 0, v1p + vlo >= 0;
    assert(u01 * bp + bp <= kv * bp) by (nonlinear_arith) requires u01 + 1 <= kv, bp >= 0;
    assert(u2 * p + p <= bp) by (nonlinear_arith) requires u2 + 1 <= b, bp == b * p, p >= 0;
}
/// the top words are equal: q = B - 1
proof fn lemma_est_max(u0: int, pn: int, xlo: int, v0: int, p1: int, vlo: int, x: int, v: int)
    requires u0 == v0, x == u0 * pn + xlo, 0 <= xlo, v == v0 * p1 + vlo, 0 <= vlo < p1, pn == B() * p1, 2 * v0 >= B(), x < B() * v
    ensures est_ok(B() - 1, x, v)
{
    let b = B() as int; let v0p = v0 * p1;
    assert(u0 * pn == b * v0p) by (nonlinear_arith) requires u0 == v0, pn == b * p1, v0p == v0 * p1;
    assert(2 * v0p >= b * p1) by (nonlinear_arith) requires 2 * v0 >= b, v0p == v0 * p1, p1 >= 0;
    assert((b - 1 - 1) * v == b * v0p + b * vlo - 2 * v) by (nonlinear_arith) requires v == v0p + vlo;
    assert(b * vlo <= b * p1) by (nonlinear_arith) requires vlo <= p1, b >= 0;
}
/// subtract q*v, and add v back if that was too much
proof fn lemma_sub_back(q: int, v: int, x: int, u0: int, pn: int, t0: int, t1: int, br: int)
    requires q >= 0, x >= 0, est_ok(q, x, v), x == t0 + u0 * pn, t1 + q * v == t0 + br * pn, 0 <= t1 < pn, 0 < v < pn
    ensures br == u0 || br == u0 + 1, br == u0 + 1 ==> q > 0, br == u0 ==> x == q * v + t1 && t1 < v, br == u0 + 1 ==> x == (q - 1) * v + (t1 + v - pn) && 0 <= t1 + v - pn < v
{
    let k = u0 - br;
    assert(x - q * v == t1 + k * pn) by (nonlinear_arith) requires x == t0 + u0 * pn, t1 + q * v == t0 + br * pn, k == u0 - br;
    assert((q - 1) * v == q * v - v && (q + 1) * v == q * v + v) by (nonlinear_arith);
    assert(k == 0 || k == -1) by (nonlinear_arith) requires -pn < t1 + k * pn < pn, 0 <= t1 < pn;
    assert((0int) * pn == 0 && (-1int) * pn == -pn) by (nonlinear_arith);
    assert(0 * v == 0);
}
pub open spec fn kinv(w0: Seq<Word>, w: Seq<Word>, v: nat, n: int, m: int, c: bool) -> bool {
    val(w0) as int == (val(w.skip(m)) + b2n(c) * pw((w0.len() - m) as nat)) * (pw((m - n) as nat) * v) + val(w.take(m))
}
proof fn lemma_kstep(w0: Seq<Word>, w: Seq<Word>, w1: Seq<Word>, v: nat, n: int, m: int, c: bool, x: nat, q: nat)
    requires w.len() == w0.len(), w1.len() == w0.len(), 2 <= n < m <= w0.len(), kinv(w0, w, v, n, m, c),
        w1.take(m - 1 - n) =~= w.take(m - 1 - n), w1.skip(m) =~= w.skip(m), w1[m - 1] as nat == q, x == val(w.subrange(m - 1 - n, m)),
        x == q * v + val(w1.subrange(m - 1 - n, m - 1))
    ensures kinv(w0, w1, v, n, m - 1, c)
{
    let k = m - 1 - n;
    lemma_val_split(w.take(m), k); assert(w.take(m).take(k) =~= w.take(k)); assert(w.take(m).skip(k) =~= w.subrange(k, m));
    lemma_val_split(w1.take(m - 1), k); assert(w1.take(m - 1).take(k) =~= w1.take(k)); assert(w1.take(m - 1).skip(k) =~= w1.subrange(k, m - 1));
    lemma_val_first(w1.skip(m - 1)); assert(w1.skip(m - 1).skip(1) =~= w1.skip(m));
    lemma_pw_step(k as nat); lemma_pw_step((w0.len() - m) as nat);
    assert((k + 1) as nat == (m - n) as nat);
    let (p, b, s, l, cc, pl, r, v, q) = (pw(k as nat) as int, B() as int, val(w.skip(m)) as int, val(w.take(k)) as int, b2n(c) as int, pw((w0.len() - m) as nat) as int, val(w1.subrange(k, m - 1)) as int, v as int, q as int);
    let z = s + cc * pl; let pv = p * v;
    assert(cc * (b * pl) == b * (cc * pl)) by (nonlinear_arith);
    assert((b * p) * v == b * pv) by (nonlinear_arith) requires pv == p * v;
    let zb = z * b;
    assert(zb == b * s + b * (cc * pl)) by (nonlinear_arith) requires zb == z * b, z == s + cc * pl;
    assert(z * (b * pv) == zb * pv) by (nonlinear_arith) requires zb == z * b;
    assert((q + zb) * pv == q * pv + zb * pv) by (nonlinear_arith);
    assert(p * (q * v + r) == q * pv + p * r) by (nonlinear_arith) requires pv == p * v;
    assert(val(w1.skip(m - 1)) as int + cc * pw((w0.len() - (m - 1)) as nat) == q + zb);
}
proof fn lemma_kinit(w0: Seq<Word>, w1: Seq<Word>, r: Seq<Word>, ov: bool)
    requires w1.len() == w0.len(), 2 <= r.len() <= w0.len(), 2 * r.last() >= B(), w1.take(w0.len() - r.len()) =~= w0.take(w0.len() - r.len()),
        val(w0.skip(w0.len() - r.len())) >= val(r), val(w1.skip(w0.len() - r.len())) + val(r) == val(w0.skip(w0.len() - r.len())) + b2n(ov) * pw(r.len())
    ensures !ov, val(w1.skip(w0.len() - r.len())) < val(r), kinv(w0, w1, val(r), r.len() as int, w0.len() as int, true)
{
    let n = r.len(); let k = w0.len() - n;
    lemma_val_bound(w1.skip(k)); lemma_val_bound(w0.skip(k)); lemma_pw_step((n - 1) as nat); lemma_pw_step(0);
    lemma_val_split(w0, k); lemma_val_split(w1, k);
    let (p, v, x, y, q) = (pw(k as nat) as int, val(r) as int, val(w0.skip(k)) as int, val(w1.skip(k)) as int, pw((n - 1) as nat) as int);
    let t = r.last() as int;
    assert(2 * v >= B() * q) by (nonlinear_arith) requires v >= t * q, 2 * t >= B(), q >= 0;
    let pn = pw(n) as int; assert(0 * pn == 0 && 1 * pn == pn);
    assert(p * x == p * v + p * y) by (nonlinear_arith) requires x == v + y;
    assert(w1.take(w0.len() as int) =~= w1); lemma_val_empty(w1.skip(w0.len() as int));
    let pv = p * v; assert(1 * pv == pv);
}
pub proof fn lemma_kinit0(w0: Seq<Word>, w: Seq<Word>, v: nat, n: int) requires 0 <= n <= w0.len(), w =~= w0 ensures kinv(w0, w, v, n, w0.len() as int, false)
{ assert(w.take(w0.len() as int) =~= w); lemma_val_empty(w.skip(w0.len() as int)); let pv = (pw((w0.len() - n) as nat) * v) as int; assert(0 * pw(0) == 0); assert(0 * pv == 0); }
proof fn lemma_dw_all() ensures forall|a: int, b: int| 0 <= a <= $MAX && 0 <= b <= $MAX ==> 0 <= #[trigger] (a * b) <= $DMAX
{ assert forall|a: int, b: int| 0 <= a <= $MAX && 0 <= b <= $MAX implies 0 <= #[trigger] (a * b) <= $DMAX by { assert(0 <= a * b <= $DMAX) by (nonlinear_arith) requires 0 <= a <= $MAX, 0 <= b <= $MAX; } }
/// q*v1 > r*B + u2 means q*(v0*B + v1) > u
proof fn lemma_est_cond(q: int, r: int, v0: int, v1: int, u01: int, u2: int) requires u01 == q * v0 + r
    ensures q * (v0 * B() + v1) - (u01 * B() + u2) == q * v1 - (r * B() + u2), u01 == (q - 1) * v0 + (r + v0)
{
    let qv = q * v0; let b = B() as int;
    assert(q * (v0 * b + v1) == qv * b + q * v1) by (nonlinear_arith) requires qv == q * v0;
    assert((qv + r) * b == qv * b + r * b) by (nonlinear_arith);
    assert((q - 1) * v0 == q * v0 - v0) by (nonlinear_arith);
}
/// what the digits of the quotient estimate stand for
proof fn lemma_kdigits(w: Seq<Word>, r: Seq<Word>, m: int, x: nat)
    requires r.len() >= 2, r.len() < m <= w.len(), x == val(w.subrange(m - 1 - r.len(), m)), val(w.subrange(m - r.len(), m)) < val(r), 2 * r.last() >= B()
    ensures ({
        let n = r.len() as int; let p = pw((n - 2) as nat) as int;
        let xlo = val(w.subrange(m - 1 - n, m - 3)) as int; let vlo = val(r.take(n - 2)) as int;
        &&& 0 <= xlo < p && 0 <= vlo < p
        &&& x as int == ((w[m - 2] + B() * w[m - 1]) * B() + w[m - 3]) * p + xlo
        &&& val(r) as int == (r[n - 1] * B() + r[n - 2]) * p + vlo
        &&& x < B() * val(r)
        &&& x == val(w.subrange(m - 1 - n, m - 1)) + w[m - 1] * pw(n as nat)
        &&& val(w.subrange(m - 1 - n, m - 1)) < pw(n as nat)
        &&& pw(n as nat) == B() * pw((n - 1) as nat)
        &&& val(r) == r[n - 1] * pw((n - 1) as nat) + val(r.drop_last()) && val(r.drop_last()) < pw((n - 1) as nat)
        &&& 0 < val(r) < pw(n as nat)
        &&& w[m - 1] <= r[n - 1]
    })
{
    let n = r.len() as int; let k = (n - 2) as nat; let p = pw(k) as int;
    let xs = w.subrange(m - 1 - n, m);
    lemma_val_bound(w.subrange(m - 1 - n, m - 3)); lemma_val_bound(r.take(n - 2)); lemma_val_bound(r); lemma_val_bound(w.subrange(m - 1 - n, m - 1)); lemma_val_bound(r.drop_last());
    lemma_pw_step(k); lemma_pw_step((n - 1) as nat); assert((k + 1) as nat == (n - 1) as nat);
    assert(xs.drop_last() =~= w.subrange(m - 1 - n, m - 1)); assert(xs.drop_last().drop_last() =~= w.subrange(m - 1 - n, m - 2)); assert(xs.drop_last().drop_last().drop_last() =~= w.subrange(m - 1 - n, m - 3));
    assert(r.drop_last().drop_last() =~= r.take(n - 2));
    let b = B() as int;
    let (u0, u1, u2, v0, v1) = (w[m - 1] as int, w[m - 2] as int, w[m - 3] as int, r[n - 1] as int, r[n - 2] as int);
    let (xa, xb, xc) = (w.subrange(m - 1 - n, m - 1), w.subrange(m - 1 - n, m - 2), w.subrange(m - 1 - n, m - 3));
    assert(xs.last() == u0 && xa.last() == u1 && xb.last() == u2);
    assert(val(xs) == val(xa) + u0 * pw(n as nat)); assert(val(xa) == val(xb) + u1 * pw((n - 1) as nat)); assert(val(xb) == val(xc) + u2 * p);
    let pn = pw(n as nat) as int; assert(pn == b * (b * p)); assert(u0 * pn == u0 * (b * (b * p))); let p1 = pw((n - 1) as nat) as int; assert(p1 == b * p); assert(u1 * p1 == u1 * (b * p) && v0 * p1 == v0 * (b * p));
    assert(u0 * (b * (b * p)) + u1 * (b * p) + u2 * p == ((u1 + b * u0) * b + u2) * p) by (nonlinear_arith);
    assert(v0 * (b * p) + v1 * p == (v0 * b + v1) * p) by (nonlinear_arith);
    lemma_val_first(xs); assert(xs.skip(1) =~= w.subrange(m - n, m));
    let (y, v) = (val(xs.skip(1)) as int, val(r) as int);
    assert(xs[0] + b * y < b * v) by (nonlinear_arith) requires y + 1 <= v, xs[0] < b;
    lemma_val_top(r); lemma_pw_pos((n - 1) as nat);
    lemma_val_cmp_last(r, w.subrange(m - n, m));
}
@fn div_rem_in_place -> c
@rewrite `cmp :: cmp_same_len ( & lhs [ lhs_len - n .. ] , rhs ) >= Ordering :: Equal` => `!matches!(cmp::cmp_same_len(&lhs[lhs_len - n..], rhs), Ordering::Less)`
    requires old(lhs).len() >= rhs.len(), is_top(rhs@, fast_div_rhs_top)
    ensures final(lhs)@.len() == old(lhs)@.len(), is_div(old(lhs)@, final(lhs)@, rhs@, c)
@start
let ghost w0 = lhs@;
let ghost v = val(rhs@);
proof { fast_div_rhs_top.lemma_wf(); }
@before `let quotient_carry =`
let ghost top = lhs@.skip(lhs_len - n);
@after `let quotient_carry = cmp :: cmp_same_len ( & lhs [ lhs_len - n .. ] , rhs ) >= Ordering :: Equal ;`
proof { assert(lhs@.subrange(lhs_len - n, lhs_len as int) =~= top); }
@before `assert ! ( ! overflow )`
proof { assert(lhs@.skip(lhs_len - n) =~= lhs@.subrange(lhs_len - n, lhs_len as int)); lemma_kinit(w0, lhs@, rhs@, overflow); }
@loop 0
    invariant n == rhs.len(), n >= 2, n <= lhs_len <= lhs.len(), lhs.len() == w0.len(), v == val(rhs@), rhs0 == rhs[n - 1], rhs1 == rhs[n - 2], fast_div_rhs_top.wf(), fast_div_rhs_top.d() == rhs0, 2 * rhs0 >= B(),
        kinv(w0, lhs@, v, n as int, lhs_len as int, quotient_carry), val(lhs@.subrange(lhs_len - n, lhs_len as int)) < v
    decreases lhs_len
@loopbefore 0
proof { assert(lhs@.skip(lhs_len - n) =~= lhs@.subrange(lhs_len - n, lhs_len as int)); if !quotient_carry { lemma_kinit0(w0, lhs@, v, n as int); } }
@loopstart 0
let ghost ws = lhs@;
let ghost m = lhs_len as int;
let ghost x = val(ws.subrange(m - 1 - n, m));
let ghost u01 = lhs[m - 2] + B() * lhs[m - 1];
let ghost p = pw((n - 2) as nat) as int;
let ghost xlo = val(ws.subrange(m - 1 - n, m - 3)) as int;
let ghost vlo = val(rhs@.take(n - 2)) as int;
let ghost v2 = (rhs[n - 1] * B() + rhs[n - 2]) as int;
proof { lemma_kdigits(ws, rhs@, m, x); }
@loop 1
    invariant_except_break u01 == q * rhs0 + r, q * v2 - (u01 * B() + lhs2) == q * rhs1 - (r * B() + lhs2)
    invariant x < (q + 1) * v, u01 >= 0, n >= 2, rhs0 == rhs[n - 1], rhs1 == rhs[n - 2], 2 * rhs0 >= B(), 0 <= xlo < p, 0 <= vlo < p, x as int == (u01 * B() + lhs2) * p + xlo, v as int == v2 * p + vlo, v2 == rhs0 * B() + rhs1, rhs@.len() == n,
        forall|a: int, b: int| 0 <= a <= $MAX && 0 <= b <= $MAX ==> 0 <= #[trigger] (a * b) <= $DMAX
    ensures q * v2 <= u01 * B() + lhs2
    decreases q
@loopbefore 1
proof { lemma_dw_all(); lemma_est_cond(q as int, r as int, rhs0 as int, rhs1 as int, u01 as int, lhs2 as int); assert(q as nat * fast_div_rhs_top.d() == q * rhs0); lemma_est_first(q as int, r as int, rhs0 as int, rhs1 as int, u01, lhs2 as int, p, xlo, vlo, x as int, v as int); }
@loopstart 1
proof { let u2 = lhs2 as int; lemma_est_cond(q as int, r as int, rhs0 as int, rhs1 as int, u01 as int, u2); lemma_est_dec(q as int, u01 * B() + u2, v2, p, xlo, vlo, x as int, v as int); assert(q > 0) by { let k = v2; assert(0 * k == 0); }
    lemma_est_cond(q - 1, r + rhs0, rhs0 as int, rhs1 as int, u01 as int, u2);
    let (a, b, c) = (q - 1, rhs1 as int, r + rhs0); if c >= B() { assert(a * b < c * B()) by (nonlinear_arith) requires 0 <= a < B(), 0 <= b < B(), c >= B(); } }
@loopafter 1
proof { lemma_est(q as int, u01 * B() + lhs2, v2, p, xlo, vlo, x as int, v as int); }
@before `Word :: MAX`
proof { lemma_est_max(lhs0 as int, pw(n as nat) as int, val(ws.subrange(m - 1 - n, m - 1)) as int, rhs0 as int, pw((n - 1) as nat) as int, val(rhs@.drop_last()) as int, x as int, v as int); }
@before `let mut borrow =`
proof { assert(est_ok(q as int, x as int, v as int)); }
let ghost q0 = q as int;
@before `if borrow > lhs0`
let ghost t1 = lhs@.subrange(m - 1 - n, m - 1);
proof { assert(ws.subrange(m - 1 - n, m - 1).len() == n); lemma_val_bound(t1); lemma_sub_back(q0, v as int, x as int, lhs0 as int, pw(n as nat) as int, val(ws.subrange(m - 1 - n, m - 1)) as int, val(t1) as int, borrow as int); }
@before `debug_assert ! ( carry )`
proof { lemma_val_bound(lhs@.subrange(m - 1 - n, m - 1)); let pn = pw(n as nat) as int; assert(0 * pn == 0 && 1 * pn == pn); }
@before `lhs_len -= 1`
let ghost w1 = lhs@;
@loopend 0
proof { let w = lhs@; assert(w.subrange(m - 1 - n, m - 1) =~= w1.subrange(m - 1 - n, m - 1)); assert(w.skip(m) =~= ws.skip(m)); assert(w.take(m - 1 - n) =~= ws.take(m - 1 - n));
    lemma_kstep(w0, ws, w, v, n as int, m, quotient_carry, x, q as nat); }
@tail
proof { reveal(is_div); lemma_pw_step(0); assert(lhs@.subrange(0, n as int) =~= lhs@.take(n as int)); let z = v as int; assert(1 * z == z) by (nonlinear_arith); }
@file div/divide_conquer.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::div::*;
@fn memory_requirement_exact -> r
    requires lhs_len >= rhs_len, lhs_len <= 0x0800_0000_0000_0000
    ensures crate::memory::lw(r) >= crate::mul::mreq(if rhs_len / 2 < lhs_len - rhs_len { (rhs_len / 2) as nat } else { (lhs_len - rhs_len) as nat })
@mod
use crate::div::simple::*;
/// Division has reached position m: the quotient so far is above m, the words below m are still to be divided.
#[verifier::opaque]
pub open spec fn dinv(w0: Seq<Word>, w: Seq<Word>, v: nat, n: int, m: int, c: bool) -> bool {
    n <= m <= w0.len() && w.len() == w0.len() && kinv(w0, w, v, n, m, c) && (m < w0.len() ==> val(w.subrange(m - n, m)) < v) && (m == w0.len() ==> !c)
}
proof fn lemma_dinv_step(w0: Seq<Word>, w: Seq<Word>, w1: Seq<Word>, r: Seq<Word>, k: int, m: int, c: bool, c1: bool)
    requires dinv(w0, w, val(r), r.len() as int, m, c), r.len() >= 2, 0 <= k, k + r.len() < m, w1.len() == w0.len(),
        is_div(w.subrange(k, m), w1.subrange(k, m), r, c1), w1.take(k) =~= w.take(k), w1.skip(m) =~= w.skip(m)
    ensures m < w0.len() ==> !c1, dinv(w0, w1, val(r), r.len() as int, k + r.len(), c || c1)
{
    reveal(is_div); reveal(dinv);
    let n = r.len() as int; let xs = w.subrange(k, m); let ys = w1.subrange(k, m); let l = w0.len() as int; let v = val(r) as int;
    let tn = (m - k - n) as nat;
    assert(ys.take(n) =~= w1.subrange(k, k + n)); assert(ys.skip(n) =~= w1.subrange(k + n, m));
    lemma_val_split(w.take(m), k); assert(w.take(m).take(k) =~= w.take(k)); assert(w.take(m).skip(k) =~= xs);
    lemma_val_split(w1.take(k + n), k); assert(w1.take(k + n).take(k) =~= w1.take(k)); assert(w1.take(k + n).skip(k) =~= ys.take(n));
    lemma_val_split(w1.skip(k + n), tn as int); assert(w1.skip(k + n).take(tn as int) =~= ys.skip(n)); assert(w1.skip(k + n).skip(tn as int) =~= w1.skip(m));
    lemma_pw_add(k as nat, tn); lemma_pw_add(tn, (l - m) as nat); lemma_pw_pos(tn); lemma_pw_step(0);
    assert(k as nat + tn == (m - n) as nat); assert(tn + (l - m) as nat == (l - k - n) as nat);
    let (p, t, pl, s, q, rr, lo, x) = (pw(k as nat) as int, pw(tn) as int, pw((l - m) as nat) as int, val(w.skip(m)) as int, val(ys.skip(n)) as int, val(ys.take(n)) as int, val(w.take(k)) as int, val(xs) as int);
    if m < l && c1 {
        lemma_val_split(xs, tn as int); assert(xs.skip(tn as int) =~= w.subrange(m - n, m)); lemma_val_bound(xs.take(tn as int));
        let y = val(xs.skip(tn as int)) as int;
        assert(x < t * v) by (nonlinear_arith) requires x < t + t * y, y + 1 <= v, t >= 0;
        assert((q + 1 * t) * v == q * v + t * v) by (nonlinear_arith);
        assert(q * v >= 0) by (nonlinear_arith) requires q >= 0, v >= 0;
        assert(false);
    }
    let (cc, c1i, c2) = (b2n(c) as int, b2n(c1) as int, b2n(c || c1) as int);
    let pv = p * v; let ptv = t * pv;
    assert((p * t) * v == ptv) by (nonlinear_arith) requires ptv == t * pv, pv == p * v;
    assert(p * ((q + c1i * t) * v + rr) == q * pv + c1i * ptv + p * rr) by (nonlinear_arith) requires ptv == t * pv, pv == p * v;
    assert((s + cc * pl) * ptv == s * ptv + cc * (pl * ptv)) by (nonlinear_arith);
    assert((q + t * s + c2 * (t * pl)) * pv == q * pv + s * ptv + c2 * (pl * ptv)) by (nonlinear_arith) requires ptv == t * pv;
    if m == l { assert(pl == 1); assert(c2 * (1 * ptv) == c2 * ptv); assert(1 * ptv == ptv); assert(0 * ptv == 0); }
    else { assert(0 * ptv == 0); }
    assert(ys.take(n) =~= w1.subrange(k + n - n, k + n));
}
proof fn lemma_dinv_init(w0: Seq<Word>, v: nat, n: int) requires 0 <= n <= w0.len() ensures dinv(w0, w0, v, n, w0.len() as int, false)
{ reveal(dinv); lemma_kinit0(w0, w0, v, n); }
proof fn lemma_dinv_end(w0: Seq<Word>, w: Seq<Word>, r: Seq<Word>, c: bool) requires dinv(w0, w, val(r), r.len() as int, r.len() as int, c), w0.len() > r.len() ensures is_div(w0, w, r, c)
{ reveal(is_div); reveal(dinv); assert(w.subrange(0, r.len() as int) =~= w.take(r.len() as int)); lemma_pw_step(0); let v = val(r) as int; assert(1 * v == v); }
@fn div_rem_in_place -> c
    requires old(lhs).len() <= 0x0800_0000_0000_0000, old(lhs).len() > rhs.len() + MAX_LEN_SIMPLE, rhs.len() > MAX_LEN_SIMPLE, is_top(rhs@, fast_div_rhs_top), old(memory).cap() >= dreq(old(lhs).len() as nat, rhs.len() as nat)
    ensures final(lhs)@.len() == old(lhs)@.len(), is_div(old(lhs)@, final(lhs)@, rhs@, c), final(memory).cap() == old(memory).cap()
@start
let ghost w0 = lhs@;
let ghost v = val(rhs@);
let ghost cap0 = memory.cap();
proof { lemma_dinv_init(w0, v, rhs.len() as int); if rhs.len() / 2 <= lhs.len() - rhs.len() { crate::mul::lemma_mreq_mono((rhs.len() / 2) as nat, (lhs.len() - rhs.len()) as nat); } }
@loop 0
    invariant lhs.len() <= 0x0800_0000_0000_0000, n == rhs.len(), n > MAX_LEN_SIMPLE, n <= m <= lhs.len(), lhs.len() == w0.len(), v == val(rhs@), dinv(w0, lhs@, v, n as int, m as int, overflow), is_top(rhs@, fast_div_rhs_top), memory.cap() == cap0, m == lhs.len() ==> m > n + MAX_LEN_SIMPLE,
        cap0 >= crate::mul::mreq(if n / 2 < lhs.len() - n { (n / 2) as nat } else { (lhs.len() - n) as nat })
    decreases m
@loopstart 0
let ghost ws = lhs@;
let ghost c0 = overflow;
@before `if o {` 0
proof { assert(lhs@.take(m - 2 * n) =~= ws.take(m - 2 * n)); assert(lhs@.skip(m as int) =~= ws.skip(m as int)); lemma_dinv_step(w0, ws, lhs@, rhs@, m - 2 * n, m as int, c0, o); }
@before `if m > n`
let ghost ws = lhs@;
let ghost c0 = overflow;
proof { let k = m - n; crate::mul::lemma_mreq_mono((if k < n - k { k } else { n - k }) as nat, if n / 2 < lhs.len() - n { (n / 2) as nat } else { (lhs.len() - n) as nat });
    crate::mul::lemma_mreq_mono((k / 2) as nat, if n / 2 < lhs.len() - n { (n / 2) as nat } else { (lhs.len() - n) as nat }); }
@before `if o {` 1
proof { assert(lhs@.take(0) =~= ws.take(0)); assert(lhs@.subrange(0, m as int) =~= lhs@.take(m as int)); assert(ws.subrange(0, m as int) =~= ws.take(m as int)); assert(lhs@.skip(m as int) =~= ws.skip(m as int)); lemma_dinv_step(w0, ws, lhs@, rhs@, 0, m as int, c0, o); }
@tail
proof { lemma_dinv_end(w0, lhs@, rhs@, overflow); }
@fn div_rem_in_place_same_len -> c
    requires old(lhs).len() <= 0x0800_0000_0000_0000, rhs.len() > MAX_LEN_SIMPLE, old(lhs).len() == 2 * rhs.len(), is_top(rhs@, fast_div_rhs_top), old(memory).cap() >= crate::mul::mreq((rhs.len() / 2) as nat)
    ensures final(lhs)@.len() == old(lhs)@.len(), is_div(old(lhs)@, final(lhs)@, rhs@, c), final(memory).cap() == old(memory).cap()
    decreases old(lhs).len() - rhs.len(), 0int
@start
let ghost w0 = lhs@;
let ghost n0 = rhs.len() as int;
proof { lemma_dinv_init(w0, val(rhs@), n0); crate::mul::lemma_mreq_mono(((n0 - n0 / 2) / 2) as nat, (n0 / 2) as nat); crate::mul::lemma_mreq_mono(((n0 / 2) / 2) as nat, (n0 / 2) as nat); }
@before `let overflow_lo =`
let ghost w1 = lhs@;
proof { assert(w1.take(n_lo as int) =~= w0.take(n_lo as int)); assert(w1.subrange(n_lo as int, 2 * n) =~= w1.skip(n_lo as int)); assert(w0.subrange(n_lo as int, 2 * n) =~= w0.skip(n_lo as int)); assert(w1.skip(2 * n) =~= w0.skip(2 * n));
    lemma_dinv_step(w0, w0, w1, rhs@, n_lo as int, 2 * n, false, overflow); }
@before `assert ! ( ! overflow_lo )`
proof { let m = n + n_lo; assert(lhs@.take(0) =~= w1.take(0)); assert(lhs@.subrange(0, m) =~= lhs@.take(m)); assert(w1.subrange(0, m) =~= w1.take(m)); assert(lhs@.skip(m) =~= w1.skip(m));
    lemma_dinv_step(w0, w1, lhs@, rhs@, 0, m, overflow, overflow_lo); lemma_dinv_end(w0, lhs@, rhs@, overflow); }
@mod
/// the quotient by the top m words of the divisor, applied to the whole dividend
proof fn lemma_small(w0: Seq<Word>, w1: Seq<Word>, r: Seq<Word>, m: int, c: bool)
    requires r.len() + m == w0.len(), w1.len() == w0.len(), 0 < m < r.len(), w1.take(r.len() - m) =~= w0.take(r.len() - m), is_div(w0.skip(r.len() - m), w1.skip(r.len() - m), r.skip(r.len() - m), c)
    ensures val(w0) - (val(w1.skip(r.len() as int)) + b2n(c) * pw(m as nat)) * val(r) == val(w1.take(r.len() as int)) - (val(w1.skip(r.len() as int)) + b2n(c) * pw(m as nat)) * val(r.take(r.len() - m)),
        val(w1.take(r.len() as int)) < val(r), val(r) < pw(r.len())
{
    reveal(is_div);
    let n = r.len() as int; let k = n - m;
    lemma_val_split(w0, k); lemma_val_split(w1.take(n), k); lemma_val_split(r, k); lemma_val_bound(w1.take(k)); lemma_val_bound(r);
    assert(w1.take(n).take(k) =~= w1.take(k)); assert(w1.take(n).skip(k) =~= w1.skip(k).take(m)); assert(w1.skip(k).skip(m) =~= w1.skip(n));
    let (p, qq, rh, rl, rem, lo) = (pw(k as nat) as int, (val(w1.skip(n)) + b2n(c) * pw(m as nat)) as int, val(r.skip(k)) as int, val(r.take(k)) as int, val(w1.skip(k).take(m)) as int, val(w0.take(k)) as int);
    assert(p * (qq * rh + rem) == qq * (p * rh) + p * rem) by (nonlinear_arith);
    assert(qq * (rl + p * rh) == qq * rl + qq * (p * rh)) by (nonlinear_arith);
    assert(lo + p * rem < p * rh) by (nonlinear_arith) requires lo < p, rem + 1 <= rh, p >= 0;
}
/// the correction loop keeps the quotient's carry a bit, and ends with a remainder
proof fn lemma_small_q(x: int, v: int, q: int, qo: int, pm: int, rem: int, ro: int, pn: int)
    requires 0 <= q < pm, 0 <= rem < pn, 0 < v < pn, x >= 0, x - (q + qo * pm) * v == rem + ro * pn, rem + ro * pn < v
    ensures ro <= 0, ro == 0 ==> rem < v, ro < 0 ==> q + qo * pm >= 1, ro == 0 ==> qo >= 0
{
    let t = q + qo * pm; let d = t * v;
    assert(ro <= 0) by (nonlinear_arith) requires rem + ro * pn < pn, rem >= 0, pn > 0;
    assert(0 * pn == 0);
    if ro < 0 {
        assert(ro * pn <= -pn) by (nonlinear_arith) requires ro <= -1, pn > 0;
        assert(t >= 1) by (nonlinear_arith) requires t * v > 0, v > 0;
    }
    if ro == 0 {
        assert(t >= 0) by (nonlinear_arith) requires t * v > -v, v > 0;
        if qo < 0 { assert(qo * pm <= -pm) by (nonlinear_arith) requires qo <= -1, pm >= 0; }
    }
}
proof fn lemma_qo(q: int, qo: int, pm: int) requires 0 <= q < pm, q + qo * pm >= 0 ensures qo >= 0 { if qo < 0 { assert(qo * pm <= -pm) by (nonlinear_arith) requires qo <= -1, pm >= 0; } }
@fn div_rem_in_place_small_quotient -> c
@rewrite `div_rem_in_place_same_len ( & mut lhs [ n - m .. ] , & rhs [ n - m .. ] , fast_div_rhs_top , memory ) . into ( )` => `SignedWord::from(div_rem_in_place_same_len(&mut lhs[n - m..], &rhs[n - m..], fast_div_rhs_top, memory))`
@attr #[verifier::rlimit(50)]
    requires old(lhs).len() <= 0x0800_0000_0000_0000, rhs.len() >= 2, rhs.len() <= old(lhs).len() < 2 * rhs.len(), is_top(rhs@, fast_div_rhs_top),
        ({ let m = old(lhs).len() - rhs.len(); m > MAX_LEN_SIMPLE ==> old(memory).cap() >= crate::mul::mreq((if m < rhs.len() - m { m } else { rhs.len() - m }) as nat) && old(memory).cap() >= crate::mul::mreq((m / 2) as nat) })
    ensures final(lhs)@.len() == old(lhs)@.len(), is_div(old(lhs)@, final(lhs)@, rhs@, c), final(memory).cap() == old(memory).cap()
    decreases old(lhs).len() - rhs.len(), 1int
@start
let ghost w0 = lhs@;
let ghost x = val(w0) as int;
let ghost v = val(rhs@) as int;
proof { fast_div_rhs_top.lemma_wf(); }
@before `let ( rem , q ) = lhs . split_at_mut ( n ) ;`
let ghost w1 = lhs@;
proof {
    assert(w1.take(n - m) =~= w0.take(n - m));
    assert(w1.subrange(n - m, n + m) =~= w1.skip(n - m)); assert(w0.subrange(n - m, n + m) =~= w0.skip(n - m)); assert(rhs@.subrange(n - m, n as int) =~= rhs@.skip(n - m));
    lemma_small(w0, w1, rhs@, m as int, q_overflow == 1);
}
@after `let ( rem , q ) = lhs . split_at_mut ( n ) ;`
let ghost (rem0, q0) = (val(rem@) as int, val(q@) as int);
let ghost pm = pw(m as nat) as int;
let ghost pn = pw(n as nat) as int;
let ghost c0 = q_overflow as int;
let ghost rl = val(rhs@.take(n - m)) as int;
let ghost qf = final(q)@;
let ghost remf = final(rem)@;
proof { assert(w1.take(n as int) =~= rem@); assert(w1.skip(n as int) =~= q@); lemma_val_top(rhs@); lemma_pw_pos((n - 1) as nat); lemma_pw_pos(m as nat); }
@before `if q_overflow != 0`
let ghost rem1 = rem@;
let ghost ro1 = rem_overflow as int;
proof { let y = q0 * rl; assert(-1 * y == -y) by (nonlinear_arith); assert((q0 + 1 * pm) * rl == y + pm * rl) by (nonlinear_arith) requires y == q0 * rl; assert(q0 + 0 * pm == q0); }
@before `while rem_overflow < 0`
proof { 
  if c0 != 0 { lemma_val_split(rem1, m as int); lemma_val_split(rem@, m as int); assert(rem@.take(m as int) =~= rem1.take(m as int)); lemma_pw_add(m as nat, (n - m) as nat); 
    let (a, b, pk, bo) = (val(rem1.skip(m as int)) as int, val(rem@.skip(m as int)) as int, pw((n - m) as nat) as int, ro1 - rem_overflow);
    assert(pm * b + pm * rl == pm * a + bo * pn) by (nonlinear_arith) requires b + rl == a + bo * pk, pm * pk == pn;
    assert((ro1 - bo) * pn == ro1 * pn - bo * pn) by (nonlinear_arith);
  }
}
@loop 0
    invariant rem.len() == n, q.len() == m, n == rhs.len(), m < n, 0 < v < pn, v == val(rhs@), pm == pw(m as nat), pn == pw(n as nat), x >= 0, pm >= 1, 
        x - (val(q@) + q_overflow * pm) * v == val(rem@) + rem_overflow * pn, val(rem@) + rem_overflow * pn < v, -2 <= rem_overflow <= 1, 0 <= q_overflow <= 1,
        final(q)@ == qf, final(rem)@ == remf
    decreases (val(q@) + q_overflow * pm)
@loopstart 0
let ghost (ra, qa, roa, qoa) = (val(rem@) as int, val(q@) as int, rem_overflow as int, q_overflow as int);
proof { lemma_val_bound(rem@); lemma_val_bound(q@); lemma_small_q(x, v, qa, qoa, pm, ra, roa, pn); assert(roa * pn <= -pn) by (nonlinear_arith) requires roa <= -1, pn > 0; }
@loopend 0
proof { lemma_val_bound(q@); let (ca, cb) = (rem_overflow - roa, qoa - q_overflow); 
    assert((roa + ca) * pn == roa * pn + ca * pn) by (nonlinear_arith); assert((qoa - cb) * pm == qoa * pm - cb * pm) by (nonlinear_arith);
    let t = qa + qoa * pm; assert((t - 1) * v == t * v - v) by (nonlinear_arith); lemma_qo(val(q@) as int, q_overflow as int, pm); }
@loopafter 0
proof { lemma_val_bound(rem@); lemma_val_bound(q@); lemma_small_q(x, v, val(q@) as int, q_overflow as int, pm, val(rem@) as int, rem_overflow as int, pn); assert(0 * pn == 0); }
@ret
proof { reveal(is_div); assert(final(lhs)@.take(n as int) =~= remf); assert(final(lhs)@.skip(n as int) =~= qf); assert(0 * pm == 0 && 1 * pm == pm); }
