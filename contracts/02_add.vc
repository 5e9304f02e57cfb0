@file add.rs
@mod
use crate::vp_math::*;
broadcast use crate::vp_math::lemma_mul_small;
@fn add_one_in_place -> c
    ensures final(words).len() == old(words).len(),
        val(final(words)@) + b2n(c) * pw(old(words).len() as nat) == val(old(words)@) + 1,
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = words@;
@loop 0 i idx
    invariant i <= words.len(), words.len() == w0.len(),
       forall|j: int| 0 <= j < i ==> w0[j] == Word::MAX, forall|j: int| 0 <= j < i ==> words@[j] == 0,
       forall|j: int| i <= j < w0.len() ==> words@[j] == w0[j],
    decreases words.len() - i
@before `return false ;`
proof { lemma_addone_stop(w0, words@, i - 1); }
@tail
proof { lemma_val_ones(w0); lemma_val_zero(words@); }
@fn sub_one_in_place -> c
    ensures final(words).len() == old(words).len(),
        val(final(words)@) + 1 == val(old(words)@) + b2n(c) * pw(old(words).len() as nat),
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = words@;
@loop 0 i idx
    invariant i <= words.len(), words.len() == w0.len(),
       forall|j: int| 0 <= j < i ==> w0[j] == 0, forall|j: int| 0 <= j < i ==> words@[j] == Word::MAX,
       forall|j: int| i <= j < w0.len() ==> words@[j] == w0[j],
    decreases words.len() - i
@before `return false ;`
proof { lemma_addone_stop(words@, w0, i - 1); }
@tail
proof { lemma_val_ones(words@); lemma_val_zero(w0); }
@fn add_word_in_place -> c
    requires old(words).len() > 0
    ensures final(words).len() == old(words).len(),
        val(final(words)@) + b2n(c) * pw(old(words).len() as nat) == val(old(words)@) + rhs as nat,
@start
let ghost w0 = words@;
let ghost wf = final(words)@;
let ghost hi0;
@after `split_first_mut ( ) . unwrap ( ) ;`
proof { hi0 = words_hi@; }
@ret
proof { assert(w0.skip(1) =~= hi0); assert(wf.skip(1) =~= final(words_hi)@); lemma_hi_lo(w0, wf, 1, w0.skip(1), wf.skip(1)); lemma_val_first(w0); lemma_val_first(wf); lemma_pw_step((w0.len() - 1) as nat); }
@fn sub_word_in_place -> c
    requires old(words).len() > 0
    ensures final(words).len() == old(words).len(),
        val(final(words)@) + rhs as nat == val(old(words)@) + b2n(c) * pw(old(words).len() as nat),
@start
let ghost w0 = words@;
let ghost wf = final(words)@;
let ghost hi0;
@after `split_first_mut ( ) . unwrap ( ) ;`
proof { hi0 = words_hi@; }
@ret
proof { assert(w0.skip(1) =~= hi0); assert(wf.skip(1) =~= final(words_hi)@); lemma_hi_lo(w0, wf, 1, w0.skip(1), wf.skip(1)); lemma_val_first(w0); lemma_val_first(wf); lemma_pw_step((w0.len() - 1) as nat); }
@fn add_same_len_in_place -> c
    requires old(words).len() == rhs.len()
    ensures final(words).len() == old(words).len(),
        val(final(words)@) + b2n(c) * pw(rhs.len() as nat) == val(old(words)@) + val(rhs@),
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = words@;
let ghost wf = final(words)@;
@loop 0 it
    invariant it.wf(), it.seq().len() == w0.len(),
       forall|j: int| 0 <= j < w0.len() ==> *it.seq()[j].0 == w0[j] && *final(it.seq()[j].0) == wf[j] && *it.seq()[j].1 == rhs[j],
       val(wf.take(it.index())) + b2n(carry) * pw(it.index() as nat) == val(w0.take(it.index())) + val(rhs@.take(it.index())),
@loopstart 0
    let ghost c0 = carry;
@loopend 0
    proof { lemma_add_step(w0, rhs@, wf, it.index(), c0, carry); }
@tail
proof { assert(w0.take(w0.len() as int) =~= w0); assert(wf.take(w0.len() as int) =~= wf); assert(rhs@.take(w0.len() as int) =~= rhs@); }
@fn sub_same_len_in_place -> c
    requires old(lhs).len() == rhs.len()
    ensures final(lhs).len() == old(lhs).len(),
        val(final(lhs)@) + val(rhs@) == val(old(lhs)@) + b2n(c) * pw(rhs.len() as nat),
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = lhs@;
let ghost wf = final(lhs)@;
@loop 0 it
    invariant it.wf(), it.seq().len() == w0.len(),
       forall|j: int| 0 <= j < w0.len() ==> *it.seq()[j].0 == w0[j] && *final(it.seq()[j].0) == wf[j] && *it.seq()[j].1 == rhs[j],
       val(wf.take(it.index())) + val(rhs@.take(it.index())) == val(w0.take(it.index())) + b2n(borrow) * pw(it.index() as nat),
@loopstart 0
    let ghost c0 = borrow;
@loopend 0
    proof { lemma_sub_step(w0, rhs@, wf, it.index(), c0, borrow); }
@tail
proof { assert(w0.take(w0.len() as int) =~= w0); assert(wf.take(w0.len() as int) =~= wf); assert(rhs@.take(w0.len() as int) =~= rhs@); }
@fn sub_same_len_in_place_swap -> c
    requires old(rhs).len() == lhs.len()
    ensures final(rhs).len() == old(rhs).len(),
        val(final(rhs)@) + val(old(rhs)@) == val(lhs@) + b2n(c) * pw(lhs.len() as nat),
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = rhs@;
let ghost wf = final(rhs)@;
@loop 0 it
    invariant it.wf(), it.seq().len() == w0.len(),
       forall|j: int| 0 <= j < w0.len() ==> *it.seq()[j].1 == w0[j] && *final(it.seq()[j].1) == wf[j] && *it.seq()[j].0 == lhs[j],
       val(wf.take(it.index())) + val(w0.take(it.index())) == val(lhs@.take(it.index())) + b2n(borrow) * pw(it.index() as nat),
@loopstart 0
    let ghost c0 = borrow;
@loopend 0
    proof { lemma_sub_step(lhs@, w0, wf, it.index(), c0, borrow); }
@tail
proof { assert(w0.take(w0.len() as int) =~= w0); assert(wf.take(w0.len() as int) =~= wf); assert(lhs@.take(w0.len() as int) =~= lhs@); }
@fn add_in_place -> c
    requires old(lhs).len() >= rhs.len()
    ensures final(lhs).len() == old(lhs).len(),
        val(final(lhs)@) + b2n(c) * pw(old(lhs).len() as nat) == val(old(lhs)@) + val(rhs@),
@start
let ghost w0 = lhs@;
let ghost wf = final(lhs)@;
let ghost hi0;
@after `lhs . split_at_mut ( rhs . len ( ) ) ;`
proof { hi0 = lhs_hi@; }
@ret
proof {
    assert(hi0 =~= w0.skip(rhs.len() as int)); assert(final(lhs_hi)@ =~= wf.skip(rhs.len() as int));
    assert(final(lhs_lo)@ =~= wf.take(rhs.len() as int));
    lemma_hi_lo(w0, wf, rhs.len() as int, hi0, wf.skip(rhs.len() as int)); 
}
@fn sub_in_place -> c
    requires old(lhs).len() >= rhs.len()
    ensures final(lhs).len() == old(lhs).len(),
        val(final(lhs)@) + val(rhs@) == val(old(lhs)@) + b2n(c) * pw(old(lhs).len() as nat),
@start
let ghost w0 = lhs@;
let ghost wf = final(lhs)@;
let ghost hi0;
@after `lhs . split_at_mut ( rhs . len ( ) ) ;`
proof { hi0 = lhs_hi@; }
@ret
proof {
    assert(hi0 =~= w0.skip(rhs.len() as int)); assert(final(lhs_hi)@ =~= wf.skip(rhs.len() as int));
    assert(final(lhs_lo)@ =~= wf.take(rhs.len() as int));
    lemma_hi_lo(w0, wf, rhs.len() as int, hi0, wf.skip(rhs.len() as int)); 
}
@fn sub_in_place_with_sign -> s
    requires old(lhs).len() >= rhs.len()
    ensures final(lhs).len() == old(lhs).len(),
        s == Positive ==> val(final(lhs)@) + val(rhs@) == val(old(lhs)@),
        s == Negative ==> val(final(lhs)@) + val(old(lhs)@) == val(rhs@),
@attr #[verifier::rlimit(100)]
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = lhs@;
@loop 0
    invariant lhs_len <= lhs.len(), forall|j: int| lhs_len <= j < lhs.len() ==> lhs[j] == 0,
    decreases lhs_len
@loop 1
    invariant rhs_len <= rhs.len(), forall|j: int| rhs_len <= j < rhs.len() ==> rhs[j] == 0,
    decreases rhs_len
@after `sub_in_place ( & mut lhs [ .. lhs_len ] , & rhs [ .. rhs_len ] ) ;`
proof { lemma_sws_greater(w0, rhs@, lhs@, lhs_len as int, rhs_len as int, overflow); }
@after `sub_same_len_in_place_swap ( & rhs [ .. lhs_len ] , & mut lhs [ .. lhs_len ] ) ;`
let ghost lo = lhs@.take(lhs_len as int);
@after `lhs [ lhs_len .. rhs_len ] . copy_from_slice ( & rhs [ lhs_len .. rhs_len ] ) ;`
let ghost mid = lhs@.subrange(lhs_len as int, rhs_len as int);
proof { assert(mid =~= rhs@.subrange(lhs_len as int, rhs_len as int)); assert(lhs@.take(lhs_len as int) =~= lo); assert(mid.last() == rhs[rhs_len - 1]); }
@after `sub_one_in_place ( & mut lhs [ lhs_len .. rhs_len ] ) ;`
proof {
    lemma_val_bound(lhs@.subrange(lhs_len as int, rhs_len as int));
    lemma_val_top(mid);
    lemma_pw_pos((mid.len() - 1) as nat);
}
@before `Negative }` 0
proof {
    assert(lhs@.take(lhs_len as int) =~= lo);
    lemma_sws_less(w0, rhs@, lhs@, lhs_len as int, rhs_len as int, borrow);
}
@loop 2
    invariant n <= lhs_len, lhs_len == rhs_len, lhs.len() == w0.len(), lhs_len <= lhs.len(), rhs_len <= rhs.len(),
        forall|j: int| 0 <= j < n ==> lhs[j] == w0[j],
        forall|j: int| n <= j < lhs.len() ==> lhs[j] == 0,
        forall|j: int| n <= j < lhs_len ==> w0[j] == rhs[j],
    decreases n
@loopstart 2
proof { assert(lhs@.take(n as int) =~= w0.take(n as int)); }
@after `let overflow = sub_same_len_in_place ( & mut lhs [ .. n ] , & rhs [ .. n ] ) ;`
proof { lemma_sws_eq(w0, rhs@, lhs@, n as int, lhs_len as int, overflow, false); }
@after `let overflow = sub_same_len_in_place_swap ( & rhs [ .. n ] , & mut lhs [ .. n ] ) ;`
proof { lemma_sws_eq(w0, rhs@, lhs@, n as int, lhs_len as int, overflow, true); }
@loopafter 2
proof { lemma_sws_zero(w0, rhs@, lhs@, lhs_len as int); }
@mod
pub proof fn lemma_sws_greater(w0: Seq<Word>, r: Seq<Word>, wf: Seq<Word>, k: int, m: int, ov: bool)
    requires 0 <= m <= r.len(), m < k <= w0.len(), wf.len() == w0.len(),
        forall|j: int| k <= j < w0.len() ==> w0[j] == 0, forall|j: int| m <= j < r.len() ==> r[j] == 0,
        forall|j: int| k <= j < w0.len() ==> wf[j] == w0[j], w0[k - 1] != 0,
        val(wf.take(k)) + val(r.take(m)) == val(w0.take(k)) + b2n(ov) * pw(k as nat),
    ensures !ov, val(wf) + val(r) == val(w0)
{
    lemma_val_trim(w0, k); lemma_val_trim(wf, k); lemma_val_trim(r, m);
    lemma_val_top(w0.take(k)); lemma_val_bound(r.take(m)); lemma_val_bound(wf.take(k));
    lemma_pw_mono(m as nat, (k - 1) as nat);
}
pub proof fn lemma_sws_less(w0: Seq<Word>, r: Seq<Word>, wf: Seq<Word>, k: int, m: int, b: bool)
    requires 0 <= k < m <= r.len(), r.len() <= w0.len(), wf.len() == w0.len(),
        forall|j: int| k <= j < w0.len() ==> w0[j] == 0, forall|j: int| m <= j < r.len() ==> r[j] == 0,
        forall|j: int| m <= j < w0.len() ==> wf[j] == w0[j],
        val(wf.take(k)) + val(w0.take(k)) == val(r.take(k)) + b2n(b) * pw(k as nat),
        val(wf.subrange(k, m)) + b2n(b) == val(r.subrange(k, m)),
    ensures val(wf) + val(w0) == val(r)
{
    lemma_val_trim(w0, k); lemma_val_trim(wf, m); lemma_val_trim(r, m);
    lemma_val_split(wf.take(m), k); lemma_val_split(r.take(m), k);
    assert(wf.take(m).take(k) =~= wf.take(k)); assert(wf.take(m).skip(k) =~= wf.subrange(k, m));
    assert(r.take(m).take(k) =~= r.take(k)); assert(r.take(m).skip(k) =~= r.subrange(k, m));
    let (p, x, y, c) = (pw(k as nat) as int, val(wf.subrange(k, m)) as int, val(r.subrange(k, m)) as int, b2n(b) as int);
    assert(p * x + c * p == p * y) by (nonlinear_arith) requires x + c == y;
}
pub proof fn lemma_sws_eq(w0: Seq<Word>, r: Seq<Word>, wf: Seq<Word>, n: int, k: int, ov: bool, swap: bool)
    requires 0 < n <= k <= r.len(), r.len() <= w0.len(), wf.len() == w0.len(),
        forall|j: int| k <= j < w0.len() ==> w0[j] == 0, forall|j: int| k <= j < r.len() ==> r[j] == 0,
        forall|j: int| n <= j < k ==> w0[j] == r[j], forall|j: int| n <= j < w0.len() ==> wf[j] == 0,
        !swap ==> w0[n - 1] > r[n - 1] && val(wf.take(n)) + val(r.take(n)) == val(w0.take(n)) + b2n(ov) * pw(n as nat),
        swap ==> w0[n - 1] < r[n - 1] && val(wf.take(n)) + val(w0.take(n)) == val(r.take(n)) + b2n(ov) * pw(n as nat),
    ensures !ov, !swap ==> val(wf) + val(r) == val(w0), swap ==> val(wf) + val(w0) == val(r)
{
    lemma_val_trim(w0, k); lemma_val_trim(r, k); lemma_val_trim(wf, n);
    let (wt, rt) = (w0.take(k), r.take(k));
    lemma_val_split(wt, n); lemma_val_split(rt, n);
    assert(wt.skip(n) =~= rt.skip(n));
    assert(wt.take(n) =~= w0.take(n)); assert(rt.take(n) =~= r.take(n));
    lemma_val_cmp_last(w0.take(n), r.take(n)); lemma_val_cmp_last(r.take(n), w0.take(n));
    lemma_val_bound(wf.take(n));
}
pub proof fn lemma_sws_zero(w0: Seq<Word>, r: Seq<Word>, wf: Seq<Word>, k: int)
    requires 0 <= k <= r.len(), r.len() <= w0.len(), wf.len() == w0.len(),
        forall|j: int| k <= j < w0.len() ==> w0[j] == 0, forall|j: int| k <= j < r.len() ==> r[j] == 0,
        forall|j: int| 0 <= j < k ==> w0[j] == r[j], forall|j: int| 0 <= j < w0.len() ==> wf[j] == 0,
    ensures val(w0) == val(r), val(wf) == 0
{
    lemma_val_trim(w0, k); lemma_val_trim(r, k); lemma_val_zero(wf);
    assert(w0.take(k) =~= r.take(k));
}
@fn add_signed_word_in_place -> c
@rewrite `rhs . to_sign_magnitude ( )` => `crate::primitive::sword_to_sign_magnitude(rhs)`
    ensures final(words).len() == old(words).len(),
        val(final(words)@) as int + c as int * pw(old(words).len() as nat) as int == val(old(words)@) as int + rhs as int,
        old(words).len() > 0 ==> -1 <= c <= 1
@before `return rhs ;`
proof { lemma_pw_step(0); let r = rhs as int; assert(r * 1 == r) by (nonlinear_arith); }
@fn add_signed_same_len_in_place -> c
    requires old(words).len() == rhs.len()
    ensures final(words).len() == old(words).len(), -1 <= c <= 1,
        val(final(words)@) as int + c as int * pw(rhs.len() as nat) as int == val(old(words)@) as int + sgn(sign) * val(rhs@),
@fn add_signed_in_place -> c
    requires old(words).len() >= rhs.len()
    ensures final(words).len() == old(words).len(), -1 <= c <= 1,
        val(final(words)@) as int + c as int * pw(old(words).len() as nat) as int == val(old(words)@) as int + sgn(sign) * val(rhs@),
@mod
pub(crate) open spec fn sgn(s: Sign) -> int { match s { Positive => 1, Negative => -1 } }
pub proof fn lemma_hi_lo(w0: Seq<Word>, wf: Seq<Word>, k: int, hi0: Seq<Word>, hif: Seq<Word>)
    requires 0 <= k <= w0.len(), w0.len() == wf.len(), hi0 =~= w0.skip(k), hif =~= wf.skip(k)
    ensures pw(k as nat) * (val(hi0) + 1) == pw(k as nat) * val(hi0) + pw(k as nat),
       pw(k as nat) * (val(hif) + 1) == pw(k as nat) * val(hif) + pw(k as nat),
       pw(k as nat) * (val(hif) + pw((w0.len() - k) as nat)) == pw(k as nat) * val(hif) + pw(w0.len()),
       pw(k as nat) * (val(hi0) + pw((w0.len() - k) as nat)) == pw(k as nat) * val(hi0) + pw(w0.len()),
       val(w0) == val(w0.take(k)) + pw(k as nat) * val(hi0),
       val(wf) == val(wf.take(k)) + pw(k as nat) * val(hif),
{
    lemma_val_split(w0, k); lemma_val_split(wf, k);
    lemma_pw_add(k as nat, (w0.len() - k) as nat);
    let (p, q, x, y) = (pw(k as nat) as int, pw((w0.len() - k) as nat) as int, val(hi0) as int, val(hif) as int);
    assert(p * (x + 1) == p * x + p) by (nonlinear_arith);
    assert(p * (y + 1) == p * y + p) by (nonlinear_arith);
    assert(p * (y + q) == p * y + p * q) by (nonlinear_arith);
    assert(p * (x + q) == p * x + p * q) by (nonlinear_arith);
}
pub proof fn lemma_addone_stop(w0: Seq<Word>, wf: Seq<Word>, i: int)
    requires 0 <= i < w0.len(), w0.len() == wf.len(),
       forall|j: int| 0 <= j < i ==> w0[j] == Word::MAX, forall|j: int| 0 <= j < i ==> wf[j] == 0,
       wf[i] == w0[i] + 1,
       forall|j: int| i < j < w0.len() ==> wf[j] == w0[j],
    ensures val(wf) == val(w0) + 1
{
    lemma_val_split(w0, i + 1);
    lemma_val_split(wf, i + 1);
    lemma_val_take(w0, i);
    lemma_val_take(wf, i);
    lemma_val_ones(w0.take(i));
    lemma_val_zero(wf.take(i));
    assert(w0.skip(i + 1) =~= wf.skip(i + 1));
    let p = pw(i as nat);
    assert(wf[i] as nat * p == w0[i] as nat * p + p) by (nonlinear_arith) requires wf[i] as nat == w0[i] as nat + 1;
}
