@file mul/mod.rs
@mod
use crate::vp_math::*;
use crate::add::sgn;
pub proof fn lemma_mul_bound(a: int, b: int) requires 0 <= a < B(), 0 <= b < B() ensures 0 <= a * b <= (B() - 1) * (B() - 1), (B() - 1) * (B() - 1) == B() * B() - 2 * B() + 1, B() * B() == $DMAX + 1
{
    assert(0 <= a * b <= (B() - 1) * (B() - 1)) by (nonlinear_arith) requires 0 <= a <= B() - 1, 0 <= b <= B() - 1;
    assert((B() - 1) * (B() - 1) == B() * B() - 2 * B() + 1) by (nonlinear_arith);
    assert(B() * B() == $DMAX + 1) by { assert($BASE * $BASE == $DMAX + 1nat); }
}
pub proof fn lemma_mulw_step(w0: Seq<Word>, wf: Seq<Word>, i: int, m: int, c0: int, cy: int, cn: int)
    requires 0 <= i < w0.len(), w0.len() == wf.len(),
        val(wf.take(i)) + cy * pw(i as nat) == val(w0.take(i)) * m + c0,
        wf[i] + cn * B() == w0[i] * m + cy,
    ensures val(wf.take(i + 1)) + cn * pw((i + 1) as nat) == val(w0.take(i + 1)) * m + c0
{
    lemma_val_take(w0, i); lemma_val_take(wf, i); lemma_pw_step(i as nat);
    let (p, f, a, x, b) = (pw(i as nat) as int, wf[i] as int, w0[i] as int, val(w0.take(i)) as int, B() as int);
    assert(f * p + cn * (b * p) == (a * m + cy) * p) by (nonlinear_arith) requires f + cn * b == a * m + cy;
    assert((a * m + cy) * p == (a * p) * m + cy * p) by (nonlinear_arith);
    assert((x + a * p) * m == x * m + (a * p) * m) by (nonlinear_arith);
}
/// One step of w += / -= m * r.
pub proof fn lemma_addmul_step(w0: Seq<Word>, wf: Seq<Word>, r: Seq<Word>, i: int, m: int, cy: int, cn: int)
    requires 0 <= i < w0.len(), w0.len() == wf.len(), w0.len() == r.len(),
        val(wf.take(i)) + cy * pw(i as nat) == val(w0.take(i)) + m * val(r.take(i)),
        wf[i] + cn * B() == w0[i] + cy + m * r[i],
    ensures val(wf.take(i + 1)) + cn * pw((i + 1) as nat) == val(w0.take(i + 1)) + m * val(r.take(i + 1))
{
    lemma_val_take(w0, i); lemma_val_take(wf, i); lemma_val_take(r, i); lemma_pw_step(i as nat);
    let (p, f, a, y, x, b) = (pw(i as nat) as int, wf[i] as int, w0[i] as int, r[i] as int, val(r.take(i)) as int, B() as int);
    assert(f * p + cn * (b * p) == (a + cy + m * y) * p) by (nonlinear_arith) requires f + cn * b == a + cy + m * y;
    assert((a + cy + m * y) * p == a * p + cy * p + m * (y * p)) by (nonlinear_arith);
    assert(m * (x + y * p) == m * x + m * (y * p)) by (nonlinear_arith);
}
@fn mul_word_in_place -> c
    ensures final(words).len() == old(words).len(), val(final(words)@) + c * pw(old(words).len() as nat) == val(old(words)@) * rhs
@fn mul_word_in_place_with_carry -> c
    ensures final(words).len() == old(words).len(), val(final(words)@) + c * pw(old(words).len() as nat) == val(old(words)@) * rhs + carry
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = words@;
let ghost wf = final(words)@;
let ghost cz = carry;
proof { assert(0 * rhs == 0) by (nonlinear_arith); lemma_pw_step(0); assert(w0.take(0) =~= Seq::<Word>::empty()); assert(wf.take(0) =~= Seq::<Word>::empty()); assert(carry * 1 == carry) by (nonlinear_arith); }
@loop 0 it iter_mut
    invariant it.wf(), it.seq().len() == w0.len(),
       forall|j: int| 0 <= j < w0.len() ==> *it.seq()[j] == w0[j] && *final(it.seq()[j]) == wf[j],
       val(wf.take(it.index())) + carry * pw(it.index() as nat) == val(w0.take(it.index())) * rhs + cz,
@loopstart 0
    let ghost c0 = carry;
    proof { lemma_mul_bound(*a as int, rhs as int); }
@loopend 0
    proof { lemma_mulw_step(w0, wf, it.index(), rhs as int, cz as int, c0 as int, carry as int); }
@tail
proof { assert(w0.take(w0.len() as int) =~= w0); assert(wf.take(w0.len() as int) =~= wf); }
@fn add_mul_word_same_len_in_place -> c
    requires old(words).len() == rhs.len()
    ensures final(words).len() == old(words).len(), val(final(words)@) + c * pw(rhs.len() as nat) == val(old(words)@) + mult * val(rhs@)
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = words@;
let ghost wf = final(words)@;
proof { assert(mult * 0 == 0) by (nonlinear_arith); assert(w0.take(0) =~= Seq::<Word>::empty()); assert(wf.take(0) =~= Seq::<Word>::empty()); assert(rhs@.take(0) =~= Seq::<Word>::empty()); }
@loop 0 it
    invariant it.wf(), it.seq().len() == w0.len(),
       forall|j: int| 0 <= j < w0.len() ==> *it.seq()[j].0 == w0[j] && *final(it.seq()[j].0) == wf[j] && *it.seq()[j].1 == rhs[j],
       val(wf.take(it.index())) + carry * pw(it.index() as nat) == val(w0.take(it.index())) + mult * val(rhs@.take(it.index())),
@loopstart 0
    let ghost c0 = carry;
    proof { lemma_mul_bound(mult as int, *b as int); }
@loopend 0
    proof { lemma_addmul_step(w0, wf, rhs@, it.index(), mult as int, c0 as int, carry as int); }
@tail
proof { assert(w0.take(w0.len() as int) =~= w0); assert(wf.take(w0.len() as int) =~= wf); assert(rhs@.take(w0.len() as int) =~= rhs@); }
@fn add_mul_word_in_place -> c
    requires old(words).len() >= rhs.len()
    ensures final(words).len() == old(words).len(), val(final(words)@) + c * pw(old(words).len() as nat) == val(old(words)@) + mult * val(rhs@)
@start
let ghost w0 = words@;
let ghost wf = final(words)@;
@after `add_mul_word_same_len_in_place ( & mut words [ .. n ] , mult , rhs ) ;`
let ghost w1 = words@;
let ghost c1 = carry;
proof {
    assert(w1.skip(n as int) =~= w0.skip(n as int));
    lemma_val_split(w0, n as int); lemma_val_split(w1, n as int);
    if w0.len() == n { assert(w1.take(n as int) =~= w1); assert(w0.take(n as int) =~= w0); }
}
@after `carry = Word :: from ( add :: add_word_in_place ( & mut words [ n .. ] , carry ) ) ;`
proof {
    let w2 = words@;
    assert(w2.take(n as int) =~= w1.take(n as int));
    lemma_val_split(w2, n as int);
    lemma_pw_add(n as nat, (w0.len() - n) as nat);
    let (p, q, x, y, c, cc) = (pw(n as nat) as int, pw((w0.len() - n) as nat) as int, val(w2.skip(n as int)) as int, val(w0.skip(n as int)) as int, carry as int, c1 as int);
    assert(w2.subrange(n as int, w0.len() as int) =~= w2.skip(n as int)); assert(w1.subrange(n as int, w0.len() as int) =~= w1.skip(n as int));
    assert(x + c * q == y + cc);
    assert(p * x + c * (p * q) == p * y + cc * p) by (nonlinear_arith) requires x + c * q == y + cc;
}
@fn sub_mul_word_same_len_in_place -> c
    requires old(words).len() == rhs.len()
    ensures final(words).len() == old(words).len(), val(final(words)@) + mult * val(rhs@) == val(old(words)@) + c * pw(rhs.len() as nat)
@attr #[verifier::loop_isolation(false)]
@start
let ghost w0 = words@;
let ghost wf = final(words)@;
proof { assert(-(mult as int) * 0 == 0) by (nonlinear_arith); assert(w0.take(0) =~= Seq::<Word>::empty()); assert(wf.take(0) =~= Seq::<Word>::empty()); assert(rhs@.take(0) =~= Seq::<Word>::empty()); }
@loop 0 it
    invariant it.wf(), it.seq().len() == w0.len(),
       forall|j: int| 0 <= j < w0.len() ==> *it.seq()[j].0 == w0[j] && *final(it.seq()[j].0) == wf[j] && *it.seq()[j].1 == rhs[j],
       val(wf.take(it.index())) + (carry_plus_max - Word::MAX) * pw(it.index() as nat) == val(w0.take(it.index())) + -(mult as int) * val(rhs@.take(it.index())),
@loopstart 0
    let ghost c0 = carry_plus_max;
    proof { lemma_mul_bound(mult as int, *b as int); assert(Word::MAX * B() == $DMAX - Word::MAX); assert(-(mult as int) * (*b as int) == -(mult * *b)) by (nonlinear_arith); }
@loopend 0
    proof { assert(carry_plus_max * B() - Word::MAX * B() == (carry_plus_max - Word::MAX) * B()) by (nonlinear_arith); lemma_addmul_step(w0, wf, rhs@, it.index(), -(mult as int), c0 as int - Word::MAX, carry_plus_max as int - Word::MAX); }
@tail
proof { assert(w0.take(w0.len() as int) =~= w0); assert(wf.take(w0.len() as int) =~= wf); assert(rhs@.take(w0.len() as int) =~= rhs@);
    let (m, r, k, p) = (mult as int, val(rhs@) as int, carry_plus_max as int - Word::MAX, pw(w0.len()) as int);
    assert(-m * r == -(m * r)) by (nonlinear_arith); assert(k * p == -((-k) * p)) by (nonlinear_arith); }
