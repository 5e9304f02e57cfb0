@file vp_math.rs
@mod
/// Replacing the words [i, j) changes the value by the change of that part.
pub proof fn lemma_mid_add(w1: Seq<Word>, w2: Seq<Word>, i: int, j: int, k: int, x: int)
    requires 0 <= i <= j <= w1.len(), w1.len() == w2.len(), w1.take(i) =~= w2.take(i), w1.skip(j) =~= w2.skip(j),
        val(w2.subrange(i, j)) + k * pw((j - i) as nat) == val(w1.subrange(i, j)) + x,
    ensures val(w2) + k * pw(j as nat) == val(w1) + x * pw(i as nat)
{
    lemma_val_mid(w1, i, j); lemma_val_mid(w2, i, j);
    lemma_pw_add(i as nat, (j - i) as nat);
    let (p, q, a, b) = (pw(i as nat) as int, pw((j - i) as nat) as int, val(w1.subrange(i, j)) as int, val(w2.subrange(i, j)) as int);
    assert(p * b + k * (p * q) == p * a + x * p) by (nonlinear_arith) requires b + k * q == a + x;
}
pub proof fn lemma_val_mid(w: Seq<Word>, i: int, j: int)
    requires 0 <= i <= j <= w.len(),
    ensures val(w) == val(w.take(i)) + pw(i as nat) * val(w.subrange(i, j)) + pw(j as nat) * val(w.skip(j))
{
    lemma_val_split(w, j); lemma_val_split(w.take(j), i);
    assert(w.take(j).take(i) =~= w.take(i)); assert(w.take(j).skip(i) =~= w.subrange(i, j));
}
/// The carry out of adding or subtracting a product that fits is at most one.
pub proof fn lemma_carry1(wf: Seq<Word>, w0: Seq<Word>, r: int, s: int, x: int)
    requires wf.len() == w0.len(), -1 <= s <= 1, 0 <= x <= pw(w0.len()), val(wf) + r * pw(w0.len()) == val(w0) + s * x
    ensures -1 <= r <= 1
{
    lemma_val_bound(wf); lemma_val_bound(w0);
    let (p, v, w) = (pw(w0.len()) as int, val(wf) as int, val(w0) as int);
    assert(-p <= s * x <= p) by (nonlinear_arith) requires -1 <= s <= 1, 0 <= x <= p;
    assert(-1 <= r <= 1) by (nonlinear_arith) requires v + r * p == w + s * x, 0 <= v < p, 0 <= w < p, -p <= s * x <= p;
}
/// No carry when the result is known to fit.
pub proof fn lemma_carry0(wf: Seq<Word>, r: int, x: int)
    requires 0 <= x < pw(wf.len()), val(wf) + r * pw(wf.len()) == x
    ensures r == 0, val(wf) == x
{
    lemma_val_bound(wf);
    let (p, v) = (pw(wf.len()) as int, val(wf) as int);
    assert(r == 0) by (nonlinear_arith) requires v + r * p == x, 0 <= v < p, 0 <= x < p;
}
pub proof fn lemma_prod_bound(a: Seq<Word>, b: Seq<Word>) ensures 0 <= val(a) * val(b) < pw(a.len() + b.len())
{
    lemma_val_bound(a); lemma_val_bound(b); lemma_pw_add(a.len(), b.len());
    let (x, y, p, q) = (val(a) as int, val(b) as int, pw(a.len()) as int, pw(b.len()) as int);
    assert(0 <= x * y < p * q) by (nonlinear_arith) requires 0 <= x < p, 0 <= y < q;
}
@file mul/simple.rs
@mod
use crate::vp_math::*;
use crate::add::sgn;
@item const CHUNK_LEN
@item const MAX_SMALLER_LEN
@fn memory_requirement_up_to -> r
    ensures crate::memory::lw(r) >= 0
@fn add_mul_chunk -> r
@rewrite `b . iter ( ) . enumerate ( )` => `(0..b.len()).zip(b.iter())`
@attr #[verifier::loop_isolation(false)]
    requires a.len() >= b.len(), old(c).len() == a.len() + b.len(), a.len() <= CHUNK_LEN
    ensures final(c).len() == old(c).len(), val(final(c)@) + b2n(r) * pw(old(c).len() as nat) == val(old(c)@) + val(a@) * val(b@)
@start
let ghost w0 = c@;
let ghost av = val(a@) as int;
proof { assert(b@.take(0) =~= Seq::<Word>::empty()); assert(av * 0 == 0) by (nonlinear_arith); }
@loop 0 it
    invariant it.wf(), it.seq().len() == b.len(), c.len() == w0.len(),
        forall|j: int| 0 <= j < b.len() ==> it.seq()[j].0 == j && *it.seq()[j].1 == b[j],
        val(c@) + b2n(carry) * pw((it.index() + a.len()) as nat) == val(w0) + av * val(b@.take(it.index())),
@loopstart 0
let ghost (w1, k1) = (c@, carry);
proof { assert(i < b.len()); }
@after `& mut c [ i .. i + a . len ( ) ] , * m , a ) ;`
let ghost (w2, cw) = (c@, carry_word);
proof { lemma_mid_add(w1, w2, i as int, i + a.len(), cw as int, m * val(a@)); }
@loopend 0
proof {
    let (k, n, mm, bt) = (b2n(carry) as int, (i + a.len()) as int, *m as int, val(b@.take(i as int)) as int);
    assert(c@.subrange(n, n + 1) =~= seq![c@[n]]); assert(w2.subrange(n, n + 1) =~= seq![w2[n]]);
    crate::ubig::lemma_val_one(c@[n]); crate::ubig::lemma_val_one(w2[n]); crate::ubig::lemma_pw1();
    assert(c@.take(n) =~= w2.take(n)); assert(c@.skip(n + 1) =~= w2.skip(n + 1));
    lemma_mid_add(w2, c@, n, n + 1, k, cw + b2n(k1));
    lemma_val_take(b@, i as int);
    let (p, q, x, y) = (pw(i as nat) as int, pw(n as nat) as int, cw as int, b2n(k1) as int);
    assert((x + y) * q == x * q + y * q) by (nonlinear_arith);
    assert(av * (bt + mm * p) == av * bt + (mm * av) * p) by (nonlinear_arith);
}
@tail
proof { assert(b@.take(b.len() as int) =~= b@); }
@fn sub_mul_chunk -> r
@rewrite `b . iter ( ) . enumerate ( )` => `(0..b.len()).zip(b.iter())`
@attr #[verifier::loop_isolation(false)]
    requires a.len() >= b.len(), old(c).len() == a.len() + b.len(), a.len() <= CHUNK_LEN
    ensures final(c).len() == old(c).len(), val(final(c)@) + val(a@) * val(b@) == val(old(c)@) + b2n(r) * pw(old(c).len() as nat)
@start
let ghost w0 = c@;
let ghost av = val(a@) as int;
proof { assert(b@.take(0) =~= Seq::<Word>::empty()); assert(av * 0 == 0) by (nonlinear_arith); }
@loop 0 it
    invariant it.wf(), it.seq().len() == b.len(), c.len() == w0.len(),
        forall|j: int| 0 <= j < b.len() ==> it.seq()[j].0 == j && *it.seq()[j].1 == b[j],
        val(c@) + av * val(b@.take(it.index())) == val(w0) + b2n(borrow) * pw((it.index() + a.len()) as nat),
@loopstart 0
let ghost (w1, k1) = (c@, borrow);
proof { assert(i < b.len()); }
@after `& mut c [ i .. i + a . len ( ) ] , * m , a ) ;`
let ghost (w2, cw) = (c@, borrow_word);
proof {
    let (x, q) = (cw as int, pw(a.len() as nat) as int);
    assert((-x) * q == -(x * q)) by (nonlinear_arith);
    lemma_mid_add(w1, w2, i as int, i + a.len(), -(cw as int), -(m * val(a@)));
}
@loopend 0
proof {
    let (k, n, mm, bt) = (b2n(borrow) as int, (i + a.len()) as int, *m as int, val(b@.take(i as int)) as int);
    assert(c@.subrange(n, n + 1) =~= seq![c@[n]]); assert(w2.subrange(n, n + 1) =~= seq![w2[n]]);
    crate::ubig::lemma_val_one(c@[n]); crate::ubig::lemma_val_one(w2[n]); crate::ubig::lemma_pw1();
    assert(c@.take(n) =~= w2.take(n)); assert(c@.skip(n + 1) =~= w2.skip(n + 1));
    assert((-k) * B() == -(k * B())) by (nonlinear_arith);
    lemma_mid_add(w2, c@, n, n + 1, -k, -(cw + b2n(k1)));
    lemma_val_take(b@, i as int);
    let (p, q, x, y, q1) = (pw(i as nat) as int, pw(n as nat) as int, cw as int, b2n(k1) as int, pw((n + 1) as nat) as int);
    assert((-(x + y)) * q == -(x * q) - y * q) by (nonlinear_arith);
    assert((-x) * q == -(x * q)) by (nonlinear_arith);
    assert((-k) * q1 == -(k * q1)) by (nonlinear_arith);
    assert((-(mm * av)) * p == -((mm * av) * p)) by (nonlinear_arith);
    assert(av * (bt + mm * p) == av * bt + (mm * av) * p) by (nonlinear_arith);
}
@tail
proof { assert(b@.take(b.len() as int) =~= b@); }
@fn add_signed_mul_chunk -> r
@sig `fn add_signed_mul_chunk` => `pub fn add_signed_mul_chunk`
    requires a.len() >= b.len(), old(c).len() == a.len() + b.len(), a.len() <= CHUNK_LEN
    ensures final(c).len() == old(c).len(), -1 <= r <= 1,
        val(final(c)@) + r * pw(old(c).len() as nat) == val(old(c)@) + sgn(sign) * (val(a@) * val(b@)), final(_memory).cap() == old(_memory).cap()
@start
broadcast use crate::vp_math::lemma_mul_small;
