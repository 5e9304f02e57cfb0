@file vp_math.rs
@mod
#[allow(unused_imports)]
use vstd::arithmetic::mul::*;
#[allow(unused_imports)]
use vstd::arithmetic::div_mod::*;
#[allow(unused_imports)]
use vstd::arithmetic::power2::*;

/// Base of the word representation: 2^WORD_BITS.
@if bits==64
pub open spec fn B() -> nat { 0x1_0000_0000_0000_0000 }
pub open spec fn WB() -> nat { 64 }
@endif
@if bits==32
pub open spec fn B() -> nat { 0x1_0000_0000 }
pub open spec fn WB() -> nat { 32 }
@endif
@if bits==16
pub open spec fn B() -> nat { 0x1_0000 }
pub open spec fn WB() -> nat { 16 }
@endif

/// B^n
pub open spec fn pw(n: nat) -> nat decreases n { if n == 0 { 1 } else { B() * pw((n - 1) as nat) } }

/// The number a little-endian word slice stands for.
pub open spec fn val(s: Seq<Word>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { val(s.drop_last()) + s.last() as nat * pw((s.len() - 1) as nat) }
}

pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }

pub proof fn lemma_pw_step(n: nat)
    ensures pw(n + 1) == B() * pw(n), pw(n + 1) == pw(n) * B(), pw(0) == 1, pw(n) >= 1
    decreases n
{
    lemma_pw_pos(n);
    assert(pw(n + 1) == B() * pw(n));
    lemma_mul_is_commutative(B() as int, pw(n) as int);
}

pub proof fn lemma_pw_pos(n: nat)
    ensures pw(n) >= 1
    decreases n
{
    if n > 0 { lemma_pw_pos((n - 1) as nat); assert(B() * pw((n - 1) as nat) >= 1) by (nonlinear_arith) requires pw((n-1) as nat) >= 1, B() >= 1; }
}

pub proof fn lemma_pw_add(a: nat, b: nat)
    ensures pw(a + b) == pw(a) * pw(b)
    decreases a
{
    if a == 0 {
        assert(1 * pw(b) == pw(b));
        assert(pw(a) == 1);
        assert(a + b == b);
    } else {
        lemma_pw_add((a - 1) as nat, b);
        assert((a + b - 1) as nat == (a - 1) as nat + b);
        let (x, y) = (pw((a - 1) as nat), pw(b));
        assert(pw(a + b) == B() * pw((a + b - 1) as nat));
        assert(B() * (x * y) == (B() * x) * y) by (nonlinear_arith);
    }
}

pub proof fn lemma_val_push(s: Seq<Word>, x: Word)
    ensures val(s.push(x)) == val(s) + x as nat * pw(s.len())
{
    assert(s.push(x).drop_last() =~= s);
}

pub proof fn lemma_val_empty(s: Seq<Word>)
    requires s.len() == 0
    ensures val(s) == 0
{}

/// val of a prefix, one step.
pub proof fn lemma_val_take(s: Seq<Word>, i: int)
    requires 0 <= i < s.len()
    ensures val(s.take(i + 1)) == val(s.take(i)) + s[i] as nat * pw(i as nat)
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}

pub proof fn lemma_val_bound(s: Seq<Word>)
    ensures val(s) < pw(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        lemma_val_bound(s.drop_last());
        let n = (s.len() - 1) as nat;
        lemma_pw_step(n);
        assert(val(s.drop_last()) + s.last() as nat * pw(n) < B() * pw(n)) by (nonlinear_arith)
            requires val(s.drop_last()) < pw(n), s.last() as nat <= B() - 1;
    }
}

pub proof fn lemma_val_split(s: Seq<Word>, k: int)
    requires 0 <= k <= s.len()
    ensures val(s) == val(s.take(k)) + pw(k as nat) * val(s.skip(k))
    decreases s.len()
{
    if k == s.len() {
        assert(s.take(k) =~= s);
        assert(s.skip(k).len() == 0);
        lemma_mul_by_zero_is_zero(pw(k as nat) as int);
    } else {
        let t = s.drop_last();
        lemma_val_split(t, k);
        assert(t.take(k) =~= s.take(k));
        assert(t.skip(k) =~= s.skip(k).drop_last());
        assert(s.skip(k).last() == s.last());
        let m = (s.len() - 1 - k) as nat;
        lemma_pw_add(k as nat, m);
        assert(k as nat + m == (s.len() - 1) as nat);
        let x = s.last() as nat;
        assert(pw(k as nat) * (val(s.skip(k).drop_last()) + x * pw(m)) == pw(k as nat) * val(s.skip(k).drop_last()) + x * (pw(k as nat) * pw(m)))
            by (nonlinear_arith);
    }
}

/// val of a slice whose first word is split off.
pub proof fn lemma_val_first(s: Seq<Word>)
    requires s.len() > 0
    ensures val(s) == s[0] as nat + B() * val(s.skip(1))
{
    lemma_val_split(s, 1);
    lemma_val_take(s, 0);
    assert(pw(1) == B()) by { reveal_with_fuel(pw, 2); assert(pw(0) == 1); assert(B() * 1 == B()); };
    assert(s.take(0).len() == 0);
    let x = s[0] as nat;
    assert(x * pw(0) == x) by { assert(pw(0) == 1); assert(x * 1 == x); };
}

pub proof fn lemma_val_concat(a: Seq<Word>, b: Seq<Word>)
    ensures val(a + b) == val(a) + pw(a.len()) * val(b)
{
    lemma_val_split(a + b, a.len() as int);
    assert((a + b).take(a.len() as int) =~= a);
    assert((a + b).skip(a.len() as int) =~= b);
}

pub proof fn lemma_val_zero(s: Seq<Word>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0
    ensures val(s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        lemma_val_zero(s.drop_last());
        lemma_mul_by_zero_is_zero(pw((s.len() - 1) as nat) as int);
    }
}

pub proof fn lemma_val_is_zero(s: Seq<Word>)
    requires val(s) == 0
    ensures forall|i: int| 0 <= i < s.len() ==> s[i] == 0
    decreases s.len()
{
    if s.len() > 0 {
        let n = (s.len() - 1) as nat;
        lemma_pw_pos(n);
        assert(s.last() == 0) by (nonlinear_arith) requires s.last() as nat * pw(n) == 0, pw(n) >= 1;
        lemma_val_is_zero(s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); }
        }
    }
}

/// All words maximal: B^n - 1.
pub proof fn lemma_val_ones(s: Seq<Word>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == Word::MAX
    ensures val(s) == pw(s.len()) - 1
    decreases s.len()
{
    if s.len() > 0 {
        lemma_val_ones(s.drop_last());
        let n = (s.len() - 1) as nat;
        lemma_pw_step(n);
        assert(pw(n) - 1 + (B() - 1) * pw(n) == B() * pw(n) - 1) by (nonlinear_arith);
    }
}

/// Equal length and equal value mean equal words.
pub proof fn lemma_val_inj(a: Seq<Word>, b: Seq<Word>)
    requires a.len() == b.len(), val(a) == val(b)
    ensures a =~= b
    decreases a.len()
{
    if a.len() > 0 {
        let n = (a.len() - 1) as nat;
        lemma_val_bound(a.drop_last());
        lemma_val_bound(b.drop_last());
        let (x, y, p, q, w) = (a.last() as int, b.last() as int, val(a.drop_last()) as int, val(b.drop_last()) as int, pw(n) as int);
        assert(x == y) by (nonlinear_arith) requires p + x * w == q + y * w, 0 <= p < w, 0 <= q < w;
        lemma_val_inj(a.drop_last(), b.drop_last());
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            if i < a.len() - 1 { assert(a[i] == a.drop_last()[i]); assert(b[i] == b.drop_last()[i]); }
        }
    }
}

/// Trailing zero words at the top do not change the value.
pub proof fn lemma_val_trim(s: Seq<Word>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> s[i] == 0
    ensures val(s) == val(s.take(k))
{
    lemma_val_split(s, k);
    lemma_val_zero(s.skip(k));
    lemma_mul_by_zero_is_zero(pw(k as nat) as int);
}

pub proof fn lemma_pw_mono(a: nat, b: nat)
    requires a <= b
    ensures pw(a) <= pw(b)
{
    lemma_pw_add(a, (b - a) as nat);
    lemma_pw_pos((b - a) as nat);
    lemma_pw_pos(a);
    assert(pw(a) <= pw(a) * pw((b - a) as nat)) by (nonlinear_arith) requires pw((b - a) as nat) >= 1, pw(a) >= 0;
}

/// A nonzero top word bounds the value from below.
pub proof fn lemma_val_top(s: Seq<Word>)
    requires s.len() > 0, s.last() != 0
    ensures val(s) >= pw((s.len() - 1) as nat)
{
    let n = (s.len() - 1) as nat;
    lemma_pw_pos(n);
    assert(s.last() as nat * pw(n) >= pw(n)) by (nonlinear_arith) requires s.last() as nat >= 1, pw(n) >= 1;
}

/// One carry step of a word-by-word addition.
pub proof fn lemma_add_step(w0: Seq<Word>, r: Seq<Word>, wf: Seq<Word>, i: int, c0: bool, c1: bool)
    requires 0 <= i < w0.len(), w0.len() == r.len(), w0.len() == wf.len(),
        val(wf.take(i)) + b2n(c0) * pw(i as nat) == val(w0.take(i)) + val(r.take(i)),
        wf[i] as nat + b2n(c1) * B() == w0[i] as nat + r[i] as nat + b2n(c0),
    ensures val(wf.take(i + 1)) + b2n(c1) * pw((i + 1) as nat) == val(w0.take(i + 1)) + val(r.take(i + 1)),
{
    lemma_val_take(w0, i);
    lemma_val_take(r, i);
    lemma_val_take(wf, i);
    lemma_pw_step(i as nat);
    let p = pw(i as nat);
    let (a, b, f, x, y) = (w0[i] as nat, r[i] as nat, wf[i] as nat, b2n(c0), b2n(c1));
    assert(f * p + y * (B() * p) == a * p + b * p + x * p) by (nonlinear_arith) requires f + y * B() == a + b + x;
}

/// One borrow step of a word-by-word subtraction f = a - b.
pub proof fn lemma_sub_step(a: Seq<Word>, b: Seq<Word>, f: Seq<Word>, i: int, c0: bool, c1: bool)
    requires 0 <= i < a.len(), a.len() == b.len(), a.len() == f.len(),
        val(f.take(i)) + val(b.take(i)) == val(a.take(i)) + b2n(c0) * pw(i as nat),
        a[i] as int - b[i] as int - b2n(c0) as int == f[i] as int - b2n(c1) * B(),
    ensures val(f.take(i + 1)) + val(b.take(i + 1)) == val(a.take(i + 1)) + b2n(c1) * pw((i + 1) as nat),
{
    lemma_val_take(a, i);
    lemma_val_take(b, i);
    lemma_val_take(f, i);
    lemma_pw_step(i as nat);
    let p = pw(i as nat);
    let (a, b, f, x, y) = (a[i] as nat, b[i] as nat, f[i] as nat, b2n(c0), b2n(c1));
    assert(f * p + b * p == a * p + y * (B() * p) - x * p) by (nonlinear_arith) requires f + b == a + y * B() - x;
}

/// Contents of a sequence of mutable references: now, and when the borrows end.
pub open spec fn cur(s: Seq<&mut Word>) -> Seq<Word> { Seq::new(s.len(), |i: int| *s[i]) }
#[verifier::prophetic]
pub open spec fn fin(s: Seq<&mut Word>) -> Seq<Word> { Seq::new(s.len(), |i: int| *final(s[i])) }

/// Multiplication by 0, 1, -1.
pub broadcast proof fn lemma_mul_small(c: int, p: int)
    ensures (c == 0 ==> #[trigger] (c * p) == 0), (c == 1 ==> c * p == p), (c == -1 ==> c * p == -p)
{
    assert(c == 0 ==> c * p == 0) by (nonlinear_arith);
    assert(c == 1 ==> c * p == p) by (nonlinear_arith);
    assert(c == -1 ==> c * p == -p) by (nonlinear_arith);
}

/// The top word decides a comparison of equal lengths.
pub proof fn lemma_val_cmp_last(a: Seq<Word>, b: Seq<Word>)
    requires a.len() == b.len()
    ensures a.len() > 0 && a.last() < b.last() ==> val(a) < val(b)
{
    if a.len() > 0 && a.last() < b.last() {
        lemma_val_bound(a.drop_last());
        let p = pw((a.len() - 1) as nat) as int;
        let (x, y) = (a.last() as int, b.last() as int);
        assert(x * p + p <= y * p) by (nonlinear_arith) requires x + 1 <= y, p >= 0;
    }
}
