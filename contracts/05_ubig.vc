@file ubig.rs
@item enum Repr
@item struct UBig
@const UBig::MAX_LEN external ensures UBig::MAX_LEN == crate::vp_std::MAXLEN()
@mod
use crate::vp_math::*;
use crate::vp_std::*;
impl Repr {
    pub open spec fn v(&self) -> nat { match *self { Small(w) => w as nat, Large(b) => val(b@) } }
    /// The canonical form: no superfluous leading zero, one word inline, bounded length and spare storage.
    pub open spec fn wf(&self) -> bool {
        match *self { Small(_) => true, Large(b) => b.wf() && b@.len() >= 2 && b@.last() != 0 && b@.len() <= MAXLEN() && b.cap() <= compact_cap(b@.len()) }
    }
}
impl UBig {
    pub closed spec fn rp(&self) -> Repr { self.0 }
    pub open spec fn v(&self) -> nat { self.rp().v() }
    pub open spec fn wf(&self) -> bool { self.rp().wf() }
}
/// The canonical form is unique: equal values have the same representation word for word.
pub proof fn lemma_canonical(a: &UBig, b: &UBig)
    requires a.wf(), b.wf(), a.v() == b.v()
    ensures match (a.rp(), b.rp()) { (Small(x), Small(y)) => x == y, (Large(x), Large(y)) => x@ == y@, _ => false }
{
    lemma_repr_canonical(a.rp(), b.rp());
}
pub proof fn lemma_repr_canonical(a: Repr, b: Repr)
    requires a.wf(), b.wf(), a.v() == b.v()
    ensures match (a, b) { (Small(x), Small(y)) => x == y, (Large(x), Large(y)) => x@ == y@, _ => false }
{
    match (a, b) {
        (Small(x), Small(y)) => {}
        (Large(x), Large(y)) => {
            lemma_val_top(x@); lemma_val_top(y@); lemma_val_bound(x@); lemma_val_bound(y@);
            if x@.len() < y@.len() { lemma_pw_mono(x@.len(), (y@.len() - 1) as nat); }
            if y@.len() < x@.len() { lemma_pw_mono(y@.len(), (x@.len() - 1) as nat); }
            lemma_val_inj(x@, y@);
        }
        (Small(x), Large(y)) => { lemma_large_big(y@); }
        (Large(x), Small(y)) => { lemma_large_big(x@); }
    }
}
/// A number of two or more words is at least B.
pub proof fn lemma_large_big(s: Seq<Word>) requires s.len() >= 2, s.last() != 0 ensures val(s) >= B(), val(s) >= pw((s.len() - 1) as nat)
{
    lemma_val_top(s); lemma_pw_mono(1, (s.len() - 1) as nat); lemma_pw1();
}
pub proof fn lemma_val_one(w: Word) ensures val(seq![w]) == w
{
    lemma_pw1(); lemma_val_push(Seq::empty(), w);
    assert(seq![w] =~= Seq::<Word>::empty().push(w));
    let x = w as nat; assert(x * 1 == x);
}
pub proof fn lemma_pw1() ensures pw(0) == 1, pw(1) == B() { reveal_with_fuel(pw, 2); assert(B() * 1 == B()); }
@fn UBig::from_word -> r
    ensures r.wf(), r.v() == word, r.rp() == Small(word)
@fn UBig::repr -> r
    ensures *r == self.rp()
@fn UBig::into_repr -> r
    ensures r == self.rp()
@fn UBig::len -> r
    ensures r == (match self.rp() { Small(_) => 1, Large(b) => b@.len() as int })
@fn UBig::as_words -> r
    ensures val(r@) == self.v(), self.wf() ==> (r@.len() > 0 ==> r@.last() != 0), match self.rp() { Small(w) => (if w == 0 { r@.len() == 0 } else { r@ == seq![w] }), Large(b) => r@ == b@ }
@start
proof { lemma_pw1(); if let Small(w) = self.rp() { lemma_val_one(w); } }
@trusted UBig::panic_number_too_large
@fn Clone for UBig::clone -> r
@pre self.wf()
    ensures r.wf(), r.v() == self.v()
@fn Clone for UBig::clone_from
@method2fn ubig_clone_from UBig
    requires old(vp_self).wf(), source.wf()
    ensures final(vp_self).wf(), final(vp_self).v() == source.v()
@fn From<Buffer> for UBig::from -> r
@pre buffer.wf()
    ensures r.wf(), r.v() == val(buffer@), match r.rp() { Small(_) => true, Large(b) => b@ == buffer@.take(b@.len() as int) }
@start
let ghost b0 = buffer@;
proof { lemma_pw1(); }
@rewrite `UBig :: panic_number_too_large ( )` => `{ proof { lemma_val_top(buffer@); lemma_pw_mono(MAXLEN(), (buffer@.len() - 1) as nat); assert(val(b0) >= pw(MAXLEN())); } UBig::panic_number_too_large() }`
@rewrite `UBig :: from_word ( buffer [ 0 ] )` => `{ proof { lemma_val_one(buffer@[0]); assert(buffer@ =~= seq![buffer@[0]]); } UBig::from_word(buffer[0]) }`
@mod
