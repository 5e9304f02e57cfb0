@file vp_std.rs
@mod
// Vec<Word> with its capacity (documented behaviour of alloc::vec::Vec; exact capacity from with_capacity is assumed).
pub uninterp spec fn vcap(v: Vec<Word>) -> nat;
#[verifier::external_body]
pub fn vec_with_capacity(n: usize) -> (v: Vec<Word>) ensures v@.len() == 0, vcap(v) == n { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vec_capacity(v: &Vec<Word>) -> (n: usize) ensures n == vcap(*v), v@.len() <= n { v.capacity() }
#[verifier::external_body]
pub fn vec_push(v: &mut Vec<Word>, x: Word) requires old(v)@.len() < vcap(*old(v)) ensures final(v)@ == old(v)@.push(x), vcap(*final(v)) == vcap(*old(v)) { v.push(x) }
#[verifier::external_body]
pub fn vec_pop(v: &mut Vec<Word>) -> (r: Option<Word>) ensures vcap(*final(v)) == vcap(*old(v)),
    old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
    old(v)@.len() > 0 ==> r == Some(old(v)@.last()) && final(v)@ == old(v)@.drop_last() { v.pop() }
#[verifier::external_body]
pub fn vec_truncate(v: &mut Vec<Word>, n: usize) ensures vcap(*final(v)) == vcap(*old(v)), final(v)@ == (if n <= old(v)@.len() { old(v)@.take(n as int) } else { old(v)@ }) { v.truncate(n) }
/// Vec::extend(iter::repeat(0).take(n))
#[verifier::external_body]
pub fn vec_extend_zeros(v: &mut Vec<Word>, n: usize) requires old(v)@.len() + n <= vcap(*old(v))
    ensures vcap(*final(v)) == vcap(*old(v)), final(v)@ == old(v)@ + Seq::new(n as nat, |i: int| 0 as Word) { v.extend(core::iter::repeat(0).take(n)) }
/// Vec::splice(..0, iter::repeat(0).take(n))
#[verifier::external_body]
pub fn vec_splice_zeros_front(v: &mut Vec<Word>, n: usize) requires old(v)@.len() + n <= vcap(*old(v))
    ensures vcap(*final(v)) == vcap(*old(v)), final(v)@ == Seq::new(n as nat, |i: int| 0 as Word) + old(v)@ { v.splice(..0, core::iter::repeat(0).take(n)); }
/// Vec::drain(..n)
#[verifier::external_body]
pub fn vec_drain_front(v: &mut Vec<Word>, n: usize) requires n <= old(v)@.len()
    ensures vcap(*final(v)) == vcap(*old(v)), final(v)@ == old(v)@.skip(n as int) { v.drain(..n); }
#[verifier::external_body]
pub fn vec_clone_from(v: &mut Vec<Word>, s: &Vec<Word>) requires vcap(*old(v)) >= s@.len()
    ensures vcap(*final(v)) == vcap(*old(v)), final(v)@ == s@ { v.clone_from(s) }
#[verifier::external_body]
pub fn vec_as_mut_slice(v: &mut Vec<Word>) -> (r: &mut [Word]) ensures r@ == old(v)@, final(v)@ == final(r)@, vcap(*final(v)) == vcap(*old(v)) { v }
pub assume_specification<T> [core::slice::from_ref::<T>] (x: &T) -> (r: &[T]) ensures r@ == seq![*x];
pub assume_specification<T: Default> [core::mem::take::<T>] (x: &mut T) -> (r: T) ensures r == *old(x), T::default.ensures((), *final(x));
/// The size limit: MAX_LEN, checked against the constant in the source by rustc (ubig.rs, const assertion).
@if bits==64
pub open spec fn MAXLEN() -> nat { 0x200_0000_0000_0000 }
@endif
@if bits==32
pub open spec fn MAXLEN() -> nat { 0x800_0000 }
@endif
@if bits==16
pub open spec fn MAXLEN() -> nat { 4096 }
@endif
/// Spare storage allowed for a number of n words.
pub open spec fn compact_cap(n: nat) -> nat { if n + n / 4 + 4 <= MAXLEN() + 4 { n + n / 4 + 4 } else { MAXLEN() + 4 } }
@file ubig.rs
@plain
@if bits==64
const _: () = assert!(UBig::MAX_LEN == 0x200_0000_0000_0000);
@endif
@if bits==32
const _: () = assert!(UBig::MAX_LEN == 0x800_0000);
@endif
@if bits==16
const _: () = assert!(UBig::MAX_LEN == 4096);
@endif

@file buffer.rs
@mod
use crate::vp_math::*;
use crate::vp_std::*;
impl Buffer {
    pub closed spec fn view(&self) -> Seq<Word> { self.0@ }
    pub closed spec fn cap(&self) -> nat { vcap(self.0) }
    /// Invariant of every buffer.
    pub open spec fn wf(&self) -> bool { self@.len() <= self.cap() && self.cap() <= MAXLEN() + 4 }
}
#[verifier::external_body]
proof fn axiom_vcap(v: Vec<Word>) ensures v@.len() <= vcap(v) {}
@item struct Buffer
@const Buffer::MAX_CAPACITY ensures Buffer::MAX_CAPACITY == MAXLEN() + 4
@fn Buffer::allocate -> b
@rewrite `Vec :: with_capacity ( Buffer :: default_capacity ( num_words ) )` => `crate::vp_std::vec_with_capacity(Buffer::default_capacity(num_words))`
    ensures num_words <= MAXLEN() + 4, b@.len() == 0, b.wf(), b.cap() >= num_words, b.cap() <= compact_cap(num_words as nat)
@fn Buffer::ensure_capacity
    requires old(self).wf(), num_words <= old(self).cap() || num_words >= old(self)@.len()
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).cap() >= num_words, final(self).cap() >= old(self).cap()
@fn Buffer::shrink
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).cap() <= compact_cap(final(self)@.len())
@fn Buffer::reallocate
@rewrite `new_buffer . clone_from ( self )` => `buffer_clone_from(&mut new_buffer, self)`
    requires old(self).wf(), num_words >= old(self)@.len()
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).cap() >= num_words, final(self).cap() <= compact_cap(num_words as nat)
@fn Buffer::capacity -> r
@rewrite `self . 0 . capacity ( )` => `crate::vp_std::vec_capacity(&self.0)`
    ensures r == self.cap(), self@.len() <= r
@fn Buffer::push
@rewrite `self . 0 . push ( word )` => `crate::vp_std::vec_push(&mut self.0, word)`
    requires old(self).wf(), old(self)@.len() < old(self).cap()
    ensures final(self).wf(), final(self)@ == old(self)@.push(word), final(self).cap() == old(self).cap()
@fn Buffer::push_may_reallocate
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ == old(self)@.push(word), final(self).cap() >= old(self).cap()
@fn Buffer::push_zeros
@rewrite `self . 0 . extend ( iter :: repeat ( 0 ) . take ( n ) )` => `crate::vp_std::vec_extend_zeros(&mut self.0, n)`
    requires old(self).wf(), old(self)@.len() + n <= old(self).cap()
    ensures final(self).wf(), final(self)@ == old(self)@ + Seq::new(n as nat, |i: int| 0 as Word), final(self).cap() == old(self).cap()
@fn Buffer::push_zeros_front
@rewrite `self . 0 . splice ( .. 0 , iter :: repeat ( 0 ) . take ( n ) )` => `crate::vp_std::vec_splice_zeros_front(&mut self.0, n)`
    requires old(self).wf(), old(self)@.len() + n <= old(self).cap()
    ensures final(self).wf(), final(self)@ == Seq::new(n as nat, |i: int| 0 as Word) + old(self)@, final(self).cap() == old(self).cap()
@fn Buffer::pop -> r
@rewrite `self . 0 . pop ( )` => `crate::vp_std::vec_pop(&mut self.0)`
    requires old(self).wf()
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
        old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last()
@fn Buffer::pop_leading_zeros
    requires old(self).wf()
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self)@.len() <= old(self)@.len(),
        final(self)@ == old(self)@.take(final(self)@.len() as int), val(final(self)@) == val(old(self)@),
        final(self)@.len() > 0 ==> final(self)@.last() != 0
@start
let ghost w0 = self@;
@loop 0
    invariant self.wf(), self.cap() == old(self).cap(), w0 == old(self)@, self@.len() <= w0.len(), self@ == w0.take(self@.len() as int),
        forall|j: int| self@.len() <= j < w0.len() ==> w0[j] == 0,
    ensures self@.len() > 0 ==> self@.last() != 0,
    decreases self@.len()
@loopafter 0
proof { lemma_val_trim(w0, self@.len() as int); }
@fn Buffer::truncate
@rewrite `self . 0 . truncate ( len )` => `crate::vp_std::vec_truncate(&mut self.0, len)`
    requires old(self).wf(), len <= old(self)@.len()
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self)@ == old(self)@.take(len as int)
@fn Buffer::erase_front
@rewrite `self . 0 . drain ( .. n )` => `crate::vp_std::vec_drain_front(&mut self.0, n)`
    requires old(self).wf(), n <= old(self)@.len()
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self)@ == old(self)@.skip(n as int)
@fn Buffer::resizing_clone_from
@rewrite `self . clone_from ( source )` => `buffer_clone_from(self, source)`
    requires old(self).wf(), source.wf()
    ensures final(self).wf(), final(self)@ == source@, final(self).cap() <= compact_cap(source@.len())
@fn Buffer::default_capacity -> r
    requires num_words <= MAXLEN() + 4
    ensures num_words <= r <= compact_cap(num_words as nat)
@fn Buffer::max_compact_capacity -> r
    requires num_words <= MAXLEN() + 4
    ensures r == compact_cap(num_words as nat)
@fn Clone for Buffer::clone -> r
@rewrite `new_buffer . clone_from ( self )` => `buffer_clone_from(&mut new_buffer, self)`
@pre self.wf()
    ensures r.wf() && r@ == self@ && r.cap() <= compact_cap(self@.len())
@fn Clone for Buffer::clone_from
@method2fn buffer_clone_from Buffer
@rewrite `self . 0 . clone_from ( & source . 0 )` => `crate::vp_std::vec_clone_from(&mut self.0, &source.0)`
    requires old(vp_self).wf(), old(vp_self).cap() >= source@.len()
    ensures final(vp_self).wf(), final(vp_self)@ == source@, final(vp_self).cap() == old(vp_self).cap()
@fn Deref for Buffer::deref -> r
    ensures r@ == self@
@fn DerefMut for Buffer::deref_mut -> r
@rewrite `& mut self . 0` => `crate::vp_std::vec_as_mut_slice(&mut self.0)`
    ensures r@ == old(self)@, final(self)@ == final(r)@, final(self).cap() == old(self).cap()
@fn Extend < & 'a Word > for Buffer::extend
@method2fn buffer_extend_ref Buffer
@mono T=&[Word] as buffer_extend_ref
    requires old(vp_self).wf(), old(vp_self)@.len() + iter@.len() <= old(vp_self).cap()
    ensures final(vp_self).wf(), final(vp_self)@ == old(vp_self)@ + iter@, final(vp_self).cap() == old(vp_self).cap()
@start
let ghost b0 = vp_self@;
@loop 0 it
    invariant it.wf(), vp_self.wf(), vp_self.cap() == old(vp_self).cap(), it.seq().len() == iter@.len(), forall|j: int| 0 <= j < iter@.len() ==> *it.seq()[j] == iter@[j],
        b0.len() + iter@.len() <= vp_self.cap(), vp_self@ == b0 + iter@.take(it.index()),
@loopend 0
proof { assert(iter@.take(it.index() + 1) =~= iter@.take(it.index()).push(*word)); }
@ret
proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
