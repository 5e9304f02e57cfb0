@file vp_std.rs
@mod
/// lhs.iter().rev().cmp(rhs.iter().rev()): lexicographic from the last element (documented behaviour of Iterator::cmp).
#[verifier::external_body]
pub fn iter_rev_cmp(lhs: &[Word], rhs: &[Word]) -> (r: core::cmp::Ordering)
    requires lhs@.len() == rhs@.len()
    ensures
        r == core::cmp::Ordering::Equal ==> lhs@ == rhs@,
        r == core::cmp::Ordering::Less ==> exists|k: int| 0 <= k < lhs@.len() && lhs@[k] < rhs@[k] && lhs@.skip(k + 1) == rhs@.skip(k + 1),
        r == core::cmp::Ordering::Greater ==> exists|k: int| 0 <= k < lhs@.len() && lhs@[k] > rhs@[k] && lhs@.skip(k + 1) == rhs@.skip(k + 1),
{ lhs.iter().rev().cmp(rhs.iter().rev()) }
pub open spec fn ord(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub assume_specification<F: FnOnce() -> core::cmp::Ordering> [core::cmp::Ordering::then_with] (o: core::cmp::Ordering, f: F) -> (r: core::cmp::Ordering)
    requires o == core::cmp::Ordering::Equal ==> f.requires(())
    ensures o == core::cmp::Ordering::Equal ==> f.ensures((), r), o != core::cmp::Ordering::Equal ==> r == o;
@file cmp.rs
@mod
use crate::vp_math::*;
use crate::vp_std::*;
use crate::ubig::*;
proof fn lemma_cmp_at(a: Seq<Word>, b: Seq<Word>, k: int)
    requires a.len() == b.len(), 0 <= k < a.len(), a[k] < b[k], a.skip(k + 1) == b.skip(k + 1)
    ensures val(a) < val(b)
{
    lemma_val_split(a, k + 1); lemma_val_split(b, k + 1);
    lemma_val_cmp_last(a.take(k + 1), b.take(k + 1));
}
impl vstd::std_specs::cmp::OrdSpecImpl for UBig {
    open spec fn obeys_cmp_spec() -> bool { false }
    open spec fn cmp_spec(&self, other: &UBig) -> Ordering { arbitrary() }
}
impl vstd::std_specs::cmp::OrdSpecImpl for IBig {
    open spec fn obeys_cmp_spec() -> bool { false }
    open spec fn cmp_spec(&self, other: &IBig) -> Ordering { arbitrary() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for UBig {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &UBig) -> Option<Ordering> { Some(ord(self.v() as int, other.v() as int)) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for IBig {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &IBig) -> Option<Ordering> { Some(ord(self.v() as int, other.v() as int)) }
}
@fn Ord for UBig::cmp -> r
@pre self.wf() && other.wf()
@rewrite `| | cmp_same_len ( buffer , other_buffer )` => `|| -> (o: Ordering) requires buffer@.len() == other_buffer@.len() ensures o == ord(val(buffer@) as int, val(other_buffer@) as int) { cmp_same_len(buffer, other_buffer) }`
    ensures r == ord(self.v() as int, other.v() as int)
@start
proof {
    match (self.rp(), other.rp()) {
        (Small(_), Large(b)) => lemma_large_big(b@),
        (Large(b), Small(_)) => lemma_large_big(b@),
        (Large(a), Large(b)) => { if a@.len() < b@.len() { crate::add_ops::lemma_len_lt(a@, b@); } if b@.len() < a@.len() { crate::add_ops::lemma_len_lt(b@, a@); } }
        _ => {}
    }
}
@fn PartialOrd for UBig::partial_cmp -> r
@pre self.wf() && other.wf()
    ensures r == Some(ord(self.v() as int, other.v() as int))
@fn Ord for IBig::cmp -> r
@pre self.wf() && other.wf()
    ensures r == ord(self.v() as int, other.v() as int)
@fn PartialOrd for IBig::partial_cmp -> r
@pre self.wf() && other.wf()
    ensures r == Some(ord(self.v() as int, other.v() as int))
@fn cmp_same_len -> r
@rewrite `lhs . iter ( ) . rev ( ) . cmp ( rhs . iter ( ) . rev ( ) )` => `{ let vp_r = crate::vp_std::iter_rev_cmp(lhs, rhs); proof {     if vp_r == Ordering::Less { let k = choose|k: int| 0 <= k < lhs@.len() && lhs@[k] < rhs@[k] && lhs@.skip(k + 1) == rhs@.skip(k + 1); lemma_cmp_at(lhs@, rhs@, k); }     if vp_r == Ordering::Greater { let k = choose|k: int| 0 <= k < lhs@.len() && lhs@[k] > rhs@[k] && lhs@.skip(k + 1) == rhs@.skip(k + 1); lemma_cmp_at(rhs@, lhs@, k); } } vp_r }`
    requires lhs.len() == rhs.len()
    ensures r == ord(val(lhs@) as int, val(rhs@) as int)
