@file num_traits.rs
@mod
use crate::vp_std::*;
use vstd::string::*;
use vstd::arithmetic::power::*;
use core::ops::Sub;
proof fn lemma_z() ensures forall|a: IBig, b: IBig| a.wf() && b.wf() ==> (#[trigger] a.sg() == #[trigger] b.sg() && crate::ubig::repr_eq(a.mag().rp(), b.mag().rp())) == (a.v() == b.v())
{ assert forall|a: IBig, b: IBig| a.wf() && b.wf() implies (#[trigger] a.sg() == #[trigger] b.sg() && crate::ubig::repr_eq(a.mag().rp(), b.mag().rp())) == (a.v() == b.v()) by { crate::ibig::lemma_ieq(&a, &b); } }
@for $T in UBig IBig
@fn num_traits::Zero for $T::zero -> r
@method2fn zero_$T $T
    ensures r.wf(), r.v() == 0
@fn num_traits::Zero for $T::is_zero -> r
@method2fn is_zero_$T $T
    requires vp_self.wf()
    ensures r == (vp_self.v() == 0)
@start
broadcast use crate::ubig::lemma_eq;
proof { lemma_z(); }
@fn num_traits::One for $T::one -> r
@method2fn one_$T $T
    ensures r.wf(), r.v() == 1
@fn num_traits::Pow<usize> for $T::pow -> r
@method2fn pow_$T $T
    requires vp_self.wf()
    ensures r.wf(), r.v() == pow(vp_self.v() as int, rhs as nat)
@fn num_traits::Pow<usize> for &$T::pow -> r
@method2fn pow_ref_$T &$T
    requires vp_self.wf()
    ensures r.wf(), r.v() == pow(vp_self.v() as int, rhs as nat)
@endfor
@fn num_traits::Signed for IBig::abs -> r
@method2fn signed_abs IBig
    requires vp_self.wf()
    ensures r.wf(), r.v() == (if vp_self.v() < 0 { -vp_self.v() } else { vp_self.v() })
@fn num_traits::Signed for IBig::abs_sub -> r
@method2fn signed_abs_sub IBig
    requires vp_self.wf(), other.wf()
    ensures r.wf(), r.v() == (if vp_self.v() <= other.v() { 0 } else { vp_self.v() - other.v() })
@fn num_traits::Signed for IBig::signum -> r
@method2fn signed_signum IBig
    requires vp_self.wf()
    ensures r.wf(), r.v() == (if vp_self.v() < 0 { -1 } else if vp_self.v() == 0 { 0 } else { 1int })
@fn num_traits::Signed for IBig::is_positive -> r
@method2fn signed_is_positive IBig
    requires vp_self.wf()
    ensures r == (vp_self.v() > 0)
@fn num_traits::Signed for IBig::is_negative -> r
@method2fn signed_is_negative IBig
    requires vp_self.wf()
    ensures r == (vp_self.v() < 0)
@fn num_traits::Num for UBig::from_str_radix -> r
@method2fn num_from_str_UBig UBig
@panics !crate::vp_radix::radix_ok(radix as int)
    ensures crate::vp_parse::parsed1(r, crate::vp_parse::strip_plus(s.spec_bytes()), radix as int)
@fn num_traits::Num for IBig::from_str_radix -> r
@method2fn num_from_str_IBig IBig
@panics !crate::vp_radix::radix_ok(radix as int)
    ensures crate::vp_parse::parsed_i(r, crate::vp_parse::neg_sign(s.spec_bytes()), crate::vp_parse::strip_sign(s.spec_bytes()), radix as int)
