@file sign.rs
@mod
impl vstd::std_specs::cmp::PartialEqSpecImpl for Sign {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Sign) -> bool { *self == *other }
}
pub open spec fn sneg(s: Sign) -> Sign { match s { Positive => Negative, Negative => Positive } }
@fn Neg for Sign::neg -> r
    ensures r == sneg(self)
@fn IBig::signum -> r
    requires self.wf()
    ensures r.wf(), r.v() == (if self.v() > 0 { 1int } else if self.v() == 0 { 0 } else { -1 })
@start
broadcast use crate::ubig::lemma_eq;
@fn Neg for IBig::neg -> r
@pre self.wf()
    ensures r.wf(), r.v() == -self.v()
@fn Neg for & IBig::neg -> r
@pre self.wf()
    ensures r.wf(), r.v() == -self.v()
@fn Abs for IBig::abs -> r
@pre self.wf()
    ensures r.wf(), r.v() == (if self.v() >= 0 { self.v() } else { -self.v() })
@fn Abs for & IBig::abs -> r
@pre self.wf()
    ensures r.wf(), r.v() == (if self.v() >= 0 { self.v() } else { -self.v() })
@fn UnsignedAbs for IBig::unsigned_abs -> r
@pre self.wf()
    ensures r.wf(), r.v() == (if self.v() >= 0 { self.v() } else { -self.v() })
@fn UnsignedAbs for & IBig::unsigned_abs -> r
@pre self.wf()
    ensures r.wf(), r.v() == (if self.v() >= 0 { self.v() } else { -self.v() })
@file ops.rs
@item trait Abs
@item trait UnsignedAbs
@item trait AndNot
@item trait DivRem
@item trait DivEuclid
@item trait RemEuclid
@item trait DivRemEuclid
@file ubig.rs
@mod
pub open spec fn repr_eq(a: Repr, b: Repr) -> bool { match (a, b) { (Small(x), Small(y)) => x == y, (Large(x), Large(y)) => x@ == y@, _ => false } }
// derive(PartialEq): field-wise comparison
impl vstd::std_specs::cmp::PartialEqSpecImpl for Repr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Repr) -> bool { repr_eq(*self, *other) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for UBig {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &UBig) -> bool { repr_eq(self.rp(), other.rp()) }
}
/// Derived equality of canonical numbers is equality of values.
pub broadcast proof fn lemma_eq(a: &UBig, b: &UBig)
    requires a.wf(), b.wf()
    ensures #[trigger] repr_eq(a.rp(), b.rp()) == (a.v() == b.v())
{
    if a.v() == b.v() { lemma_canonical(a, b); }
}
@file ibig.rs
@item struct IBig strip Clone
@mod
impl IBig {
    pub closed spec fn sg(&self) -> Sign { self.sign }
    pub closed spec fn mag(&self) -> UBig { self.magnitude }
    pub open spec fn v(&self) -> int { match self.sg() { Positive => self.mag().v() as int, Negative => -(self.mag().v() as int) } }
    /// Canonical form: canonical magnitude, no negative zero.
    pub open spec fn wf(&self) -> bool { self.mag().wf() && (self.sg() == Negative ==> self.mag().v() > 0) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for IBig {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &IBig) -> bool { self.sg() == other.sg() && crate::ubig::repr_eq(self.mag().rp(), other.mag().rp()) }
}
pub proof fn lemma_ieq(a: &IBig, b: &IBig)
    requires a.wf(), b.wf()
    ensures (a.sg() == b.sg() && crate::ubig::repr_eq(a.mag().rp(), b.mag().rp())) == (a.v() == b.v())
{ crate::ubig::lemma_eq(&a.mag(), &b.mag()); }
// derive(Clone), expanded
impl Clone for IBig {
    fn clone(&self) -> (r: IBig) ensures self.wf() ==> r.wf() && r.v() == self.v() && r.sg() == self.sg()
    { IBig { sign: self.sign, magnitude: self.magnitude.clone() } }
}
pub(crate) open spec fn smul(s: Sign, m: nat) -> int { match s { Positive => m as int, Negative => -(m as int) } }
@fn IBig::from_sign_magnitude -> r
    requires magnitude.wf()
    ensures r.wf(), r.v() == smul(sign, magnitude.v())
@start
broadcast use crate::ubig::lemma_eq;
@fn IBig::sign -> r
    ensures r == self.sg()
@fn IBig::magnitude -> r
    ensures *r == self.mag()
@fn IBig::into_sign_magnitude -> r
    ensures r == (self.sg(), self.mag())
@file convert.rs
@fn Default for UBig::default -> r
    ensures r.wf(), r.v() == 0
@fn Default for IBig::default -> r
@rewrite `IBig :: from ( 0u8 )` => `ibig_from_unsigned_u8(0u8)`
    ensures r.wf(), r.v() == 0
@fn From < UBig > for IBig::from -> r
@pre x.wf()
    ensures r.wf(), r.v() == x.v()
@fn From < & UBig > for IBig::from -> r
@pre x.wf()
    ensures r.wf(), r.v() == x.v()
@mod
@file vp_bytes.rs
@mod
use crate::vp_math::*;
/// The number a little-endian byte string denotes.
pub open spec fn bval(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * bval(s.skip(1)) } }
/// x.to_le_bytes(), x.try_into(), .. on primitives (documented behaviour of core).
@for $T $N in u8,1 u16,2 u32,4 u64,8 u128,16 usize,8
#[verifier::external_body]
pub fn $T_to_le_bytes(x: $T) -> (r: [u8; $N]) ensures bval(r@) == x, r@.len() == $N { x.to_le_bytes() }
#[verifier::external_body]
pub fn $T_try_into_word(x: $T) -> (r: Result<Word, ()>) ensures match r { Ok(w) => w as nat == x as nat, Err(_) => x as nat >= B() } { x.try_into().map_err(|_| ()) }
#[verifier::external_body]
pub fn word_try_into_$T(x: Word) -> (r: Result<$T, ()>) ensures match r { Ok(w) => w as nat == x as nat, Err(_) => x as nat > $T::MAX as nat } { x.try_into().map_err(|_| ()) }
@endfor
@file vp_std.rs
@mod
/// "The caller is allowed to panic": a documented panic is reachable only where the function's documented condition grants it.
pub uninterp spec fn may_panic() -> bool;
pub assume_specification [u8::wrapping_neg] (x: u8) -> (r: u8) ensures r as int == (if x == 0 { 0 } else { 0x100 - x });
pub assume_specification [u128::wrapping_neg] (x: u128) -> (r: u128) ensures r as int == (if x == 0 { 0 } else { u128::MAX as int + 1 - x });
pub assume_specification [usize::wrapping_neg] (x: usize) -> (r: usize) ensures r as int == (if x == 0 { 0 } else { usize::MAX as int + 1 - x });
@file primitive.rs
@for $S $T $M in i8,u8,0x100int i16,u16,0x1_0000int i32,u32,0x1_0000_0000int i64,u64,0x1_0000_0000_0000_0000int i128,u128,0x1_0000_0000_0000_0000_0000_0000_0000_0000int isize,usize,0x1_0000_0000_0000_0000int
@fn PrimitiveSigned for $S::to_sign_magnitude -> r
@method2fn $S_to_sign_magnitude $S Self::Unsigned=$T
    ensures vp_self as int == crate::ibig::smul(r.0, r.1 as nat)
@start
proof {
    let x = vp_self;
    assert(x < 0 ==> (x as $T) as int == x as int + $M) by (bit_vector);
    assert(x >= 0 ==> (x as $T) as int == x as int) by (bit_vector);
}
@endfor
@file convert.rs
@expand ubig_unsigned_conversions
@expand ibig_unsigned_conversions
@expand ibig_signed_conversions
@for $T in u8 u16 u32 u64 u128 usize
@fn UBig::from_unsigned -> r
@mono T=$T as ubig_from_unsigned_$T
@method2fn ubig_from_unsigned_$T UBig
@rewrite `x . try_into ( )` => `crate::vp_bytes::$T_try_into_word(x)`
@rewrite `x . to_le_bytes ( )` => `crate::vp_bytes::$T_to_le_bytes(x)`
@rewrite `repr . as_ref ( )` => `&repr`
    ensures r.wf(), r.v() == x
@fn IBig::from_unsigned -> r
@mono T=$T as ibig_from_unsigned_$T
@method2fn ibig_from_unsigned_$T IBig
@rewrite `UBig :: from_unsigned ( x )` => `ubig_from_unsigned_$T(x)`
    ensures r.wf(), r.v() == x
@fn From < $T > for UBig::from -> r
@rewrite `UBig :: from_unsigned ( value )` => `ubig_from_unsigned_$T(value)`
    ensures r.wf(), r.v() == value
@fn From < $T > for IBig::from -> r
@rewrite `IBig :: from_unsigned ( value )` => `ibig_from_unsigned_$T(value)`
    ensures r.wf(), r.v() == value
@mod
@endfor
@for $S $T in i8,u8 i16,u16 i32,u32 i64,u64 i128,u128 isize,usize
@fn IBig::from_signed -> r
@mono T=$S as ibig_from_signed_$S
@method2fn ibig_from_signed_$S IBig
@rewrite `x . to_sign_magnitude ( )` => `crate::primitive::$S_to_sign_magnitude(x)`
@rewrite `UBig :: from_unsigned ( mag )` => `ubig_from_unsigned_$T(mag)`
    ensures r.wf(), r.v() == x
@fn From < $S > for IBig::from -> r
@rewrite `IBig :: from_signed ( value )` => `ibig_from_signed_$S(value)`
    ensures r.wf(), r.v() == value
@mod
@endfor
@trusted UBig::panic_negative
    requires crate::vp_std::may_panic()
