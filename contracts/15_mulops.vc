@file mul_ops.rs
@mod
use crate::ubig::*;
use crate::vp_std::*;
@fn UBig::mul_word -> r
    ensures r.wf(), r.v() == a as nat * b as nat
@rewrite `UBig :: from ( extend_word ( a ) * extend_word ( b ) )` => `{ proof { lemma_mul_dw(a, b); } UBig::from(extend_word(a) * extend_word(b)) }`
@fn UBig::mul_large_word -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf(), buffer@.len() >= 2, buffer@.last() != 0
    ensures r.wf(), r.v() == val(buffer@) * a as nat
@start
proof { let x = val(buffer@); assert(x * 0 == 0) by (nonlinear_arith); assert(x * 1 == x) by (nonlinear_arith); let y = a as nat; assert(x * y == y * x) by (nonlinear_arith); }
let ghost b0 = buffer@;
@before `if carry != 0`
let ghost b1 = buffer@;
proof { let p = pw(b0.len()) as int; assert(0 * p == 0) by (nonlinear_arith); }
@after `buffer . push_may_reallocate ( carry ) ;`
proof { lemma_val_push(b1, carry); }
@fn UBig::mul_large -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires 2 <= lhs.len() <= MAXLEN() + 4, 2 <= rhs.len() <= MAXLEN() + 4
    ensures r.wf(), r.v() == val(lhs@) * val(rhs@)
@before `let overflow = mul :: add_signed_mul`
proof { lemma_val_zero(buffer@); }
let ghost b0 = buffer@;
@before `assert ! ( overflow == 0 )`
proof { let p = val(lhs@) * val(rhs@); assert(1 * p == p) by (nonlinear_arith); lemma_prod_bound(lhs@, rhs@); lemma_carry0(buffer@, overflow as int, p as int); }
@for $A $B in UBig,UBig UBig,&~UBig &~UBig,UBig &~UBig,&~UBig
@fn Mul<$B> for $A::mul -> r
@pre self.wf() && rhs.wf()
    ensures r.wf(), r.v() == self.v() * rhs.v()
@start
proof { let (x, y) = (self.v(), rhs.v()); assert(x * y == y * x) by (nonlinear_arith); }
@endfor
@for $A $B in IBig,IBig IBig,&~IBig &~IBig,IBig &~IBig,&~IBig
@fn Mul<$B> for $A::mul -> r
@pre self.wf() && rhs.wf()
@rewrite `mag0 * mag1` => `mag0.mul(mag1)`
    ensures r.wf(), r.v() == self.v() * rhs.v()
@start
proof { lemma_smul(self.sg(), rhs.sg(), self.mag().v(), rhs.mag().v()); let (x, y) = (self.v(), rhs.v()); assert(x * y == y * x) by (nonlinear_arith); }
@endfor
@fn Mul<IBig> for Sign::mul -> r
@pre rhs.wf()
    ensures r.wf(), r.v() == sgn(self) * rhs.v()
@start
proof { lemma_smul(self, rhs.sg(), 1, rhs.mag().v()); let x = rhs.mag().v(); assert(1 * x == x) by (nonlinear_arith); }
@for $T in UBig IBig
@fn MulAssign<$T> for $T::mul_assign
@pre self.wf() && rhs.wf()
    ensures final(self).wf(), final(self).v() == old(self).v() * rhs.v()
@fn MulAssign<& $T> for $T::mul_assign
@pre self.wf() && rhs.wf()
@rewrite `mem :: take ( self ) * rhs` => `mem::take(self).mul(rhs)`
    ensures final(self).wf(), final(self).v() == old(self).v() * rhs.v()
@endfor
@mod
proof fn lemma_mul_dw(a: Word, b: Word) ensures a as nat * b as nat <= $DMAX, a as nat * b as nat == b as nat * a as nat { let (x, y) = (a as int, b as int); assert(x * y <= $DMAX) by (nonlinear_arith) requires 0 <= x <= $MAX, 0 <= y <= $MAX; assert(a as nat * b as nat == b as nat * a as nat) by (nonlinear_arith); }
proof fn lemma_smul(s: Sign, t: Sign, x: nat, y: nat)
    ensures crate::ibig::smul(s, x) * crate::ibig::smul(t, y) == crate::ibig::smul((if s == t { Sign::Positive } else { Sign::Negative }), x * y),
        sgn(s) * crate::ibig::smul(t, y) == crate::ibig::smul((if s == t { Sign::Positive } else { Sign::Negative }), y)
{
    let (a, b) = (x as int, y as int);
    assert((-a) * b == -(a * b)) by (nonlinear_arith); assert(a * (-b) == -(a * b)) by (nonlinear_arith); assert((-a) * (-b) == a * b) by (nonlinear_arith);
}
