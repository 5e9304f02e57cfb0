@file div_ops.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::ubig::*;
use crate::vp_std::*;
use vstd::arithmetic::div_mod::*;
/// truncating quotient and remainder
pub open spec fn tq(a: int, b: int) -> int { let (x, y) = (if a < 0 { -a } else { a }, if b < 0 { -b } else { b }); if (a < 0) == (b < 0) { x / y } else { -(x / y) } }
pub open spec fn tr(a: int, b: int) -> int { let (x, y) = (if a < 0 { -a } else { a }, if b < 0 { -b } else { b }); if a < 0 { -(x % y) } else { x % y } }
/// truncating division is division: a == q*b + r, |r| < |b|, r has the sign of a
pub proof fn lemma_trunc(a: int, b: int) requires b != 0
    ensures a == tq(a, b) * b + tr(a, b), -(if b < 0 { -b } else { b }) < tr(a, b) < (if b < 0 { -b } else { b }), tr(a, b) != 0 ==> (tr(a, b) < 0) == (a < 0)
{
    let (x, y) = (if a < 0 { -a } else { a }, if b < 0 { -b } else { b });
    lemma_fundamental_div_mod(x, y); lemma_mod_bound(x, y);
    let q = x / y;
    assert(y * q == q * y) by (nonlinear_arith);
    assert((-q) * y == -(q * y) && q * (-y) == -(q * y) && (-q) * (-y) == q * y) by (nonlinear_arith);
}
/// from truncating to Euclidean division
proof fn lemma_euclid(a: int, b: int) requires b != 0
    ensures 0 <= a % b < (if b < 0 { -b } else { b }),
        a % b == (if tr(a, b) < 0 { tr(a, b) + (if b < 0 { -b } else { b }) } else { tr(a, b) }),
        a / b == (if tr(a, b) < 0 { tq(a, b) - (if b < 0 { -1int } else { 1int }) } else { tq(a, b) }),
{
    lemma_trunc(a, b);
    let q = if tr(a, b) < 0 { tq(a, b) - (if b < 0 { -1int } else { 1int }) } else { tq(a, b) };
    let r = if tr(a, b) < 0 { tr(a, b) + (if b < 0 { -b } else { b }) } else { tr(a, b) };
    let t = tq(a, b);
    assert((t - 1) * b == t * b - b && (t + 1) * b == t * b + b) by (nonlinear_arith);
    assert(a == q * b + r && 0 <= r < (if b < 0 { -b } else { b }));
    assert(q * b == b * q) by (nonlinear_arith);
    let (qq, rr) = (a / b, a % b);
    assert(a == b * qq + rr && 0 <= rr < (if b < 0 { -b } else { b })) by (nonlinear_arith) requires b != 0, qq == a / b, rr == a % b;
    let k = q - qq;
    assert(k * b == rr - r) by (nonlinear_arith) requires b * q + r == b * qq + rr, k == q - qq;
    assert(k == 0) by (nonlinear_arith) requires k * b == rr - r, 0 <= r < (if b < 0 { -b } else { b }), 0 <= rr < (if b < 0 { -b } else { b });
}
proof fn lemma_small_large(x: nat, y: nat) requires x < y ensures x / y == 0, x % y == x { lemma_small_mod(x, y); lemma_basic_div(x as int, y as int); }
proof fn lemma_len(a: Seq<Word>, b: Seq<Word>) requires b.len() >= 2, b.last() != 0 ensures val(b) >= B(), val(b) > 0, a.len() < b.len() ==> val(a) / val(b) == 0 && val(a) % val(b) == val(a), forall|w: Word| #![trigger w as nat / val(b)] #![trigger w as nat % val(b)] w as nat / val(b) == 0 && w as nat % val(b) == w as nat
{
    lemma_large_big(b);
    if a.len() < b.len() { crate::add_ops::lemma_len_lt(a, b); lemma_small_large(val(a), val(b)); }
    assert forall|w: Word| #![trigger w as nat / val(b)] #![trigger w as nat % val(b)] w as nat / val(b) == 0 && w as nat % val(b) == w as nat by { lemma_small_large(w as nat, val(b)); }
}
@trusted panic_divide_by_0
    requires crate::vp_std::may_panic()
    ensures false
@fn UBig::div_word -> r
@panics rhs == 0
    ensures r.wf(), r.v() == lhs as nat / rhs as nat
@fn UBig::rem_word -> r
@panics rhs == 0
    ensures r.wf(), r.v() == lhs as nat % rhs as nat
@fn UBig::div_rem_word -> r
@panics rhs == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == lhs as nat / rhs as nat, r.1.v() == lhs as nat % rhs as nat
@fn UBig::div_large_word -> r
@panics rhs == 0
    requires lhs.wf(), lhs@.len() >= 2, lhs@.last() != 0
    ensures r.wf(), r.v() == val(lhs@) / rhs as nat
@fn UBig::rem_large_word -> r
@panics rhs == 0
    ensures r.wf(), r.v() == val(lhs@) % rhs as nat
@fn UBig::div_rem_large_word -> r
@panics rhs == 0
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf(), buffer@.len() >= 2, buffer@.last() != 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == val(buffer@) / rhs as nat, r.1.v() == val(buffer@) % rhs as nat
@start
let ghost b0 = buffer@;
@before `( buffer . into`
proof { lemma_quot(val(b0), val(buffer@), rhs as nat, rem as nat); }
@mod
proof fn lemma_lhs(w0: Seq<Word>, v: nat, w2: Seq<Word>, r: Seq<Word>, s: nat, w: Seq<Word>, c: bool)
    requires r.len() <= w2.len(), is_div(w2, w, r, c), val(w2) == val(w0) * p2(s), val(r) == v * p2(s)
    ensures ({ let wc = if c { w.push(1) } else { w }; let n = r.len() as int; val(w0) == val(wc.skip(n)) * v + val(wc.take(n)) / p2(s) && val(wc.take(n)) / p2(s) < v && val(wc.take(n)) % p2(s) == 0 })
{
    reveal(is_div);
    let n = r.len() as int; let wc = if c { w.push(1) } else { w };
    lemma_p2_pos(s);
    assert(wc.take(n) =~= w.take(n));
    if c { assert(wc.skip(n) =~= w.skip(n).push(1)); lemma_val_push(w.skip(n), 1); }
    let pl = pw((w2.len() - n) as nat) as int; assert(0 * pl == 0 && 1 * pl == pl);
    lemma_dw_end(val(w0), val(wc.skip(n)), val(r), p2(s), v, val(wc.take(n)));
}
/// what div_rem_in_lhs leaves behind
spec fn in_lhs(w0: Seq<Word>, v: nat, n: int, w: Seq<Word>, s: nat) -> bool {
    w.len() >= n && val(w0) == val(w.skip(n)) * v + val(w.take(n)) / p2(s) && val(w.take(n)) / p2(s) < v && val(w.take(n)) % p2(s) == 0
}
@fn UBig::div_rem_in_lhs -> s
    requires old(lhs).wf(), old(rhs).wf(), old(rhs)@.len() >= 2, old(lhs)@.len() >= old(rhs)@.len(), old(rhs)@.last() != 0
    ensures final(lhs).wf(), final(rhs).wf(), final(rhs)@.len() == old(rhs)@.len(), final(rhs).cap() == old(rhs).cap(), s < $BITS, in_lhs(old(lhs)@, val(old(rhs)@), old(rhs)@.len() as int, final(lhs)@, s as nat)
@start
let ghost w0 = lhs@;
let ghost v = val(rhs@);
@before `if lhs_carry != 0`
let ghost w1 = lhs@;
proof { lemma_val_push(w1, lhs_carry); let p = pw(w1.len()) as int; assert(0 * p == 0); }
@before `let mut allocation =`
let ghost w2 = lhs@;
@before `if overflow`
proof { lemma_lhs(w0, v, w2, rhs@, shift as nat, lhs@, overflow); }
@fn UBig::div_large -> r
@rewrite `lhs . into ( )` => `UBig::from(lhs)`
    requires lhs.wf(), rhs.wf(), rhs@.len() >= 2, lhs@.len() >= rhs@.len(), rhs@.last() != 0, lhs@.last() != 0
    ensures r.wf(), r.v() == val(lhs@) / val(rhs@)
@start
let ghost (w0, r0) = (lhs@, rhs@);
@after `lhs . erase_front ( rhs . len ( ) ) ;`
proof { lemma_quot(val(w0), val(lhs@), val(r0), val(w1.take(r0.len() as int)) / p2(_shift as nat)); }
@before `lhs . erase_front ( rhs . len ( ) ) ;`
let ghost w1 = lhs@;
@fn UBig::rem_large -> r
@rewrite `rhs . into ( )` => `UBig::from(rhs)`
    requires lhs.wf(), rhs.wf(), rhs@.len() >= 2, lhs@.len() >= rhs@.len(), rhs@.last() != 0, lhs@.last() != 0
    ensures r.wf(), r.v() == val(lhs@) % val(rhs@)
@start
let ghost (w0, r0) = (lhs@, rhs@);
@before `let low_bits`
proof { assert(rhs@ =~= lhs@.take(n as int)); }
@before `debug_assert !`
proof { lemma_quot(val(w0), val(lhs@.skip(n as int)), val(r0), val(rhs@)); }
@fn UBig::div_rem_large -> r
@rewrite `( lhs . into ( ) , rhs . into ( ) )` => `(UBig::from(lhs), UBig::from(rhs))`
    requires lhs.wf(), rhs.wf(), rhs@.len() >= 2, lhs@.len() >= rhs@.len(), rhs@.last() != 0, lhs@.last() != 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == val(lhs@) / val(rhs@), r.1.v() == val(lhs@) % val(rhs@)
@start
let ghost (w0, r0) = (lhs@, rhs@);
@before `let low_bits`
proof { assert(rhs@ =~= lhs@.take(n as int)); }
@before `debug_assert !`
proof { lemma_quot(val(w0), val(lhs@.skip(n as int)), val(r0), val(rhs@)); }
@fn Div<UBig> for UBig::div -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.wf(), r.v() == self.v() / rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn Rem<UBig> for UBig::rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `buffer0 . into ( )` => `UBig::from(buffer0)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn DivRem<UBig> for UBig::div_rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `buffer0 . into ( )` => `UBig::from(buffer0)`
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn Div<& UBig> for UBig::div -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.wf(), r.v() == self.v() / rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn Rem<& UBig> for UBig::rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `buffer0 . into ( )` => `UBig::from(buffer0)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn DivRem<& UBig> for UBig::div_rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `buffer0 . into ( )` => `UBig::from(buffer0)`
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn Div<UBig> for & UBig::div -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.wf(), r.v() == self.v() / rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn Rem<UBig> for & UBig::rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `buffer1 . into ( )` => `UBig::from(buffer1)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn DivRem<UBig> for & UBig::div_rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `buffer1 . into ( )` => `UBig::from(buffer1)`
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn Div<& UBig> for & UBig::div -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.wf(), r.v() == self.v() / rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn Rem<& UBig> for & UBig::rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.wf(), r.v() == self.v() % rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn DivRem<& UBig> for & UBig::div_rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@start
proof { if let Large(b) = rhs.rp() { match self.rp() { Large(a) => lemma_len(a@, b@), Small(w) => lemma_len(seq![w], b@) } if let Large(a) = self.rp() { lemma_large_big(a@); } } }
@fn DivAssign<UBig> for UBig::div_assign
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mem :: take ( self ) / rhs` => `mem::take(self).div(rhs)`
    ensures final(self).wf(), final(self).v() == old(self).v() / rhs.v()
@fn DivAssign<IBig> for IBig::div_assign
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mem :: take ( self ) / rhs` => `mem::take(self).div(rhs)`
    ensures final(self).wf(), final(self).v() == tq(old(self).v(), rhs.v())
@fn RemAssign<UBig> for UBig::rem_assign
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mem :: take ( self ) % rhs` => `mem::take(self).rem(rhs)`
    ensures final(self).wf(), final(self).v() == old(self).v() % rhs.v()
@fn RemAssign<IBig> for IBig::rem_assign
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mem :: take ( self ) % rhs` => `mem::take(self).rem(rhs)`
    ensures final(self).wf(), final(self).v() == tr(old(self).v(), rhs.v())
@fn DivAssign<& UBig> for UBig::div_assign
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mem :: take ( self ) / rhs` => `mem::take(self).div(rhs)`
    ensures final(self).wf(), final(self).v() == old(self).v() / rhs.v()
@fn DivAssign<& IBig> for IBig::div_assign
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mem :: take ( self ) / rhs` => `mem::take(self).div(rhs)`
    ensures final(self).wf(), final(self).v() == tq(old(self).v(), rhs.v())
@fn RemAssign<& UBig> for UBig::rem_assign
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mem :: take ( self ) % rhs` => `mem::take(self).rem(rhs)`
    ensures final(self).wf(), final(self).v() == old(self).v() % rhs.v()
@fn RemAssign<& IBig> for IBig::rem_assign
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mem :: take ( self ) % rhs` => `mem::take(self).rem(rhs)`
    ensures final(self).wf(), final(self).v() == tr(old(self).v(), rhs.v())
@fn DivEuclid<UBig> for UBig::div_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self / rhs` => `self.div(rhs)`
    ensures r.wf(), r.v() == self.v() / rhs.v()
@fn RemEuclid<UBig> for UBig::rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self % rhs` => `self.rem(rhs)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@fn DivRemEuclid<UBig> for UBig::div_rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@fn DivEuclid<& UBig> for UBig::div_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self / rhs` => `self.div(rhs)`
    ensures r.wf(), r.v() == self.v() / rhs.v()
@fn RemEuclid<& UBig> for UBig::rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self % rhs` => `self.rem(rhs)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@fn DivRemEuclid<& UBig> for UBig::div_rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@fn DivEuclid<UBig> for & UBig::div_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self / rhs` => `self.div(rhs)`
    ensures r.wf(), r.v() == self.v() / rhs.v()
@fn RemEuclid<UBig> for & UBig::rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self % rhs` => `self.rem(rhs)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@fn DivRemEuclid<UBig> for & UBig::div_rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@fn DivEuclid<& UBig> for & UBig::div_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self / rhs` => `self.div(rhs)`
    ensures r.wf(), r.v() == self.v() / rhs.v()
@fn RemEuclid<& UBig> for & UBig::rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self % rhs` => `self.rem(rhs)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@fn DivRemEuclid<& UBig> for & UBig::div_rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@fn Div<IBig> for IBig::div -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mag0 / mag1` => `mag0.div(mag1)`
    ensures r.wf(), r.v() == tq(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn Rem<IBig> for IBig::rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mag0 % mag1` => `mag0.rem(mag1)`
    ensures r.wf(), r.v() == tr(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn DivRem<IBig> for IBig::div_rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == tq(self.v(), rhs.v()), r.1.v() == tr(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn DivEuclid<IBig> for IBig::div_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.wf(), r.v() == self.v() / rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
let ghost (a0, b0) = (self.v(), rhs.v());
@before `match r . sign ( )`
proof { assert(r.v() == tr(a0, b0)); assert(q.v() == tq(a0, b0)); assert((r.sg() == Negative) == (r.v() < 0)); assert(s.v() == (if b0 < 0 { -1int } else { 1 })); }
@fn RemEuclid<IBig> for IBig::rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self % & rhs` => `self.rem(&rhs)`
@rewrite `self % rhs` => `self.rem(rhs)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn DivRemEuclid<IBig> for IBig::div_rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn Div<& IBig> for IBig::div -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mag0 / mag1` => `mag0.div(mag1)`
    ensures r.wf(), r.v() == tq(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn Rem<& IBig> for IBig::rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mag0 % mag1` => `mag0.rem(mag1)`
    ensures r.wf(), r.v() == tr(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn DivRem<& IBig> for IBig::div_rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == tq(self.v(), rhs.v()), r.1.v() == tr(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn DivEuclid<& IBig> for IBig::div_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.wf(), r.v() == self.v() / rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn RemEuclid<& IBig> for IBig::rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self % & rhs` => `self.rem(&rhs)`
@rewrite `self % rhs` => `self.rem(rhs)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn DivRemEuclid<& IBig> for IBig::div_rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn Div<IBig> for & IBig::div -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mag0 / mag1` => `mag0.div(mag1)`
    ensures r.wf(), r.v() == tq(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn Rem<IBig> for & IBig::rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mag0 % mag1` => `mag0.rem(mag1)`
    ensures r.wf(), r.v() == tr(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn DivRem<IBig> for & IBig::div_rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == tq(self.v(), rhs.v()), r.1.v() == tr(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn DivEuclid<IBig> for & IBig::div_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.wf(), r.v() == self.v() / rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn RemEuclid<IBig> for & IBig::rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self % & rhs` => `self.rem(&rhs)`
@rewrite `self % rhs` => `self.rem(rhs)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn DivRemEuclid<IBig> for & IBig::div_rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn Div<& IBig> for & IBig::div -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mag0 / mag1` => `mag0.div(mag1)`
    ensures r.wf(), r.v() == tq(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn Rem<& IBig> for & IBig::rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `mag0 % mag1` => `mag0.rem(mag1)`
    ensures r.wf(), r.v() == tr(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn DivRem<& IBig> for & IBig::div_rem -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == tq(self.v(), rhs.v()), r.1.v() == tr(self.v(), rhs.v())
@start
proof { lemma_zero(self.mag().v(), rhs.mag().v()); }
@fn DivEuclid<& IBig> for & IBig::div_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.wf(), r.v() == self.v() / rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn RemEuclid<& IBig> for & IBig::rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
@rewrite `self % & rhs` => `self.rem(&rhs)`
@rewrite `self % rhs` => `self.rem(rhs)`
    ensures r.wf(), r.v() == self.v() % rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@fn DivRemEuclid<& IBig> for & IBig::div_rem_euclid -> r
@pre self.wf() && rhs.wf()
@panics rhs.v() == 0
    ensures r.0.wf(), r.1.wf(), r.0.v() == self.v() / rhs.v(), r.1.v() == self.v() % rhs.v()
@start
proof { if rhs.v() != 0 { lemma_euclid(self.v(), rhs.v()); } }
@mod
proof fn lemma_zero(x: nat, y: nat) ensures x == 0 && y > 0 ==> x / y == 0 && x % y == 0 { if x == 0 && y > 0 { lemma_small_large(x, y); } }
use crate::div::*;
