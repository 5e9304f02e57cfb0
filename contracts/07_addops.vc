@file add_ops.rs
@mod
use crate::vp_math::*;
broadcast use crate::vp_math::lemma_mul_small;
use crate::vp_std::*;
use crate::ubig::*;
@fn UBig::add_word -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    ensures r.wf(), r.v() == a as nat + b as nat
@after `buffer . push ( 1 ) ;`
proof { lemma_val_two(buffer@); }
@fn UBig::add_large_word -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf(), buffer@.len() >= 2
    ensures r.wf(), r.v() == val(buffer@) + rhs as nat
@start
let ghost b0 = buffer@;
let ghost b1;
@rewrite `add :: add_word_in_place ( & mut buffer , rhs )` => `{ let vp_c = add::add_word_in_place(&mut buffer, rhs); proof { b1 = buffer@; } vp_c }`
@after `buffer . push_may_reallocate ( 1 ) ;`
proof { lemma_val_push(b1, 1); lemma_push_one(b1); }
@fn UBig::add_large -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
@rewrite `buffer . extend ( & rhs [ n .. ] )` => `crate::buffer::buffer_extend_ref(&mut buffer, &rhs[n..])`
@rewrite `overflow && add :: add_one_in_place ( & mut buffer [ n .. ] )` => `{ let ghost bm = buffer@; let vp_c = overflow && add::add_one_in_place(&mut buffer[n..]); proof { lemma_add_hi(b0, rhs@, bm, buffer@, n as int, overflow, vp_c); b1 = buffer@; } vp_c }`
    requires buffer.wf()
    ensures r.wf(), r.v() == val(buffer@) + val(rhs@)
@start
let ghost b0 = buffer@;
let ghost b1;
let ghost ba;
@after `add :: add_same_len_in_place ( & mut buffer [ .. n ] , & rhs [ .. n ] ) ;`
proof { ba = buffer@; assert(ba.skip(n as int) =~= b0.skip(n as int)); }
@before `if overflow`
proof { assert(buffer@.take(n as int) =~= ba.take(n as int)); if rhs.len() > n { assert(ba.skip(n as int) =~= Seq::empty()); assert(buffer@.skip(n as int) =~= rhs@.skip(n as int)); } else { assert(b0.len() >= rhs.len()); if b0.len() == rhs.len() { assert(b0.skip(n as int) =~= rhs@.skip(n as int)); } } }
@after `buffer . push_may_reallocate ( 1 ) ;`
proof { lemma_push_one(b1); }
@fn UBig::sub_word -> r
@panics a < b
    ensures r.wf(), r.v() == a as nat - b as nat
@fn UBig::sub_large_word -> r
@rewrite `lhs . into ( )` => `UBig::from(lhs)`
    requires lhs.wf(), lhs@.len() >= 2, lhs@.last() != 0
    ensures r.wf(), r.v() == val(lhs@) - rhs as nat
@start
proof { lemma_large_big(lhs@); }
let ghost b0 = lhs@;
@before `assert ! ( ! overflow ) ;`
proof { lemma_val_bound(lhs@); }
@fn UBig::sub_large -> r
@panics val(lhs@) < val(rhs@)
@rewrite `lhs . into ( )` => `UBig::from(lhs)`
@rewrite `UBig :: panic_negative ( )` => `{ proof { if l0.len() < rhs@.len() { lemma_len_lt(l0, rhs@); } else { lemma_val_bound(lhs@); } assert(val(l0) < val(rhs@)); } UBig::panic_negative() }`
    requires lhs.wf(), lhs@.len() > 0, rhs.len() > 0, rhs@.last() != 0
    ensures r.wf(), r.v() == val(lhs@) - val(rhs@)
@start
let ghost l0 = lhs@;
@fn UBig::sub_large_ref_val -> r
@panics val(lhs@) < val(rhs@)
@rewrite `rhs . into ( )` => `UBig::from(rhs)`
@rewrite `rhs . extend ( & lhs [ n .. ] )` => `crate::buffer::buffer_extend_ref(&mut rhs, &lhs[n..])`
@rewrite `borrow && add :: sub_one_in_place ( & mut rhs [ n .. ] )` => `{ let ghost bm = rhs@; let vp_c = borrow && add::sub_one_in_place(&mut rhs[n..]); proof { lemma_sub_hi(lhs@, r0, bm, rhs@, n as int, borrow, vp_c); } vp_c }`
@rewrite `UBig :: panic_negative ( )` => `{ proof { if lhs.len() < n { lemma_len_lt(lhs@, r0); } else { lemma_val_bound(rhs@); } assert(val(lhs@) < val(r0)); } UBig::panic_negative() }`
    requires rhs.wf(), rhs@.len() > 0, rhs@.last() != 0, lhs.len() > 0
    ensures r.wf(), r.v() == val(lhs@) - val(rhs@)
@start
let ghost r0 = rhs@;
let ghost ba;
@after `add :: sub_same_len_in_place_swap ( & lhs [ .. n ] , & mut rhs ) ;`
proof { ba = rhs@; }
@before `if borrow`
proof { assert(rhs@.take(n as int) =~= ba); assert(rhs@.skip(n as int) =~= lhs@.skip(n as int)); }
@fn Add<UBig> for UBig::add -> r
@pre self.wf() && rhs.wf()
    ensures r.wf(), r.v() == self.v() + rhs.v()
@fn Add<& UBig> for UBig::add -> r
@pre self.wf() && rhs.wf()
    ensures r.wf(), r.v() == self.v() + rhs.v()
@fn Add<UBig> for & UBig::add -> r
@pre self.wf() && rhs.wf()
    ensures r.wf(), r.v() == self.v() + rhs.v()
@fn Add<& UBig> for & UBig::add -> r
@pre self.wf() && rhs.wf()
    ensures r.wf(), r.v() == self.v() + rhs.v()
@fn Sub<UBig> for UBig::sub -> r
@pre self.wf() && rhs.wf()
@panics self.v() < rhs.v()
    ensures r.wf(), r.v() == self.v() - rhs.v()
@start
proof { if let Large(b) = rhs.rp() { lemma_large_big(b@); } }
@fn Sub<& UBig> for UBig::sub -> r
@pre self.wf() && rhs.wf()
@panics self.v() < rhs.v()
    ensures r.wf(), r.v() == self.v() - rhs.v()
@start
proof { if let Large(b) = rhs.rp() { lemma_large_big(b@); } }
@fn Sub<UBig> for & UBig::sub -> r
@pre self.wf() && rhs.wf()
@panics self.v() < rhs.v()
    ensures r.wf(), r.v() == self.v() - rhs.v()
@start
proof { if let Large(b) = rhs.rp() { lemma_large_big(b@); } }
@fn Sub<& UBig> for & UBig::sub -> r
@pre self.wf() && rhs.wf()
@panics self.v() < rhs.v()
    ensures r.wf(), r.v() == self.v() - rhs.v()
@start
proof { if let Large(b) = rhs.rp() { lemma_large_big(b@); } }
@fn AddAssign<UBig> for UBig::add_assign
@pre self.wf() && rhs.wf()
    ensures final(self).wf(), final(self).v() == old(self).v() + rhs.v()
@fn AddAssign<IBig> for IBig::add_assign
@pre self.wf() && rhs.wf()
    ensures final(self).wf(), final(self).v() == old(self).v() + rhs.v()
@fn AddAssign<& UBig> for UBig::add_assign
@pre self.wf() && rhs.wf()
@rewrite `mem :: take ( self ) + rhs` => `mem::take(self).add(rhs)`
    ensures final(self).wf(), final(self).v() == old(self).v() + rhs.v()
@fn AddAssign<& IBig> for IBig::add_assign
@pre self.wf() && rhs.wf()
@rewrite `mem :: take ( self ) + rhs` => `mem::take(self).add(rhs)`
    ensures final(self).wf(), final(self).v() == old(self).v() + rhs.v()
@fn Add<IBig> for IBig::add -> r
@pre self.wf() && rhs.wf()
@rewrite `mag0 + mag1` => `mag0.add(mag1)`
@rewrite `self + - rhs` => `self.add(-rhs)`
@rewrite `- self + rhs` => `(-self).add(rhs)`
    ensures r.wf(), r.v() == self.v() + rhs.v()
@fn Add<& IBig> for IBig::add -> r
@pre self.wf() && rhs.wf()
@rewrite `mag0 + mag1` => `mag0.add(mag1)`
@rewrite `self + - rhs` => `self.add(-rhs)`
@rewrite `- self + rhs` => `(-self).add(rhs)`
    ensures r.wf(), r.v() == self.v() + rhs.v()
@fn Add<IBig> for & IBig::add -> r
@pre self.wf() && rhs.wf()
@rewrite `mag0 + mag1` => `mag0.add(mag1)`
@rewrite `self + - rhs` => `self.add(-rhs)`
@rewrite `- self + rhs` => `(-self).add(rhs)`
    ensures r.wf(), r.v() == self.v() + rhs.v()
@fn Add<& IBig> for & IBig::add -> r
@pre self.wf() && rhs.wf()
@rewrite `mag0 + mag1` => `mag0.add(mag1)`
@rewrite `self + - rhs` => `self.add(-rhs)`
@rewrite `- self + rhs` => `(-self).add(rhs)`
    ensures r.wf(), r.v() == self.v() + rhs.v()
@fn SubAssign<UBig> for UBig::sub_assign
@pre self.wf() && rhs.wf()
@panics self.v() < rhs.v()
    ensures final(self).wf(), final(self).v() == old(self).v() - rhs.v()
@fn SubAssign<IBig> for IBig::sub_assign
@pre self.wf() && rhs.wf()
    ensures final(self).wf(), final(self).v() == old(self).v() - rhs.v()
@fn SubAssign<& UBig> for UBig::sub_assign
@pre self.wf() && rhs.wf()
@panics self.v() < rhs.v()
@rewrite `mem :: take ( self ) - rhs` => `mem::take(self).sub(rhs)`
    ensures final(self).wf(), final(self).v() == old(self).v() - rhs.v()
@fn SubAssign<& IBig> for IBig::sub_assign
@pre self.wf() && rhs.wf()
@rewrite `mem :: take ( self ) - rhs` => `mem::take(self).sub(rhs)`
    ensures final(self).wf(), final(self).v() == old(self).v() - rhs.v()
@fn Sub<IBig> for IBig::sub -> r
@pre self.wf() && rhs.wf()
@rewrite `mag0 + mag1` => `mag0.add(mag1)`
@rewrite `self + - rhs` => `self.add(-rhs)`
@rewrite `- self + rhs` => `(-self).add(rhs)`
    ensures r.wf(), r.v() == self.v() - rhs.v()
@fn Sub<& IBig> for IBig::sub -> r
@pre self.wf() && rhs.wf()
@rewrite `mag0 + mag1` => `mag0.add(mag1)`
@rewrite `self + - rhs` => `self.add(-rhs)`
@rewrite `- self + rhs` => `(-self).add(rhs)`
    ensures r.wf(), r.v() == self.v() - rhs.v()
@fn Sub<IBig> for & IBig::sub -> r
@pre self.wf() && rhs.wf()
@rewrite `mag0 + mag1` => `mag0.add(mag1)`
@rewrite `self + - rhs` => `self.add(-rhs)`
@rewrite `- self + rhs` => `(-self).add(rhs)`
    ensures r.wf(), r.v() == self.v() - rhs.v()
@fn Sub<& IBig> for & IBig::sub -> r
@pre self.wf() && rhs.wf()
@rewrite `mag0 + mag1` => `mag0.add(mag1)`
@rewrite `self + - rhs` => `self.add(-rhs)`
@rewrite `- self + rhs` => `(-self).add(rhs)`
    ensures r.wf(), r.v() == self.v() - rhs.v()
@fn IBig::sub_ubig_val_val -> r
    requires lhs.wf(), rhs.wf()
    ensures r.wf(), r.v() == lhs.v() - rhs.v()
@fn IBig::sub_ubig_val_ref -> r
    requires lhs.wf(), rhs.wf()
    ensures r.wf(), r.v() == lhs.v() - rhs.v()
@fn IBig::sub_ubig_ref_ref -> r
    requires lhs.wf(), rhs.wf()
    ensures r.wf(), r.v() == lhs.v() - rhs.v()
@fn IBig::sub_word_word -> r
    ensures r.wf(), r.v() == lhs as int - rhs as int
@fn IBig::sub_large_word -> r
@rewrite `UBig :: sub_large_word ( lhs , rhs ) . into ( )` => `IBig::from(UBig::sub_large_word(lhs, rhs))`
    requires lhs.wf(), lhs@.len() >= 2, lhs@.last() != 0
    ensures r.wf(), r.v() == val(lhs@) - rhs as int
@fn IBig::sub_large -> r
@rewrite `lhs . into ( )` => `UBig::from(lhs)`
    requires lhs.wf(), lhs@.len() >= 2, rhs.len() >= 2, lhs@.last() != 0, rhs@.last() != 0
    ensures r.wf(), r.v() == val(lhs@) - val(rhs@)
@start
proof { if lhs@.len() < rhs@.len() { lemma_len_lt(lhs@, rhs@); } }
@mod
pub proof fn lemma_val_two(s: Seq<Word>) requires s.len() == 2 ensures val(s) == s[0] as nat + B() * s[1] as nat
{
    assert(s =~= seq![s[0]].push(s[1])); lemma_val_one(s[0]); lemma_val_push(seq![s[0]], s[1]); lemma_pw1();
    let y = s[1] as nat; assert(B() * y == y * B()) by (nonlinear_arith);
}
/// Appending the carry word.
pub proof fn lemma_push_one(s: Seq<Word>) ensures val(s.push(1)) == val(s) + pw(s.len())
{ lemma_val_push(s, 1); let p = pw(s.len()); assert(p * 1 == p); }
pub proof fn lemma_len_lt(a: Seq<Word>, b: Seq<Word>) requires a.len() < b.len(), b.last() != 0 ensures val(a) < val(b)
{ lemma_val_bound(a); lemma_val_top(b); lemma_pw_mono(a.len(), (b.len() - 1) as nat); }
/// low part added, high part copied from the longer operand, carry propagated
proof fn lemma_add_hi(a: Seq<Word>, b: Seq<Word>, m: Seq<Word>, f: Seq<Word>, n: int, c0: bool, c1: bool)
    requires n == (if a.len() <= b.len() { a.len() as int } else { b.len() as int }), m.len() == (if a.len() <= b.len() { b.len() } else { a.len() }), f.len() == m.len(),
        val(m.take(n)) + b2n(c0) * pw(n as nat) == val(a.take(n)) + val(b.take(n)),
        m.skip(n) == (if a.len() <= b.len() { b.skip(n) } else { a.skip(n) }),
        f.take(n) == m.take(n), c1 ==> c0,
        c0 ==> val(f.skip(n)) + b2n(c1) * pw((f.len() - n) as nat) == val(m.skip(n)) + 1,
        !c0 ==> f == m
    ensures val(f) + b2n(c1) * pw(f.len()) == val(a) + val(b)
{
    lemma_val_split(a, n); lemma_val_split(b, n); lemma_val_split(m, n); lemma_val_split(f, n);
    lemma_pw_add(n as nat, (f.len() - n) as nat);
    let p = pw(n as nat); let q = pw((f.len() - n) as nat);
    if a.len() <= b.len() { assert(a.skip(n) =~= Seq::empty()); } else { assert(b.skip(n) =~= Seq::empty()); }
    assert(val(Seq::<Word>::empty()) == 0); assert(p * 0 == 0) by (nonlinear_arith);
    if c0 {
        let x = val(f.skip(n)); let y = val(m.skip(n));
        assert(b2n(c1) * (p * q) == p * (b2n(c1) * q)) by (nonlinear_arith);
        assert(p * x + p * (b2n(c1) * q) == p * (x + b2n(c1) * q)) by (nonlinear_arith);
        assert(p * (y + 1) == p * y + p) by (nonlinear_arith);
    }
}
proof fn lemma_sub_hi(a: Seq<Word>, b: Seq<Word>, m: Seq<Word>, f: Seq<Word>, n: int, c0: bool, c1: bool)
    requires n == b.len(), n <= a.len(), m.len() == a.len(), f.len() == m.len(),
        val(m.take(n)) + val(b) == val(a.take(n)) + b2n(c0) * pw(n as nat),
        m.skip(n) == a.skip(n),
        f.take(n) == m.take(n), c1 ==> c0,
        c0 ==> val(f.skip(n)) + 1 == val(m.skip(n)) + b2n(c1) * pw((f.len() - n) as nat),
        !c0 ==> f == m
    ensures val(f) + val(b) == val(a) + b2n(c1) * pw(f.len())
{
    lemma_val_split(a, n); lemma_val_split(m, n); lemma_val_split(f, n);
    lemma_pw_add(n as nat, (f.len() - n) as nat);
    let p = pw(n as nat); let q = pw((f.len() - n) as nat);
    if c0 {
        let x = val(f.skip(n)); let y = val(m.skip(n));
        assert(b2n(c1) * (p * q) == p * (b2n(c1) * q)) by (nonlinear_arith);
        assert(p * y + p * (b2n(c1) * q) == p * (y + b2n(c1) * q)) by (nonlinear_arith);
        assert(p * (x + 1) == p * x + p) by (nonlinear_arith);
    }
}
@file error.rs
@item struct OutOfBoundsError
@file convert.rs
@fn TryFrom<IBig> for UBig::try_from -> r
@method2fn ubig_try_from_ibig UBig
    requires x.wf()
    ensures match r { Ok(u) => u.wf() && u.v() == x.v(), Err(_) => x.v() < 0 }
@fn TryFrom<& IBig> for UBig::try_from -> r
@method2fn ubig_try_from_ibig_ref UBig
    requires x.wf()
    ensures match r { Ok(u) => u.wf() && u.v() == x.v(), Err(_) => x.v() < 0 }
@fn UBig::from_ibig_panic_on_overflow -> r
@rewrite `UBig :: try_from ( x )` => `ubig_try_from_ibig(x)`
@panics x.v() < 0
    requires x.wf()
    ensures r.wf(), r.v() == x.v()
