@file vp_std.rs
@mod
/// Stand-in for an arbitrary random generator R: Rng: each draw may be any value the documentation of rand allows.
#[verifier::external_body]
pub struct VpRng(u8);
impl VpRng {
    /// gen_range(0..w)
    #[verifier::external_body]
    pub fn draw_below(&mut self, w: Word) -> (r: Word) requires w > 0 ensures r < w { unimplemented!() }
    /// gen_range(0..=w)
    #[verifier::external_body]
    pub fn draw_upto(&mut self, w: Word) -> (r: Word) ensures r <= w { unimplemented!() }
    /// gen()
    #[verifier::external_body]
    pub fn draw(&mut self) -> (r: Word) { unimplemented!() }
    /// fill
    #[verifier::external_body]
    pub fn draw_fill(&mut self, s: &mut [Word]) ensures final(s)@.len() == old(s)@.len() { unimplemented!() }
}
@file rand.rs
@item struct UniformUBig
@item struct UniformIBig
@mod
use crate::vp_math::*;
use crate::vp_std::*;
use crate::ubig::{Repr, lemma_large_big};
use core::ops::*;
impl UniformUBig {
    pub closed spec fn lo(&self) -> nat { self.offset.v() }
    pub closed spec fn width(&self) -> nat { self.range.v() }
    pub closed spec fn wf(&self) -> bool { self.offset.wf() && self.range.wf() && self.range.v() > 0 }
}
impl UniformIBig {
    pub closed spec fn lo(&self) -> int { self.offset.v() }
    pub closed spec fn width(&self) -> nat { self.range.v() }
    pub closed spec fn wf(&self) -> bool { self.offset.wf() && self.range.wf() && self.range.v() > 0 }
}
/// the first differing word decides
proof fn lemma_less(a: Seq<Word>, b: Seq<Word>, i: int) requires a.len() == b.len(), 0 <= i < a.len(), a[i] < b[i], forall|j: int| i < j < a.len() ==> a[j] == b[j] ensures val(a) < val(b)
{
    let (x, y) = (a.take(i + 1), b.take(i + 1));
    lemma_val_cmp_last(x, y); lemma_val_split(a, i + 1); lemma_val_split(b, i + 1);
    assert(a.skip(i + 1) =~= b.skip(i + 1));
}
@fn try_fill_uniform -> r
@mono R=VpRng as try_fill_uniform
@rewrite `rng . gen_range ( 0 ..= words [ i ] )` => `rng.draw_upto(words[i])`
@rewrite `rng . gen ( )` => `rng.draw()`
@rewrite `rng . fill ( & mut result [ .. i ] )` => `rng.draw_fill(&mut result[..i])`
    requires words@.len() > 0, old(result)@.len() == words@.len()
    ensures final(result)@.len() == words@.len(), r ==> val(final(result)@) < val(words@)
@loop 0
    invariant i < n, n == words@.len(), result@.len() == n, result@[i as int] <= words@[i as int], forall|j: int| i < j < n ==> result@[j] == words@[j]
    decreases i
@before `rng . fill`
let ghost r1 = result@;
@tail
proof { lemma_less(result@, words@, i as int); }
@fn UBig::uniform_large -> r
@mono R=VpRng as uniform_large
@method2fn uniform_large UBig
@attr #[verifier::exec_allows_no_decreases_clause]
@rewrite `try_fill_uniform ( words , rng , & mut buffer )` => `try_fill_uniform(words, rng, buffer.deref_mut())`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires words@.len() >= 1
    ensures r.wf(), r.v() < val(words@)
@loop 0
    invariant buffer.wf(), buffer@.len() == words@.len(), words@.len() >= 1
    ensures val(buffer@) < val(words@)
@fn UBig::uniform -> r
@mono R=VpRng as uniform
@method2fn uniform UBig
@rewrite `* range != UBig :: from_word ( 0 )` => `!range.eq(&UBig::from_word(0))`
@rewrite `rng . gen_range ( 0 .. * word )` => `rng.draw_below(*word)`
@rewrite `UBig :: uniform_large ( buffer , rng )` => `uniform_large(buffer, rng)`
    requires range.wf(), range.v() > 0
    ensures r.wf(), r.v() < range.v()
@start
broadcast use crate::ubig::lemma_eq;
proof { if let Repr::Large(b) = range.rp() { lemma_large_big(b@); } }
@fn UniformSampler for UniformUBig::new -> r
@mono B1=UBig;B2=UBig as uu_new
@method2fn uu_new UniformUBig
@rewrite `high . borrow ( ) - low . borrow ( )` => `(&high).sub(&low)`
@rewrite `low . borrow ( ) . clone ( )` => `low.clone()`
@panics high.v() <= low.v()
    requires low.wf(), high.wf()
    ensures r.wf(), r.lo() == low.v(), r.lo() + r.width() == high.v()
@start
broadcast use crate::ubig::lemma_eq;
@fn UniformSampler for UniformUBig::new_inclusive -> r
@mono B1=UBig;B2=UBig as uu_newi
@method2fn uu_newi UniformUBig
@rewrite `high . borrow ( ) - low . borrow ( ) + UBig :: from_word ( 1 )` => `(&high).sub(&low).add(UBig::from_word(1))`
@rewrite `low . borrow ( ) . clone ( )` => `low.clone()`
@panics high.v() < low.v()
    requires low.wf(), high.wf()
    ensures r.wf(), r.lo() == low.v(), r.lo() + r.width() == high.v() + 1
@fn UniformSampler for UniformUBig::sample -> r
@mono R=VpRng as uu_sample
@method2fn uu_sample UniformUBig
@rewrite `UBig :: uniform ( & self . range , rng ) + & self . offset` => `uniform(&self.range, rng).add(&self.offset)`
    requires vp_self.wf()
    ensures r.wf(), vp_self.lo() <= r.v() < vp_self.lo() + vp_self.width()
@fn UniformSampler for UniformIBig::new -> r
@mono B1=IBig;B2=IBig as ui_new
@method2fn ui_new UniformIBig
@rewrite `high . borrow ( ) - low . borrow ( )` => `(&high).sub(&low)`
@rewrite `low . borrow ( ) . clone ( )` => `low.clone()`
@panics high.v() <= low.v()
    requires low.wf(), high.wf()
    ensures r.wf(), r.lo() == low.v(), r.lo() + r.width() == high.v()
@fn UniformSampler for UniformIBig::new_inclusive -> r
@mono B1=IBig;B2=IBig as ui_newi
@method2fn ui_newi UniformIBig
@rewrite `high . borrow ( ) - low . borrow ( ) + IBig :: from ( 1u8 )` => `(&high).sub(&low).add(IBig::from(1u8))`
@rewrite `low . borrow ( ) . clone ( )` => `low.clone()`
@panics high.v() < low.v()
    requires low.wf(), high.wf()
    ensures r.wf(), r.lo() == low.v(), r.lo() + r.width() == high.v() + 1
@fn UniformSampler for UniformIBig::sample -> r
@mono R=VpRng as ui_sample
@method2fn ui_sample UniformIBig
@rewrite `IBig :: from ( UBig :: uniform ( & self . range , rng ) ) + & self . offset` => `IBig::from(uniform(&self.range, rng)).add(&self.offset)`
    requires vp_self.wf()
    ensures r.wf(), vp_self.lo() <= r.v() < vp_self.lo() + vp_self.width()
