@file modular/modulo_ring.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use vstd::arithmetic::div_mod::*;
// A residue v modulo n is stored normalized: x = v * s under the normalized modulus m = n * s, with s a power of two.
pub open spec fn ok(x: nat, m: nat, s: nat) -> bool { s >= 1 && m % s == 0 && x % s == 0 && x < m }
/// x reduced modulo m (Euclidean), as a natural number.
pub open spec fn rem(x: int, m: nat) -> nat { (x % (m as int)) as nat }
pub proof fn lemma_exact(x: nat, s: nat) requires s >= 1, x % s == 0 ensures x == (x / s) * s { lemma_fundamental_div_mod(x as int, s as int); let (q, t) = ((x / s) as int, s as int); assert(t * q == q * t) by (nonlinear_arith); }
pub proof fn lemma_ok(x: nat, m: nat, s: nat) requires ok(x, m, s) ensures x == (x / s) * s, m == (m / s) * s, x / s < m / s, m / s >= 1
{
    lemma_exact(x, s); lemma_exact(m, s);
    let (a, b, t) = ((x / s) as int, (m / s) as int, s as int);
    assert(a < b) by (nonlinear_arith) requires a * t < b * t, t >= 1;
}
pub proof fn lemma_of(v: nat, n: nat, s: nat) requires v < n, s >= 1 ensures ok(v * s, n * s, s), (v * s) / s == v, (n * s) / s == n
{
    lemma_div_multiples_vanish(v as int, s as int); lemma_div_multiples_vanish(n as int, s as int);
    lemma_mod_multiples_basic(v as int, s as int); lemma_mod_multiples_basic(n as int, s as int);
    let (a, b, t) = (v as int, n as int, s as int);
    assert(t * a == a * t && t * b == b * t) by (nonlinear_arith);
    assert(a * t < b * t) by (nonlinear_arith) requires a < b, t >= 1;
}
/// A normalized number z congruent to w * s modulo m represents w modulo n.
pub proof fn lemma_rep(z: nat, m: nat, s: nat, w: int, k: int)
    requires s >= 1, m % s == 0, z < m, z == w * s + k * m
    ensures ok(z, m, s), z / s == rem(w, m / s)
{
    lemma_exact(m, s);
    let n = (m / s) as int; let t = s as int; let v = w + k * n;
    assert(z as int == v * t) by (nonlinear_arith) requires z == w * t + k * (n * t), v == w + k * n;
    assert(v >= 0) by (nonlinear_arith) requires v * t >= 0, t >= 1;
    assert(v < n) by (nonlinear_arith) requires v * t < n * t, t >= 1;
    lemma_of(v as nat, n as nat, s);
    assert((-k) * n == -(k * n)) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(w, n, -k, v);
}
pub proof fn lemma_madd(x: nat, y: nat, z: nat, m: nat, s: nat)
    requires ok(x, m, s), ok(y, m, s), z == (if x + y < m { x + y } else { (x + y - m) as nat })
    ensures ok(z, m, s), z / s == rem((x / s + y / s) as int, m / s)
{
    lemma_ok(x, m, s); lemma_ok(y, m, s);
    let (a, b, t) = ((x / s) as int, (y / s) as int, s as int);
    assert((a + b) * t == a * t + b * t) by (nonlinear_arith);
    lemma_rep(z, m, s, a + b, if x + y < m { 0 } else { -1 });
}
pub proof fn lemma_msub(x: nat, y: nat, z: nat, m: nat, s: nat)
    requires ok(x, m, s), ok(y, m, s), z == (if x >= y { x - y } else { x + m - y })
    ensures ok(z, m, s), z / s == rem((x / s) - (y / s), m / s)
{
    lemma_ok(x, m, s); lemma_ok(y, m, s);
    let (a, b, t) = ((x / s) as int, (y / s) as int, s as int);
    assert((a - b) * t == a * t - b * t) by (nonlinear_arith);
    lemma_rep(z, m, s, a - b, if x >= y { 0 } else { 1 });
}
pub proof fn lemma_mneg(x: nat, z: nat, m: nat, s: nat)
    requires ok(x, m, s), z == (if x == 0 { 0 } else { (m - x) as nat })
    ensures ok(z, m, s), z / s == rem(-((x / s) as int), m / s)
{
    lemma_ok(x, m, s);
    let (a, t) = ((x / s) as int, s as int);
    assert((-a) * t == -(a * t)) by (nonlinear_arith);
    lemma_rep(z, m, s, -a, if x == 0 { 0 } else { 1 });
}
pub proof fn lemma_mmul(x: nat, y: nat, z: nat, m: nat, s: nat)
    requires ok(x, m, s), ok(y, m, s), z == ((x / s) * y) % m
    ensures ok(z, m, s), z / s == rem(((x / s) * (y / s)) as int, m / s)
{
    lemma_ok(x, m, s); lemma_ok(y, m, s);
    let (a, b, t, mm) = ((x / s) as int, (y / s) as int, s as int, m as int);
    assert((a * b) * t == a * (b * t)) by (nonlinear_arith);
    assert(a * (b * t) >= 0) by (nonlinear_arith) requires a >= 0, b >= 0, t >= 0;
    let p = a * y;
    lemma_fundamental_div_mod(p, mm); lemma_mod_bound(p, mm);
    let q = p / mm;
    assert(mm * q == -((-q) * mm)) by (nonlinear_arith);
    lemma_rep(z, m, s, a * b, -q);
}
@item struct ModuloRing
@item enum ModuloRingRepr
@item struct ModuloRingSmall
@item struct ModuloRingLarge
@mod
impl ModuloRingSmall {
    pub closed spec fn normalized_modulus_w(&self) -> Word { self.normalized_modulus }
    pub open spec fn nm(&self) -> nat { self.normalized_modulus_w() as nat }
    pub closed spec fn sh(&self) -> u32 { self.shift }
    pub closed spec fn fd(&self) -> FastDivideNormalized { self.fast_div }
    pub open spec fn s(&self) -> nat { p2(self.sh() as nat) }
    /// The modulus.
    pub open spec fn n(&self) -> nat { self.nm() / self.s() }
    pub open spec fn wf(&self) -> bool { self.sh() < $BITS && self.nm() % self.s() == 0 && self.nm() > 0 && self.fd().wf() && self.fd().d() == self.nm() }
    pub proof fn lemma_wf(&self) requires self.wf() ensures self.s() >= 1, self.nm() == self.n() * self.s(), self.n() >= 1, self.s() <= self.nm(), self.n() <= self.nm() < B(), ok(0, self.nm(), self.s())
    {
        lemma_p2_pos(self.sh() as nat); self.fd().lemma_wf(); lemma_small_mod(0, self.s()); lemma_ok(0, self.nm(), self.s());
        let (a, t) = (self.n() as int, self.s() as int); assert(a <= a * t && t <= a * t) by (nonlinear_arith) requires a >= 1, t >= 1;
    }
}
impl ModuloRingLarge {
    pub closed spec fn nms(&self) -> Seq<Word> { self.normalized_modulus@ }
    pub open spec fn nm(&self) -> nat { val(self.nms()) }
    pub closed spec fn sh(&self) -> u32 { self.shift }
    pub closed spec fn ft(&self) -> FastDivideNormalized { self.fast_div_top }
    pub open spec fn s(&self) -> nat { p2(self.sh() as nat) }
    pub open spec fn n(&self) -> nat { self.nm() / self.s() }
    pub(crate) open spec fn wf(&self) -> bool { self.sh() < $BITS && self.nm() % self.s() == 0 && crate::div::is_top(self.nms(), self.ft()) && self.nms().len() <= crate::vp_std::MAXLEN() && self.n() >= B() }
    pub(crate) proof fn lemma_wf(&self) requires self.wf() ensures self.s() >= 1, self.nm() == self.n() * self.s(), self.n() >= 1, ok(0, self.nm(), self.s()), self.nms().len() >= 2, self.nm() < pw(self.nms().len())
    {
        lemma_p2_pos(self.sh() as nat); lemma_val_bound(self.nms()); lemma_exact(self.nm(), self.s()); lemma_small_mod(0, self.s());
        let (a, t) = (self.n() as int, self.s() as int); assert(a * t >= a) by (nonlinear_arith) requires a >= 0, t >= 1;
    }
}
impl ModuloRing {
    pub(crate) closed spec fn rp(&self) -> ModuloRingRepr { self.0 }
    pub open spec fn wf(&self) -> bool { match self.rp() { ModuloRingRepr::Small(r) => r.wf(), ModuloRingRepr::Large(r) => r.wf() } }
    /// The modulus.
    pub open spec fn n(&self) -> nat { match self.rp() { ModuloRingRepr::Small(r) => r.n(), ModuloRingRepr::Large(r) => r.n() } }
}
impl ModuloRing {
    pub proof fn lemma_wf(&self) requires self.wf() ensures self.n() >= 1 { match self.rp() { ModuloRingRepr::Small(r) => r.lemma_wf(), ModuloRingRepr::Large(r) => r.lemma_wf() } }
}
/// Identity of two rings, as the source compares them: the same object (the verifier sees references as the values they refer to, so
/// it only learns that the contents agree).
#[verifier::external_body]
pub(crate) fn ring_ptr_eq<T>(a: &T, b: &T) -> (r: bool) ensures r ==> *a == *b { core::ptr::eq(a, b) }
@fn ModuloRing::new -> r
@panics n.v() == 0
    requires n.wf()
    ensures r.wf(), r.n() == n.v()
@start
proof { if let Repr::Large(b) = n.rp() { crate::ubig::lemma_large_big(b@); } }
@fn ModuloRing::repr -> r
    ensures *r == self.rp()
@fn ModuloRingSmall::new -> r
    requires n != 0
    ensures r.wf(), r.n() == n
@start
proof { crate::div::lemma_norm_word(n); lemma_p2_pos(lzs(n) as nat); lemma_of(0, n as nat, p2(lzs(n) as nat)); }
@fn ModuloRingSmall::normalized_modulus -> r
    ensures r == self.nm()
@fn ModuloRingSmall::shift -> r
    ensures r == self.sh()
@fn ModuloRingSmall::fast_div -> r
    ensures r == self.fd()
@fn ModuloRingLarge::new -> r
    requires n@.len() >= 2, n@.last() != 0, n@.len() <= crate::vp_std::MAXLEN()
    ensures r.wf(), r.n() == val(n@)
@before `ModuloRingLarge { normalized_modulus`
proof { lemma_p2_pos(shift as nat); crate::ubig::lemma_large_big(n@); lemma_of(0, val(n@), p2(shift as nat)); }
@fn ModuloRingLarge::normalized_modulus -> r
    ensures r@ == self.nms()
@fn ModuloRingLarge::shift -> r
    ensures r == self.sh()
@fn ModuloRingLarge::fast_div_top -> r
    ensures r == self.ft()
@fn ModuloRingLarge::is_valid -> r
@rewrite `math :: ones :: < Word > (` => `math::ones_gw(`
@rewrite `cmp :: cmp_same_len ( val , & self . normalized_modulus ) == Ordering :: Less` => `matches!(cmp::cmp_same_len(val, &self.normalized_modulus), Ordering::Less)`
    requires self.wf()
    ensures r == (val@.len() == self.nms().len() && ok(vv(val@), self.nm(), self.s()))
@start
proof { self.lemma_wf(); if val@.len() > 0 { lemma_low(val@, self.sh()); } }
@mod
pub open spec fn vv(s: Seq<Word>) -> nat { val(s) }
pub proof fn lemma_low(x: Seq<Word>, s: u32) requires x.len() > 0, s < $BITS ensures val(x) % p2(s as nat) == x[0] as nat % p2(s as nat), x[0] as nat % p2(s as nat) == (x[0] & sub(1$W << s, 1)) as nat, (1$W << s) as nat == p2(s as nat)
{
    lemma_val_first(x); lemma_mask_mod(x[0], s); lemma_one_shl_w(s); lemma_p2_wb(); lemma_p2_pos(s as nat);
    let k = ($BITS - s) as nat; lemma_p2_add(k, s as nat);
    let (a, p, q, w) = (val(x.skip(1)) as int, p2(s as nat) as int, p2(k) as int, x[0] as int);
    assert(B() * a == p * (q * a)) by (nonlinear_arith) requires B() == q * p;
    lemma_mod_multiples_vanish(q * a, w, p);
}

@file modular/modulo.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::modular::modulo_ring::{ok, rem, vv};
@plain
impl core::fmt::Debug for ModuloSmallRaw { fn fmt(&self, _f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
@item struct Modulo
@item enum ModuloRepr
@item struct ModuloSmallRaw strip Debug PartialEq Eq
@item struct ModuloSmall strip Clone
@item struct ModuloLarge
@mod
impl PartialEq for ModuloSmallRaw { fn eq(&self, other: &ModuloSmallRaw) -> bool { self.normalized_value == other.normalized_value } }
impl Eq for ModuloSmallRaw {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ModuloSmallRaw {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ModuloSmallRaw) -> bool { self.x() == other.x() }
}
impl<'a> Clone for ModuloSmall<'a> { fn clone(&self) -> (r: ModuloSmall<'a>) ensures r == *self { ModuloSmall { ring: self.ring, raw: self.raw } } }
impl ModuloSmallRaw {
    pub closed spec fn normalized_word(&self) -> Word { self.normalized_value }
    pub open spec fn x(&self) -> nat { self.normalized_word() as nat }
    pub(crate) open spec fn wf(&self, ring: &ModuloRingSmall) -> bool { ring.wf() && ok(self.x(), ring.nm(), ring.s()) }
    pub(crate) open spec fn v(&self, ring: &ModuloRingSmall) -> nat { self.x() / ring.s() }
}
impl<'a> ModuloSmall<'a> {
    pub(crate) closed spec fn rg(&self) -> ModuloRingSmall { *self.ring }
    pub(crate) closed spec fn rw(&self) -> ModuloSmallRaw { self.raw }
    pub(crate) open spec fn wf(&self) -> bool { self.rw().wf(&self.rg()) }
    pub(crate) open spec fn n(&self) -> nat { self.rg().n() }
    pub(crate) open spec fn v(&self) -> nat { self.rw().v(&self.rg()) }
}
pub(crate) open spec fn words_ok(w: Seq<Word>, ring: &ModuloRingLarge) -> bool { w.len() == ring.nms().len() && ok(val(w), ring.nm(), ring.s()) }
impl<'a> ModuloLarge<'a> {
    pub(crate) closed spec fn rg(&self) -> ModuloRingLarge { *self.ring }
    pub(crate) closed spec fn ws(&self) -> Seq<Word> { self.normalized_value@ }
    pub(crate) open spec fn wf(&self) -> bool { self.rg().wf() && words_ok(self.ws(), &self.rg()) }
    pub(crate) open spec fn n(&self) -> nat { self.rg().n() }
    pub(crate) open spec fn v(&self) -> nat { val(self.ws()) / self.rg().s() }
}
impl<'a> ModuloRepr<'a> {
    pub(crate) open spec fn wf(&self) -> bool { match *self { ModuloRepr::Small(a) => a.wf(), ModuloRepr::Large(a) => a.wf() } }
    pub(crate) open spec fn n(&self) -> nat { match *self { ModuloRepr::Small(a) => a.n(), ModuloRepr::Large(a) => a.n() } }
    pub(crate) open spec fn v(&self) -> nat { match *self { ModuloRepr::Small(a) => a.v(), ModuloRepr::Large(a) => a.v() } }
}
impl<'a> Modulo<'a> {
    pub(crate) closed spec fn rp(&self) -> ModuloRepr<'a> { self.0 }
    pub open spec fn wf(&self) -> bool { self.rp().wf() }
    /// The modulus and the residue.
    pub open spec fn n(&self) -> nat { self.rp().n() }
    pub open spec fn v(&self) -> nat { self.rp().v() }
    pub proof fn lemma_wf(&self) requires self.wf() ensures self.v() < self.n(), self.n() >= 1
    {
        match self.rp() {
            ModuloRepr::Small(a) => { a.rg().lemma_wf(); crate::modular::modulo_ring::lemma_ok(a.rw().x(), a.rg().nm(), a.rg().s()); }
            ModuloRepr::Large(a) => { a.rg().lemma_wf(); crate::modular::modulo_ring::lemma_ok(val(a.ws()), a.rg().nm(), a.rg().s()); }
        }
    }
}
@fn Modulo<'a>::repr -> r
    ensures *r == self.rp()
@fn Modulo<'a>::repr_mut -> r
    ensures *r == old(self).rp(), final(self).rp() == *final(r)
@trusted Modulo<'a>::panic_different_rings
    requires crate::vp_std::may_panic()
    ensures false
@fn From<ModuloSmall<'a>> for Modulo<'a>::from -> r
    ensures r.rp() == ModuloRepr::Small(a)
@fn From<ModuloLarge<'a>> for Modulo<'a>::from -> r
    ensures r.rp() == ModuloRepr::Large(a)
@fn ModuloSmallRaw::normalized -> r
    ensures r == self.x()
@fn ModuloSmallRaw::from_normalized -> r
    ensures r.x() == normalized_value
@fn ModuloSmallRaw::is_valid -> r
    requires ring.wf()
    ensures r == self.wf(ring)
@start
proof { ring.lemma_wf(); lemma_mask_mod(self.normalized_value, ring.sh()); lemma_one_shl_w(ring.sh()); assert((self.normalized_value & sub(1$W << ring.sh(), 1)) as nat == self.x() % ring.s()); }
@fn ModuloSmall<'a>::new -> r
    requires raw.wf(ring)
    ensures r.rw() == raw, r.rg() == *ring
@fn ModuloSmall<'a>::ring -> r
    ensures *r == self.rg()
@fn ModuloSmall<'a>::raw -> r
    ensures r == self.rw()
@fn ModuloSmall<'a>::set_raw
    requires raw.wf(&old(self).rg())
    ensures final(self).rw() == raw, final(self).rg() == old(self).rg()
@fn ModuloSmall<'a>::check_same_ring
@rewrite `self . ring ( ) != other . ring ( )` => `!crate::modular::cmp::ring_small_eq(self.ring(), other.ring())`
    requires crate::vp_std::may_panic()
    ensures self.rg() == other.rg()
@fn ModuloLarge<'a>::new -> r
    requires ring.wf(), words_ok(normalized_value@, ring)
    ensures r.rg() == *ring, r.ws() == normalized_value@
@fn ModuloLarge<'a>::ring -> r
    ensures *r == self.rg()
@fn ModuloLarge<'a>::normalized_value -> r
    ensures r@ == self.ws()
@fn ModuloLarge<'a>::modify_normalized_value
@rewrite `f ( & mut self . normalized_value , self . ring )` => `f(crate::vp_std::vec_as_mut_slice(&mut self.normalized_value), self.ring)`
    requires old(self).rg().wf(),
        forall|w: &mut [Word], r: &ModuloRingLarge| w@ == old(self).ws() && *r == old(self).rg() ==> call_requires(f, (w, r)),
        forall|w: &mut [Word], r: &ModuloRingLarge| w@ == old(self).ws() && *r == old(self).rg() && #[trigger] call_ensures(f, (w, r), ()) ==> words_ok(final(w)@, r),
    ensures final(self).rg() == old(self).rg(),
        exists|w: &mut [Word], r: &ModuloRingLarge| w@ == old(self).ws() && final(w)@ == final(self).ws() && *r == old(self).rg() && call_ensures(f, (w, r), ())
@fn ModuloLarge<'a>::check_same_ring
@rewrite `self . ring ( ) != other . ring ( )` => `!crate::modular::cmp::ring_large_eq(self.ring(), other.ring())`
    requires crate::vp_std::may_panic()
    ensures self.rg() == other.rg()
@fn Clone for Modulo<'_>::clone -> r
    ensures r.rp().n() == self.rp().n(), r.rp().v() == self.rp().v(), r.rp().wf() == self.rp().wf()
@fn Clone for ModuloRepr<'_>::clone -> r
    ensures r.n() == self.n(), r.v() == self.v(), r.wf() == self.wf()
@fn Clone for ModuloLarge<'_>::clone -> r
    ensures r.rg() == self.rg(), r.ws() == self.ws()
@fn Clone for Modulo<'_>::clone_from
@method2fn modulo_clone_from Modulo<'a>
    ensures final(vp_self).n() == source.n(), final(vp_self).v() == source.v(), final(vp_self).wf() == source.wf()
@rewrite `self . 0 . clone_from ( & source . 0 )` => `modulo_repr_clone_from(&mut self.0, &source.0)`
@fn Clone for ModuloRepr<'_>::clone_from
@method2fn modulo_repr_clone_from ModuloRepr<'a>
    ensures final(vp_self).n() == source.n(), final(vp_self).v() == source.v(), final(vp_self).wf() == source.wf()
@rewrite `modulo_large . clone_from ( source_large )` => `modulo_large_clone_from(modulo_large, source_large)`
@fn Clone for ModuloLarge<'_>::clone_from
@method2fn modulo_large_clone_from ModuloLarge<'a>
    ensures final(vp_self).rg() == source.rg(), final(vp_self).ws() == source.ws()
@file modular/cmp.rs
@mod
use crate::vp_math::*;
@fn PartialEq for ModuloRing::eq -> r
@method2fn ring_eq ModuloRing
@rewrite `ptr :: eq (` => `crate::modular::modulo_ring::ring_ptr_eq(`
    ensures r ==> *vp_self == *other
@fn PartialEq for ModuloRingSmall::eq -> r
@method2fn ring_small_eq ModuloRingSmall
@rewrite `ptr :: eq (` => `crate::modular::modulo_ring::ring_ptr_eq(`
    ensures r ==> *vp_self == *other
@fn PartialEq for ModuloRingLarge::eq -> r
@method2fn ring_large_eq ModuloRingLarge
@rewrite `ptr :: eq (` => `crate::modular::modulo_ring::ring_ptr_eq(`
    ensures r ==> *vp_self == *other
@fn PartialEq for Modulo<'_>::eq -> r
@method2fn modulo_eq Modulo<'_>
@rewrite `self_small . eq ( other_small )` => `modulo_small_eq(self_small, other_small)`
@rewrite `self_large . eq ( other_large )` => `modulo_large_eq(self_large, other_large)`
    requires vp_self.wf(), other.wf(), crate::vp_std::may_panic()
    ensures vp_self.n() == other.n(), r == (vp_self.v() == other.v())
@fn PartialEq for ModuloSmall<'_>::eq -> r
@method2fn modulo_small_eq ModuloSmall<'_>
    requires vp_self.wf(), other.wf(), crate::vp_std::may_panic()
    ensures vp_self.n() == other.n(), r == (vp_self.v() == other.v())
@tail
proof { let (x, y, g) = (vp_self.rw().x(), other.rw().x(), vp_self.rg()); crate::modular::modulo_ring::lemma_ok(x, g.nm(), g.s()); crate::modular::modulo_ring::lemma_ok(y, g.nm(), g.s()); lemma_raw_eq(vp_self.rw(), other.rw()); }
@mod
use crate::modular::modulo::*;
@fn PartialEq for ModuloLarge<'_>::eq -> r
@method2fn modulo_large_eq ModuloLarge<'_>
@rewrite `self . normalized_value ( ) == other . normalized_value ( )` => `crate::vp_std::words_eq(vp_self.normalized_value(), other.normalized_value())`
    requires vp_self.wf(), other.wf(), crate::vp_std::may_panic()
    ensures vp_self.n() == other.n(), r == (vp_self.v() == other.v())
@tail
proof { let (x, y, g) = (val(vp_self.ws()), val(other.ws()), vp_self.rg()); crate::modular::modulo_ring::lemma_ok(x, g.nm(), g.s()); crate::modular::modulo_ring::lemma_ok(y, g.nm(), g.s());
    if x == y { lemma_val_inj(vp_self.ws(), other.ws()); } }
@file vp_std.rs
@mod
/// == of two word slices
#[verifier::external_body]
pub fn words_eq(a: &[Word], b: &[Word]) -> (r: bool) ensures r == (a@ == b@) { a == b }
@file modular/modulo.rs
@mod
pub(crate) proof fn lemma_raw_eq(a: ModuloSmallRaw, b: ModuloSmallRaw) ensures (a == b) == (a.x() == b.x()) {}
@file modular/add.rs
@mod
use crate::vp_math::*;
use crate::vp_std::*;
use crate::modular::modulo_ring::{ok, rem, lemma_madd, lemma_msub, lemma_mneg, lemma_ok};
use crate::modular::modulo::words_ok;
use crate::modular::modulo_ring::ModuloRingLarge;
use crate::arch::word::Word;
@fn Neg for Modulo<'a>::neg -> r
@pre self.wf()
    ensures r.wf(), r.n() == self.n(), r.v() == rem(-(self.v() as int), self.n())
@fn Neg for &Modulo<'a>::neg -> r
@pre self.wf()
    ensures r.wf(), r.n() == self.n(), r.v() == rem(-(self.v() as int), self.n())
@for $O $F $S in Add,add,+ Sub,sub,-
@fn $O<Modulo<'a>> for Modulo<'a>::$F -> r
@rewrite `self . $F ( & rhs )` => `{ let vp_self = self; vp_self.$F(&rhs) }`
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures r.wf(), r.n() == self.n(), r.n() == rhs.n(), r.v() == rem(self.v() as int $S rhs.v() as int, r.n())
@fn $O<&Modulo<'a>> for Modulo<'a>::$F -> r
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures r.wf(), r.n() == self.n(), r.n() == rhs.n(), r.v() == rem(self.v() as int $S rhs.v() as int, r.n())
@fn $O<Modulo<'a>> for &Modulo<'a>::$F -> r
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures r.wf(), r.n() == self.n(), r.n() == rhs.n(), r.v() == rem(self.v() as int $S rhs.v() as int, r.n())
@fn $O<&Modulo<'a>> for &Modulo<'a>::$F -> r
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures r.wf(), r.n() == self.n(), r.n() == rhs.n(), r.v() == rem(self.v() as int $S rhs.v() as int, r.n())
@fn $OAssign<Modulo<'a>> for Modulo<'a>::$F_assign
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures final(self).wf(), final(self).n() == old(self).n(), rhs.n() == old(self).n(), final(self).v() == rem(old(self).v() as int $S rhs.v() as int, rhs.n())
@fn $OAssign<&Modulo<'a>> for Modulo<'a>::$F_assign
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures final(self).wf(), final(self).n() == old(self).n(), rhs.n() == old(self).n(), final(self).v() == rem(old(self).v() as int $S rhs.v() as int, rhs.n())
@endfor
@fn ModuloSmallRaw::negate -> r
    requires self.wf(ring)
    ensures r.wf(ring), r.v(ring) == rem(-(self.v(ring) as int), ring.n())
@tail
proof { ring.lemma_wf(); lemma_mneg(self.x(), normalized_val as nat, ring.nm(), ring.s()); }
@fn ModuloSmallRaw::add -> r
    requires self.wf(ring), other.wf(ring)
    ensures r.wf(ring), r.v(ring) == rem((self.v(ring) + other.v(ring)) as int, ring.n())
@tail
proof { ring.lemma_wf(); lemma_madd(self.x(), other.x(), val as nat, ring.nm(), ring.s()); }
@fn ModuloSmallRaw::sub -> r
    requires self.wf(ring), other.wf(ring)
    ensures r.wf(ring), r.v(ring) == rem(self.v(ring) - other.v(ring), ring.n())
@tail
proof { ring.lemma_wf(); lemma_msub(self.x(), other.x(), val as nat, ring.nm(), ring.s()); }
@fn ModuloSmall<'a>::negate_in_place
    requires old(self).wf()
    ensures final(self).wf(), final(self).n() == old(self).n(), final(self).v() == rem(-(old(self).v() as int), old(self).n())
@for $F $S in add,+ sub,-
@fn ModuloSmall<'a>::$F_in_place
    requires old(self).wf(), rhs.wf(), may_panic()
    ensures final(self).wf(), final(self).n() == old(self).n(), rhs.n() == old(self).n(), final(self).v() == rem(old(self).v() as int $S rhs.v() as int, rhs.n())
@endfor
@fn ModuloSmall<'a>::sub_in_place_swap
    requires self.wf(), old(rhs).wf(), may_panic()
    ensures final(rhs).wf(), final(rhs).n() == self.n(), old(rhs).n() == self.n(), final(rhs).v() == rem(self.v() - old(rhs).v(), self.n())
@fn ModuloLarge<'a>::negate_in_place
@rewrite `| words , ring | {` => `|words: &mut [Word], ring: &ModuloRingLarge| requires ring.wf(), words_ok(old(words)@, ring) ensures words_ok(final(words)@, ring), val(final(words)@) / ring.s() == rem(-((val(old(words)@) / ring.s()) as int), ring.n()) { let ghost w0 = words@; proof { ring.lemma_wf(); lemma_all_zero(w0); lemma_val_bound(w0); lemma_c(true, pw(w0.len())); lemma_c(false, pw(w0.len())); let x = val(w0); lemma_mneg(x, if x == 0 { 0 } else { (ring.nm() - x) as nat }, ring.nm(), ring.s()); lemma_bounds(w0.len()); }`
@rewrite `words . iter ( ) . all ( | w | * w == 0 )` => `crate::vp_std::all_zero(words)`
    requires old(self).wf()
    ensures final(self).wf(), final(self).n() == old(self).n(), final(self).v() == rem(-(old(self).v() as int), old(self).n())
@mod
proof fn lemma_all_zero(w: Seq<Word>) ensures (val(w) == 0) == (forall|i: int| 0 <= i < w.len() ==> w[i] == 0)
    decreases w.len()
{
    if w.len() == 0 { lemma_val_empty(w); } else {
        lemma_all_zero(w.drop_last()); lemma_pw_pos((w.len() - 1) as nat);
        let (t, p) = (w.last() as int, pw((w.len() - 1) as nat) as int);
        assert(t > 0 ==> t * p > 0) by (nonlinear_arith) requires p > 0; assert(0 * p == 0);
        if forall|i: int| 0 <= i < w.len() - 1 ==> w.drop_last()[i] == 0 {} 
        assert(forall|i: int| 0 <= i < w.len() - 1 ==> w.drop_last()[i] == w[i]);
        if val(w) == 0 { assert forall|i: int| 0 <= i < w.len() implies w[i] == 0 by { if i < w.len() - 1 { assert(w.drop_last()[i] == 0); } } }
    }
}
proof fn lemma_c(c: bool, p: nat) ensures b2n(c) * p == (if c { p } else { 0 }) { assert(1 * p == p); assert(0 * p == 0); }
proof fn lemma_bounds(n: nat) ensures forall|w: Seq<Word>| w.len() == n ==> #[trigger] val(w) < pw(n)
{
    assert forall|w: Seq<Word>| w.len() == n implies #[trigger] val(w) < pw(n) by { lemma_val_bound(w); }
}
proof fn lemma_pre(w0: Seq<Word>, ring: &ModuloRingLarge) requires ring.wf(), words_ok(w0, ring) ensures ring.nm() < pw(w0.len()), val(w0) < pw(w0.len()), forall|c: bool| #[trigger] b2n(c) * pw(w0.len()) == (if c { pw(w0.len()) } else { 0 }), forall|w: Seq<Word>| w.len() == w0.len() ==> #[trigger] val(w) < pw(w0.len())
{
    ring.lemma_wf(); lemma_val_bound(w0); lemma_bounds(w0.len());
    assert forall|c: bool| #[trigger] b2n(c) * pw(w0.len()) == (if c { pw(w0.len()) } else { 0 }) by { lemma_c(c, pw(w0.len())); }
}
proof fn lemma_add_pre(w0: Seq<Word>, b: Seq<Word>, ring: &ModuloRingLarge) requires ring.wf(), words_ok(w0, ring), words_ok(b, ring)
    ensures ({ let (x, y, m) = (val(w0), val(b), ring.nm()); let z = if x + y < m { x + y } else { (x + y - m) as nat }; ok(z, m, ring.s()) && z / ring.s() == rem((x / ring.s()) as int + (y / ring.s()) as int, ring.n()) })
{
    let (x, y, m) = (val(w0), val(b), ring.nm()); lemma_madd(x, y, if x + y < m { x + y } else { (x + y - m) as nat }, m, ring.s());
}
proof fn lemma_sub_pre(w0: Seq<Word>, b: Seq<Word>, ring: &ModuloRingLarge) requires ring.wf(), words_ok(w0, ring), words_ok(b, ring)
    ensures ({ let (x, y, m) = (val(w0), val(b), ring.nm()); let z = if x >= y { (x - y) as nat } else { (x + m - y) as nat }; ok(z, m, ring.s()) && z / ring.s() == rem((x / ring.s()) as int - (y / ring.s()) as int, ring.n()) })
{
    let (x, y, m) = (val(w0), val(b), ring.nm()); lemma_msub(x, y, if x >= y { (x - y) as nat } else { (x + m - y) as nat }, m, ring.s());
}
@for $F $S in add,+ sub,-
@fn ModuloLarge<'a>::$F_in_place
@rewrite `| words , ring | {` => `|words: &mut [Word], ring: &ModuloRingLarge| requires ring.wf(), words_ok(old(words)@, ring), words_ok(rhs_words@, ring) ensures words_ok(final(words)@, ring), val(final(words)@) / ring.s() == rem((val(old(words)@) / ring.s()) as int $S (val(rhs_words@) / ring.s()) as int, ring.n()) { let ghost w0 = words@; proof { lemma_pre(w0, ring); lemma_$F_pre(w0, rhs_words@, ring); }`
@rewrite `cmp :: cmp_same_len ( words , modulus ) >= Ordering :: Equal` => `!matches!(cmp::cmp_same_len(words, modulus), Ordering::Less)`
    requires old(self).wf(), rhs.wf(), may_panic()
    ensures final(self).wf(), final(self).n() == old(self).n(), rhs.n() == old(self).n(), final(self).v() == rem(old(self).v() as int $S rhs.v() as int, rhs.n())
@endfor
@fn ModuloLarge<'a>::sub_in_place_swap
@rewrite `| rhs_words , ring | {` => `|rhs_words: &mut [Word], ring: &ModuloRingLarge| requires ring.wf(), words_ok(old(rhs_words)@, ring), words_ok(words@, ring) ensures words_ok(final(rhs_words)@, ring), val(final(rhs_words)@) / ring.s() == rem((val(words@) / ring.s()) as int - (val(old(rhs_words)@) / ring.s()) as int, ring.n()) { let ghost w0 = rhs_words@; proof { lemma_pre(w0, ring); lemma_pre(words@, ring); lemma_sub_pre(words@, w0, ring); }`
    requires self.wf(), old(rhs).wf(), may_panic()
    ensures final(rhs).wf(), final(rhs).n() == self.n(), old(rhs).n() == self.n(), final(rhs).v() == rem(self.v() - old(rhs).v(), self.n())
@file vp_std.rs
@mod
/// Vec::extend with the words of a slice, with zeros
#[verifier::external_body]
pub fn vec_extend_slice(v: &mut Vec<Word>, s: &[Word]) ensures final(v)@ == old(v)@ + s@ { v.extend(s) }
#[verifier::external_body]
pub fn vec_grow_zeros(v: &mut Vec<Word>, n: usize) ensures final(v)@ == old(v)@ + Seq::new(n as nat, |i: int| 0 as Word) { v.extend(core::iter::repeat(0).take(n)) }
@file modular/convert.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::vp_std::*;
use crate::modular::modulo_ring::{ok, rem, lemma_rep, lemma_ok, lemma_of, lemma_exact};
use crate::modular::modulo::words_ok;
use crate::ubig::lemma_large_big;
use vstd::arithmetic::div_mod::*;
@item trait IntoModulo
@fn ModuloRing::modulus -> r
    requires self.wf()
    ensures r.wf(), r.v() == self.n()
@fn ModuloRingSmall::modulus -> r
    requires self.wf()
    ensures r as nat == self.n()
@start
proof { lemma_shr_div(self.normalized_modulus_w(), self.sh()); }
@fn ModuloRingLarge::modulus -> r
    requires self.wf()
    ensures r.wf(), r.v() == self.n()
@rewrite `buffer . extend ( normalized_modulus )` => `crate::buffer::buffer_extend_ref(&mut buffer, normalized_modulus)`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
@fn Modulo<'_>::residue -> r
    requires self.wf()
    ensures r.wf(), r.v() == self.v()
@fn ModuloSmallRaw::residue -> r
    requires self.wf(ring)
    ensures r as nat == self.v(ring)
@start
proof { lemma_shr_div(self.normalized_word(), ring.sh()); }
@fn ModuloSmall<'_>::residue -> r
    requires self.wf()
    ensures r as nat == self.v()
@fn ModuloLarge<'_>::residue -> r
    requires self.wf()
    ensures r.wf(), r.v() == self.v()
@rewrite `buffer . extend ( words )` => `crate::buffer::buffer_extend_ref(&mut buffer, words)`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
@fn ModuloSmallRaw::from_word -> r
    requires ring.wf()
    ensures r.wf(ring), r.v(ring) == rem(word as int, ring.n())
@start
proof { ring.lemma_wf(); lemma_shl_mul(word, ring.sh()); lemma_p2_wb(); lemma_p2_mono(ring.sh() as nat, $BITS); lemma_sh_fit(word as nat, ring.s(), ring.nm()); ring.fd().lemma_wf();
    lemma_norm_rem(word as nat, ring.nm(), ring.s()); if ring.sh() == 0 { let w = word as nat; assert(w * 1 == w); assert(p2(0) == 1); } }
@mod
/// x * s fits in a double word below m * B.
proof fn lemma_sh_fit(x: nat, s: nat, m: nat) requires x < B(), 1 <= s <= m ensures x * s < m * B()
{
    let (a, b, c, d) = (x as int, s as int, m as int, B() as int);
    assert(a * b < c * d) by (nonlinear_arith) requires 0 <= a < d, 1 <= b <= c;
}
/// Reducing the shifted number modulo the normalized modulus reduces the number.
pub proof fn lemma_norm_rem(x: nat, m: nat, s: nat) requires s >= 1, m % s == 0, m > 0
    ensures ok((x * s) % m, m, s), ((x * s) % m) / s == rem(x as int, m / s)
{
    let (y, mm) = ((x * s) as int, m as int);
    assert((x as int) * (s as int) >= 0) by (nonlinear_arith);
    lemma_fundamental_div_mod(y, mm); lemma_mod_bound(y, mm);
    let q = y / mm;
    assert(mm * q == -((-q) * mm)) by (nonlinear_arith);
    lemma_rep((x * s) % m, m, s, x as int, -q);
}
/// The same after a first reduction.
proof fn lemma_norm_rem2(x: nat, m: nat, s: nat) requires s >= 1, m % s == 0, m > 0
    ensures ok(((x % m) * s) % m, m, s), (((x % m) * s) % m) / s == rem(x as int, m / s)
{
    lemma_norm_rem(x % m, m, s); lemma_exact(m, s);
    let (mm, n, t, xi) = (m as int, (m / s) as int, s as int, x as int);
    lemma_fundamental_div_mod(xi, mm); lemma_mod_bound(xi, mm);
    let (q, r) = (xi / mm, xi % mm);
    assert(n > 0) by (nonlinear_arith) requires n * t == mm, mm > 0, t >= 1;
    lemma_mod_multiples_vanish(q * t, r, n);
    assert((q * t) * n == mm * q) by (nonlinear_arith) requires mm == n * t;
    assert(n * (q * t) == (q * t) * n) by (nonlinear_arith);
}
@fn ModuloSmallRaw::from_large -> r
    requires ring.wf()
    ensures r.wf(ring), r.v(ring) == rem(val(words@) as int, ring.n())
@rewrite `rem = ring . fast_div ( ) . div_rem ( extend_word ( rem ) << ring . shift ( ) ) . 1` => `{ proof { lemma_shl_mul(rem, ring.sh()); } rem = ring.fast_div().div_rem(extend_word(rem) << ring.shift()).1; }`
@start
proof { ring.lemma_wf(); ring.fd().lemma_wf(); lemma_norm_rem2(val(words@), ring.nm(), ring.s()); let r0 = val(words@) % ring.nm(); lemma_mod_bound(val(words@) as int, ring.nm() as int); lemma_sh_fit(r0, ring.s(), ring.nm());
    assert(p2(0) == 1); assert(r0 * 1 == r0); lemma_small_mod(r0, ring.nm()); }
@fn ModuloSmall<'a>::from_ubig -> r
    requires ring.wf(), x.wf()
    ensures r.wf(), r.rg() == *ring, r.v() == rem(x.v() as int, ring.n())
@fn ModuloLarge<'a>::from_ubig -> r
@rewrite `Vec :: with_capacity (` => `crate::vp_std::vec_with_capacity(`
@rewrite `vec . extend ( & [ lo , hi ] )` => `crate::vp_std::vec_extend_slice(&mut vec, &[lo, hi])`
@rewrite `vec . extend ( & * words )` => `crate::vp_std::vec_extend_slice(&mut vec, &*words)`
@rewrite `vec . extend ( & words [ .. modulus . len ( ) ] )` => `crate::vp_std::vec_extend_slice(&mut vec, &words[..modulus.len()])`
@rewrite `vec . extend ( iter :: repeat ( 0 ) . take ( modulus . len ( ) - vec . len ( ) ) )` => `{ let ghost vp_v1 = vec@; let vp_k = modulus.len() - vec.len(); crate::vp_std::vec_grow_zeros(&mut vec, vp_k); proof { lemma_val_zeros_back(vp_k as nat, vp_v1); assert(ok(val(vp_v1), ring.nm(), ring.s()) && val(vp_v1) / ring.s() == rem(xv as int, ring.n())); } }`
    requires ring.wf(), x.wf()
    ensures r.wf(), r.rg() == *ring, r.v() == rem(x.v() as int, ring.n())
@start
let ghost xv = x.v();
proof { ring.lemma_wf(); ring.ft().lemma_wf(); lemma_large_big(ring.nms()); lemma_norm_rem(xv, ring.nm(), ring.s()); if let Repr::Large(b) = x.rp() { lemma_large_big(b@); } }
@after `vec . extend ( & [ lo , hi ] ) ;`
proof { lemma_shl_mul(word, ring.sh()); assert(vec@ =~= seq![lo, hi]); lemma_val_two(lo, hi); let (w, n) = (word as nat, ring.n()); lemma_of(w, n, ring.s()); lemma_small_mod(w, n); }
@before `let carry =`
let ghost w0 = words@;
@after `let carry = shift :: shl_in_place ( & mut words , ring . shift ( ) ) ;`
let ghost w1 = words@;
@before `if words . len ( ) < modulus`
proof { if carry != 0 { lemma_val_push(w1, carry); } else { assert(0 * pw(w1.len()) == 0); } assert(val(words@) == xv * ring.s()); lemma_val_bound(words@);
    if words@.len() < ring.nms().len() { lemma_pw_mono(words@.len(), (ring.nms().len() - 1) as nat); lemma_small_mod(val(words@), ring.nm()); } }
@before `let _overflow =`
let ghost w2 = words@;
@before `vec . extend ( & words [`
proof { lemma_is_div_rem(w2, words@, modulus@, _overflow); }
@mod
proof fn lemma_val_two(a: Word, b: Word) ensures val(seq![a, b]) == a + B() * b { lemma_val_push(seq![a], b); crate::ubig::lemma_val_one(a); crate::ubig::lemma_pw1(); assert(seq![a].push(b) =~= seq![a, b]); let (x, y) = (b as int, B() as int); assert(x * y == y * x) by (nonlinear_arith); }
pub(crate) proof fn lemma_is_div_rem(w0: Seq<Word>, wf: Seq<Word>, m: Seq<Word>, c: bool) requires crate::div::is_div(w0, wf, m, c) ensures val(wf.take(m.len() as int)) == val(w0) % val(m)
{
    reveal(crate::div::is_div); let (q, r) = ((val(wf.skip(m.len() as int)) + b2n(c) * pw((w0.len() - m.len()) as nat)) as int, val(wf.take(m.len() as int)) as int);
    let d = val(m) as int; assert(q * d == d * q) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(val(w0) as int, d, q, r);
}
@file modular/convert.rs
@for $T in UBig &UBig
@fn IntoModulo for $T::into_modulo -> r
@pre self.wf() && ring.wf()
    ensures r.wf(), r.n() == ring.n(), r.v() == rem(self.v() as int, ring.n())
@endfor
@for $T in IBig &IBig
@fn IntoModulo for $T::into_modulo -> r
@pre self.wf() && ring.wf()
    ensures r.wf(), r.n() == ring.n(), r.v() == rem(self.v() as int, ring.n())
@start
proof { ring.lemma_wf(); lemma_rem_neg(self.mag().v() as int, ring.n()); }
@endfor
@mod
pub proof fn lemma_rem_neg(x: int, n: nat) requires n >= 1 ensures rem(-(rem(x, n) as int), n) == rem(-x, n)
{
    let m = n as int; lemma_fundamental_div_mod(x, m); lemma_mod_bound(x, m); let (q, r) = (x / m, x % m);
    lemma_mod_multiples_vanish(-q, -r, m);
    assert(m * (-q) == -(m * q)) by (nonlinear_arith);
}
@expand impl_into_modulo_for_unsigned
@expand impl_into_modulo_for_signed
@for $T in bool u8 u16 u32 u64 u128 usize
@fn IntoModulo for $T::into_modulo -> r
@pre ring.wf()
    ensures r.wf(), r.n() == ring.n(), r.v() == rem(self as int, ring.n())
@endfor
@for $T in i8 i16 i32 i64 i128 isize
@fn IntoModulo for $T::into_modulo -> r
@pre ring.wf()
    ensures r.wf(), r.n() == ring.n(), r.v() == rem(self as int, ring.n())
@endfor
@for $N $R in ubig,UBig ibig,IBig
@fn ModuloRing::from -> r
@mono T=$R as ring_from_$N
@method2fn ring_from_$N ModuloRing
    requires vp_self.wf(), x.wf()
    ensures r.wf(), r.n() == vp_self.n(), r.v() == rem(x.v() as int, vp_self.n())
@fn ModuloRing::from -> r
@mono T=&'static_$R as ring_from_$N_ref
@method2fn ring_from_$N_ref ModuloRing
@sig `& self` => `&'static self`
@sig `Modulo` => `Modulo<'static>`
    requires vp_self.wf(), x.wf()
    ensures r.wf(), r.n() == vp_self.n(), r.v() == rem(x.v() as int, vp_self.n())
@endfor
@for $T in bool u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
@fn ModuloRing::from -> r
@mono T=$T as ring_from_$T
@method2fn ring_from_$T ModuloRing
    requires vp_self.wf()
    ensures r.wf(), r.n() == vp_self.n(), r.v() == rem(x as int, vp_self.n())
@endfor
@file modular/mul.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::vp_std::*;
use crate::modular::modulo_ring::{ok, rem, lemma_mmul, lemma_ok};
use crate::modular::modulo::words_ok;
use vstd::arithmetic::div_mod::*;
@for $T $S $V in Modulo<'a>,self,Modulo<'a> Modulo<'a>,self,&Modulo<'a> &Modulo<'a>,self,Modulo<'a> &Modulo<'a>,self,&Modulo<'a>
@fn Mul<$V> for $T::mul -> r
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures r.wf(), r.n() == self.n(), r.n() == rhs.n(), r.v() == rem((self.v() * rhs.v()) as int, r.n())
@endfor
@for $V in Modulo<'a> &Modulo<'a>
@fn MulAssign<$V> for Modulo<'a>::mul_assign
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures final(self).wf(), final(self).n() == old(self).n(), rhs.n() == old(self).n(), final(self).v() == rem((old(self).v() * rhs.v()) as int, rhs.n())
@endfor
@fn ModuloSmallRaw::mul -> r
    requires self.wf(ring), other.wf(ring)
    ensures r.wf(ring), r.v(ring) == rem((self.v(ring) * other.v(ring)) as int, ring.n())
@start
proof { ring.lemma_wf(); lemma_shr_div(self.normalized_word(), ring.sh()); lemma_mmul_ring(self.x(), other.x(), ring); ring.fd().lemma_wf(); }
@mod
/// The product of one residue and a normalized one: fits the division, and reduces to the product.
proof fn lemma_mmul_ring(x: nat, y: nat, ring: &ModuloRingSmall) requires ring.wf(), ok(x, ring.nm(), ring.s()), ok(y, ring.nm(), ring.s())
    ensures (x / ring.s()) * y < ring.nm() * B(), (x / ring.s()) * y < B() * B(), ({ let z = ((x / ring.s()) * y) % ring.nm(); ok(z, ring.nm(), ring.s()) && z / ring.s() == rem(((x / ring.s()) * (y / ring.s())) as int, ring.n()) })
{
    ring.lemma_wf(); lemma_ok(x, ring.nm(), ring.s());
    let (a, b, m, n, c) = ((x / ring.s()) as int, y as int, ring.nm() as int, ring.n() as int, B() as int);
    assert(a * b < m * c && a * b < c * c) by (nonlinear_arith) requires 0 <= a < n, n <= m < c, 0 <= b < m;
    lemma_mmul(x, y, ((x / ring.s()) * y) % ring.nm(), ring.nm(), ring.s());
}
@fn ModuloSmall<'a>::mul_in_place
    requires old(self).wf(), rhs.wf(), may_panic()
    ensures final(self).wf(), final(self).rg() == old(self).rg(), rhs.n() == old(self).n(), final(self).v() == rem((old(self).v() * rhs.v()) as int, rhs.n())
@mod
/// Scratch words one modular multiplication needs.
pub(crate) open spec fn mmem(n: nat) -> nat { 2 * n + (if crate::mul::mreq(n) > crate::div::dreq(2 * n, n) { crate::mul::mreq(n) } else { crate::div::dreq(2 * n, n) }) }
@fn ModuloRingLarge::mul_memory_requirement -> r
    requires self.wf()
    ensures crate::memory::lw(r) >= mmem(self.nms().len())
@fn ModuloRingLarge::mul_normalized -> r
@rewrite `shift :: shr_in_place ( product , self . shift ( ) )` => `{ let ghost p1 = product@; let vp_b = shift::shr_in_place(product, self.shift()); proof { lemma_mmul_large(a@, b@, val(p1), val(product@), self); } vp_b }`
    requires self.wf(), words_ok(a@, self), words_ok(b@, self), old(memory).cap() >= mmem(self.nms().len())
    ensures words_ok(r@, self), val(r@) / self.s() == rem(((val(a@) / self.s()) * (val(b@) / self.s())) as int, self.n()), final(memory).cap() == old(memory).cap()
@before `assert_eq ! ( overflow , 0 )`
proof { lemma_no_over(a@, b@, product@, overflow as int, vp_z); }
@before `let overflow =`
let ghost vp_z = val(product@);
proof { lemma_val_zeros(2 * n as nat); self.lemma_wf(); }
@before `let _overflow =`
let ghost w2 = product@;
@before `& product [ .. n ]` last
proof { crate::modular::convert::lemma_is_div_rem(w2, product@, modulus@, _overflow); }
@mod
proof fn lemma_val_zeros(n: nat) ensures val(Seq::new(n, |i: int| 0 as Word)) == 0 { lemma_val_zero(Seq::new(n, |i: int| 0 as Word)); }
proof fn lemma_no_over(a: Seq<Word>, b: Seq<Word>, p: Seq<Word>, c: int, z: nat)
    requires a.len() == b.len(), p.len() == a.len() + b.len(), z == 0, -1 <= c <= 1, val(p) + c * pw(p.len()) == z + crate::add::sgn(Positive) * (val(a) * val(b))
    ensures c == 0, val(p) == val(a) * val(b)
{
    lemma_val_bound(a); lemma_val_bound(b); lemma_val_bound(p); lemma_pw_add(a.len(), b.len());
    let (x, y, q) = (val(a) as int, val(b) as int, pw(a.len()) as int);
    assert(1 * (x * y) == x * y); assert(0 * pw(p.len()) == 0);
    assert(0 <= x * y < q * q) by (nonlinear_arith) requires 0 <= x < q, 0 <= y < q;
    assert(c == 0) by (nonlinear_arith) requires val(p) + c * pw(p.len()) == x * y, 0 <= x * y < pw(p.len()), 0 <= val(p) < pw(p.len());
}
proof fn lemma_mmul_large(a: Seq<Word>, b: Seq<Word>, p1: nat, p2v: nat, ring: &ModuloRingLarge)
    requires ring.wf(), words_ok(a, ring), words_ok(b, ring), p1 == val(a) * val(b), p2v == p1 / ring.s()
    ensures ({ let z = p2v % ring.nm(); ok(z, ring.nm(), ring.s()) && z / ring.s() == rem(((val(a) / ring.s()) * (val(b) / ring.s())) as int, ring.n()) })
{
    ring.lemma_wf(); lemma_ok(val(a), ring.nm(), ring.s());
    let (x, y, s) = ((val(a) / ring.s()) as int, val(b) as int, ring.s() as int);
    assert((x * s) * y == s * (x * y)) by (nonlinear_arith);
    lemma_div_multiples_vanish(x * y, s);
    lemma_mmul(val(a), val(b), p2v % ring.nm(), ring.nm(), ring.s());
}
@fn ModuloLarge<'a>::mul_in_place
    requires old(self).wf(), rhs.wf(), old(self).rg() == rhs.rg(), old(memory).cap() >= mmem(rhs.rg().nms().len())
    ensures final(self).wf(), final(self).rg() == old(self).rg(), final(self).v() == rem((old(self).v() * rhs.v()) as int, rhs.n()), final(memory).cap() == old(memory).cap()
@fn ModuloLarge<'a>::mul_normalized_in_place
@rewrite `self . modify_normalized_value ( | words , ring | {` => `crate::modular::modulo::unit({ let ring = self.ring(); let words = crate::modular::modulo::words_mut(self);`
    requires old(self).wf(), words_ok(normalized_value@, &old(self).rg()), old(memory).cap() >= mmem(normalized_value@.len())
    ensures final(self).wf(), final(self).rg() == old(self).rg(), final(self).v() == rem((old(self).v() * (val(normalized_value@) / old(self).rg().s())) as int, old(self).n()), final(memory).cap() == old(memory).cap()
@fn ModuloLarge<'a>::square_in_place
@rewrite `self . modify_normalized_value ( | words , ring | {` => `crate::modular::modulo::unit({ let ring = self.ring(); let words = crate::modular::modulo::words_mut(self);`
    requires old(self).wf(), old(memory).cap() >= mmem(old(self).ws().len())
    ensures final(self).wf(), final(self).rg() == old(self).rg(), final(self).v() == rem((old(self).v() * old(self).v()) as int, old(self).n()), final(memory).cap() == old(memory).cap()
@file modular/modulo.rs
@mod
// modify_normalized_value(|words, ring| BODY) with a closure that captures scratch memory mutably (outside the verifier's subset) is
// expanded in place to unit({ let ring = self.ring(); let words = words_mut(self); BODY }).
pub(crate) fn unit(x: ()) {}
pub(crate) fn words_mut<'a, 'b>(m: &'b mut ModuloLarge<'a>) -> (r: &'b mut [Word]) ensures r@ == old(m).ws(), final(m).ws() == final(r)@, final(m).rg() == old(m).rg() { crate::vp_std::vec_as_mut_slice(&mut m.normalized_value) }
