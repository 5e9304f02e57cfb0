@file vp_std.rs
@mod
/// Stand-ins for a serde data format: a serializer that records the sequence of 64-bit elements it is given,
/// and a sequence access that delivers the elements of a recorded sequence, with or without an exact size hint
/// (binary formats know the length, human-readable ones do not). Either may fail with an error of its own unless `sound`.
pub struct VpErr;
#[verifier::external_body]
pub struct VpDoc(u8);
impl VpDoc { pub uninterp spec fn elems(&self) -> Seq<u64>; }
#[verifier::external_body]
pub struct VpSerializer(u8);
#[verifier::external_body]
pub struct VpSeq(u8);
impl VpSerializer {
    pub uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    pub fn serialize_seq(self, len: Option<usize>) -> (r: Result<VpSeq, VpErr>) requires len is Some
        ensures r matches Ok(s) ==> s.elems() == Seq::<u64>::empty() && s.announced() == len->0 && s.sound() == self.sound(), self.sound() ==> r is Ok { unimplemented!() }
}
impl VpSeq {
    pub uninterp spec fn elems(&self) -> Seq<u64>;
    pub uninterp spec fn announced(&self) -> nat;
    pub uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    pub fn serialize_element(&mut self, x: &u64) -> (r: Result<(), VpErr>)
        ensures r is Ok ==> final(self).elems() == old(self).elems().push(*x), final(self).announced() == old(self).announced(), final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok { unimplemented!() }
    /// a binary format relies on the announced length
    #[verifier::external_body]
    pub fn end(self) -> (r: Result<VpDoc, VpErr>) requires self.elems().len() == self.announced()
        ensures r matches Ok(d) ==> d.elems() == self.elems(), self.sound() ==> r is Ok { unimplemented!() }
}
#[verifier::external_body]
pub struct VpSeqAccess(u8);
impl VpSeqAccess {
    pub uninterp spec fn rest(&self) -> Seq<u64>;
    pub uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: Option<usize>) ensures r matches Some(n) ==> n == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_element(&mut self) -> (r: Result<Option<u64>, VpErr>)
        ensures final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok,
            r matches Ok(o) ==> match o {
                Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            } { unimplemented!() }
}
/// A serialised (sign, magnitude) pair.
#[verifier::external_body]
pub struct VpPairDoc(u8);
impl VpPairDoc {
    pub uninterp spec fn sign(&self) -> crate::sign::Sign;
    pub uninterp spec fn mag(&self) -> Seq<u64>;
}
/// number of words in a serialised element
@if bits==64
pub open spec fn wpu() -> nat { 1 }
@endif
@if bits==32
pub open spec fn wpu() -> nat { 2 }
@endif
@if bits==16
pub open spec fn wpu() -> nat { 4 }
@endif
/// The number a sequence of 64-bit elements denotes, least significant element first. (pw(wpu()) == 2^64: lemma_p64)
pub open spec fn v64(s: Seq<u64>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { v64(s.drop_last()) + s.last() as nat * crate::vp_math::pw(((s.len() - 1) * wpu()) as nat) }
}
/// The serialised form of v: the base 2^64 digits without leading zeros (unique: lemma_doc_unique).
pub open spec fn is_doc(s: Seq<u64>, v: nat) -> bool { v64(s) == v && (s.len() > 0 ==> s.last() != 0) }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// slice::chunks collected (documented behaviour of core)
#[verifier::external_body]
pub fn chunk_vec(s: &[Word], n: usize) -> (r: Vec<&[Word]>) requires n > 0
    ensures r@.len() == (s@.len() + n - 1) / (n as int), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j])@ == s@.subrange(j * n, imin(j * n + n, s@.len() as int)) { s.chunks(n).collect() }
pub fn u64_from_word(w: Word) -> (r: u64) ensures r == w { w as u64 }
@file serde.rs
@item const WORDS_PER_U64
@item struct UBigVisitor
@mod
use crate::vp_math::*;
use crate::vp_std::*;
use crate::ubig::{Repr, lemma_large_big, lemma_val_one};
@const WORDS_PER_U64 ensures WORDS_PER_U64 == wpu()
@mod
/// the weight of an element does not depend on the word size
pub proof fn lemma_p64() ensures pw(wpu()) == 0x1_0000_0000_0000_0000
{ reveal_with_fuel(pw, 6); }
pub proof fn lemma_v64_bound(s: Seq<u64>) ensures v64(s) < pw(s.len() * wpu()) decreases s.len()
{
    if s.len() == 0 { assert(s.len() * wpu() == 0); reveal_with_fuel(pw, 1); } else {
        let t = s.drop_last(); let k = t.len() * wpu(); lemma_v64_bound(t); lemma_p64(); lemma_pw_add(k, wpu());
        assert(s.len() * wpu() == k + wpu()) by (nonlinear_arith) requires s.len() == t.len() + 1, k == t.len() * wpu();
        let (x, p, q) = (s.last() as nat, pw(k), pw(wpu()));
        assert(p + x * p <= p * q) by (nonlinear_arith) requires x + 1 <= q;
    }
}
/// Two word sizes that denote the same number give the same document.
pub proof fn lemma_doc_unique(a: Seq<u64>, b: Seq<u64>, v: nat) requires is_doc(a, v), is_doc(b, v) ensures a == b decreases a.len() + b.len()
{
    if a.len() != b.len() {
        let (s, t) = if a.len() > b.len() { (a, b) } else { (b, a) };
        lemma_v64_bound(t); let k = (s.len() - 1) * wpu(); 
        assert(t.len() * wpu() <= k) by (nonlinear_arith) requires t.len() <= s.len() - 1, k == (s.len() - 1) * wpu();
        lemma_pw_mono(t.len() * wpu(), k as nat);
        let (x, p) = (s.last() as nat, pw(k as nat));
        assert(x * p >= p) by (nonlinear_arith) requires x >= 1;
    } else if a.len() > 0 {
        lemma_same(a, b);
    }
}
proof fn lemma_same(a: Seq<u64>, b: Seq<u64>) requires a.len() == b.len(), v64(a) == v64(b) ensures a == b decreases a.len()
{
    if a.len() == 0 { assert(a =~= b); } else {
        let (s, t) = (a.drop_last(), b.drop_last()); let k = s.len() * wpu(); lemma_v64_bound(s); lemma_v64_bound(t);
        let (x, y, p) = (a.last() as int, b.last() as int, pw(k) as int);
        let (f, g) = (v64(s) as int, v64(t) as int);
        assert(x == y) by (nonlinear_arith) requires f + x * p == g + y * p, 0 <= f < p, 0 <= g < p;
        lemma_same(s, t); assert(a =~= s.push(a.last())); assert(b =~= t.push(b.last()));
    }
}
pub proof fn lemma_v64_push(s: Seq<u64>, x: u64) ensures v64(s.push(x)) == v64(s) + x as nat * pw(s.len() * wpu())
{ assert(s.push(x).drop_last() =~= s); }
/// or-ing one more word in
@if bits==64
proof fn lemma_or64(a: u64, w: u64, i: usize) requires i < 1, a == 0 ensures a | (w << ((i * 64) as usize)) == a + w as nat * pw(i as nat)
{ reveal_with_fuel(pw, 1); assert(0u64 | (w << 0usize) == w) by (bit_vector); assert(i * 64 == 0); assert(pw(0) == 1); assert(w as nat * 1 == w); }
proof fn lemma_words64(w: u64, s: Seq<Word>) requires s.len() == 1, forall|j: int| 0 <= j < 1 ==> s[j] == (w >> ((j * 64) as usize)) as Word ensures val(s) == w
{ assert(s =~= seq![s[0]]); lemma_val_one(s[0]); assert((w >> 0usize) as Word == w) by (bit_vector); assert(0 * 64 == 0); assert(s[0] == (w >> ((0int * 64) as usize)) as Word); }
@endif
@if bits==32
proof fn lemma_or64(a: u64, w: u64, i: usize) requires i < 2, a < pw(i as nat), w <= 0xffff_ffff ensures a | (w << ((i * 32) as usize)) == a + w as nat * pw(i as nat)
{
    reveal_with_fuel(pw, 3); assert(pw(0) == 1); assert(pw(1) == B() * pw(0)); assert(w as nat * 1 == w);
    let p = pw(i as nat); assert(w as nat * p == w * p);
    if i == 0 { assert(i * 32 == 0); assert(w as nat * pw(0) == w as nat * 1); assert(0u64 | (w << 0usize) == w) by (bit_vector); }
    else { assert(i * 32 == 32); assert(w as nat * pw(1) == w as nat * 0x1_0000_0000); assert(a | (w << 32usize) == add(a, mul(w, 0x1_0000_0000))) by (bit_vector) requires a <= 0xffff_ffff, w <= 0xffff_ffff; }
}
proof fn lemma_words64(w: u64, s: Seq<Word>) requires s.len() == 2, forall|j: int| 0 <= j < 2 ==> s[j] == (w >> ((j * 32) as usize)) as Word ensures val(s) == w
{
    reveal_with_fuel(val, 3); reveal_with_fuel(pw, 3);
    assert(s[0] == (w >> ((0int * 32) as usize)) as Word); assert(s[1] == (w >> ((1int * 32) as usize)) as Word);
    assert(0int * 32 == 0); assert(1int * 32 == 32);
    assert(w == add((w >> 0usize) as u32 as u64, mul((w >> 32usize) as u32 as u64, 0x1_0000_0000))) by (bit_vector);
    let (a, b) = ((w >> 0usize) as u32, (w >> 32usize) as u32);
    assert(s.drop_last().drop_last() =~= Seq::empty());
}
@endif
@if bits==16
proof fn lemma_or64(a: u64, w: u64, i: usize) requires i < 4, a < pw(i as nat), w <= 0xffff ensures a | (w << ((i * 16) as usize)) == a + w as nat * pw(i as nat)
{
    reveal_with_fuel(pw, 5); assert(pw(0) == 1 && pw(1) == 0x1_0000 && pw(2) == 0x1_0000_0000 && pw(3) == 0x1_0000_0000_0000); assert(w as nat * 1 == w);
    if i == 0 { assert(i * 16 == 0); assert(w as nat * pw(0) == w as nat * 1); assert(0u64 | (w << 0usize) == w) by (bit_vector); }
    else if i == 1 { assert(i * 16 == 16); assert(w as nat * pw(1) == w as nat * 0x1_0000); assert(a | (w << 16usize) == add(a, mul(w, 0x1_0000))) by (bit_vector) requires a <= 0xffff, w <= 0xffff; }
    else if i == 2 { assert(i * 16 == 32); assert(w as nat * pw(2) == w as nat * 0x1_0000_0000); assert(a | (w << 32usize) == add(a, mul(w, 0x1_0000_0000))) by (bit_vector) requires a <= 0xffff_ffff, w <= 0xffff; }
    else { assert(i * 16 == 48); assert(w as nat * pw(3) == w as nat * 0x1_0000_0000_0000); assert(a | (w << 48usize) == add(a, mul(w, 0x1_0000_0000_0000))) by (bit_vector) requires a <= 0xffff_ffff_ffff, w <= 0xffff; }
}
proof fn lemma_words64(w: u64, s: Seq<Word>) requires s.len() == 4, forall|j: int| 0 <= j < 4 ==> s[j] == (w >> ((j * 16) as usize)) as Word ensures val(s) == w
{
    reveal_with_fuel(val, 5); reveal_with_fuel(pw, 5);
    assert(s[0] == (w >> ((0int * 16) as usize)) as Word); assert(s[1] == (w >> ((1int * 16) as usize)) as Word);
    assert(s[2] == (w >> ((2int * 16) as usize)) as Word); assert(s[3] == (w >> ((3int * 16) as usize)) as Word);
    assert(0int * 16 == 0); assert(1int * 16 == 16); assert(2int * 16 == 32); assert(3int * 16 == 48);
    let (a, b, c, d) = ((w >> 0usize) as u16, (w >> 16usize) as u16, (w >> 32usize) as u16, (w >> 48usize) as u16);
    assert(w == add(add((w >> 0usize) as u16 as u64, mul((w >> 16usize) as u16 as u64, 0x1_0000)), add(mul((w >> 32usize) as u16 as u64, 0x1_0000_0000), mul((w >> 48usize) as u16 as u64, 0x1_0000_0000_0000)))) by (bit_vector);
    assert(s.drop_last().drop_last().drop_last().drop_last() =~= Seq::empty());
}
@endif
@fn Serialize for UBig::serialize -> r
@mono S=VpSerializer as serialize
@method2fn serialize_ubig UBig
@sig `Result < S :: Ok , S :: Error >` => `Result<VpDoc, VpErr>`
@rewrite `self . as_words ( ) . chunks ( WORDS_PER_U64 )` => `chunk_vec(vp_self.as_words(), WORDS_PER_U64)`
@rewrite `chunk . iter ( ) . enumerate ( )` => `(0..chunk.len()).zip(chunk.iter())`
@rewrite `u64 :: from ( * word )` => `u64_from_word(*word)`
    requires vp_self.wf()
    ensures r matches Ok(d) ==> is_doc(d.elems(), vp_self.v()), serializer.sound() ==> r is Ok
@start
let ghost ws = vp_self.as_words_spec();
proof { assert(ws.take(0) =~= Seq::empty()); }
@loop 0 it
    invariant it.wf(), it.seq().len() == (ws.len() + wpu() - 1) / (wpu() as int), forall|j: int| 0 <= j < it.seq().len() ==> (#[trigger] it.seq()[j])@ == ws.subrange(j * wpu(), imin(j * wpu() + wpu(), ws.len() as int)),
        vp_self.wf(), ws == vp_self.as_words_spec(),
        seq.elems().len() == it.index(), seq.sound() == serializer.sound(), seq.announced() == it.seq().len(),
        v64(seq.elems()) == val(ws.take(imin(it.index() * wpu(), ws.len() as int))),
        it.index() > 0 && it.index() == it.seq().len() && ws.last() != 0 ==> seq.elems().last() != 0
@loopstart 0
let ghost k = it.index(); let ghost e0 = seq.elems();
proof { lemma_chunk(ws, k); assert(chunk@.take(0) =~= Seq::empty()); }
@loopend 0
proof { assert(chunk@.take(chunk@.len() as int) =~= chunk@); lemma_more64(ws, k, chunk@, e0, word_u64); }
@loop 1 jt
    invariant jt.wf(), jt.seq().len() == chunk@.len(), forall|j: int| 0 <= j < chunk@.len() ==> jt.seq()[j].0 == j && *jt.seq()[j].1 == chunk@[j],
        word_u64 == val(chunk@.take(jt.index())), chunk@.len() <= wpu()
@loopstart 1
let ghost a0 = word_u64;
proof { lemma_val_bound(chunk@.take(i as int)); lemma_or64(a0, *word as u64, i); assert(chunk@.take(i + 1).drop_last() =~= chunk@.take(i as int)); }
@loopafter 0
proof { lemma_all_chunks(ws); vp_self.lemma_words(); }
@mod
proof fn lemma_all_chunks(ws: Seq<Word>)
    ensures ({ let n = (ws.len() + wpu() - 1) / (wpu() as int); imin(n * wpu(), ws.len() as int) == ws.len() }), ws.take(ws.len() as int) == ws
{ assert(ws.take(ws.len() as int) =~= ws); }
/// chunk number k is a nonempty run of at most wpu() words
proof fn lemma_chunk(ws: Seq<Word>, k: int)
    requires 0 <= k < (ws.len() + wpu() - 1) / (wpu() as int)
    ensures 0 <= k * wpu() < ws.len(), k + 1 < (ws.len() + wpu() - 1) / (wpu() as int) ==> k * wpu() + wpu() < ws.len(), k + 1 == (ws.len() + wpu() - 1) / (wpu() as int) ==> k * wpu() + wpu() >= ws.len()
{ }
proof fn lemma_more64(ws: Seq<Word>, k: int, c: Seq<Word>, e: Seq<u64>, x: u64)
    requires 0 <= k, k * wpu() < ws.len(), c == ws.subrange(k * wpu(), imin(k * wpu() + wpu(), ws.len() as int)), e.len() == k, v64(e) == val(ws.take(k * wpu())), x == val(c)
    ensures v64(e.push(x)) == val(ws.take(imin((k + 1) * wpu(), ws.len() as int))), (k + 1) * wpu() >= ws.len() && ws.last() != 0 ==> x != 0
{
    let m = imin((k + 1) * wpu(), ws.len() as int);
    assert((k + 1) * wpu() == k * wpu() + wpu());
    lemma_v64_push(e, x); let t = ws.take(m); let f = k * wpu(); lemma_val_split(t, f);
    assert(t.take(f) =~= ws.take(f)); assert(t.skip(f) =~= c);
    assert(x as nat * pw(f as nat) == pw(f as nat) * x as nat) by (nonlinear_arith);
    if (k + 1) * wpu() >= ws.len() && ws.last() != 0 {
        assert(c.last() == ws.last()); lemma_pw_pos((c.len() - 1) as nat);
        let (y, p) = (c.last() as nat, pw((c.len() - 1) as nat));
        assert(y * p >= 1) by (nonlinear_arith) requires y >= 1, p >= 1;
    }
}
impl UBig { 
    proof fn lemma_words(&self) requires self.wf() ensures val(self.as_words_spec()) == self.v(), self.as_words_spec().len() > 0 ==> self.as_words_spec().last() != 0
    { crate::ubig::lemma_pw1(); if let Repr::Small(w) = self.rp() { lemma_val_one(w); } }
    pub closed spec fn as_words_spec(&self) -> Seq<Word> { match self.rp() { Repr::Small(w) => (if w == 0 { Seq::empty() } else { seq![w] }), Repr::Large(b) => b@ } } }
@fn Visitor<'de> for UBigVisitor::visit_seq -> r
@mono A=VpSeqAccess as visit_seq
@method2fn visit_seq UBigVisitor
@attr #[verifier::loop_isolation(false)]
@before `Ok ( UBig :: from ( word_64 ) )`
proof { assert(s0 =~= Seq::empty().push(word_64)); lemma_v64_push(Seq::empty(), word_64); assert(0 * wpu() == 0); reveal_with_fuel(pw, 1); assert(pw(0) == 1); assert(word_64 as nat * 1 == word_64); }
@sig `Result < UBig , A :: Error >` => `Result<UBig, VpErr>`
@rewrite `seq . next_element :: < u64 > ( )` => `seq.next_element()` all
@rewrite `Ok ( buffer . into ( ) )` => `Ok(UBig::from(buffer))` all
    ensures r matches Ok(u) ==> u.wf() && u.v() == v64(seq.rest()), seq.sound() ==> r is Ok
@start
let ghost s0 = seq.rest(); let ghost f0 = seq.sound();
@loop 0 it
    invariant buffer.wf(), it.index@ <= s0.len(), it.snapshot.end == s0.len(), seq.rest() == s0.skip(it.index@), buffer@.len() == it.index@ * wpu(), buffer.cap() >= s0.len() * wpu(), val(buffer@) == v64(s0.take(it.index@)), seq.sound() == f0, f0 == seq.sound()
@loopstart 0
let ghost k = it.index@; let ghost b0 = buffer@;
proof { lemma_fits(k as nat, s0.len()); }
@loopend 0
proof { assert(s0.skip(k).skip(1) =~= s0.skip(k + 1)); assert(s0.take(k + 1) =~= s0.take(k).push(s0[k])); lemma_v64_push(s0.take(k), s0[k]); }
@loopafter 0
proof { assert(s0.take(s0.len() as int) =~= s0); assert(s0.skip(s0.len() as int) =~= Seq::empty()); }
@loopbefore 0
proof { assert(s0.skip(0) =~= s0); assert(s0.take(0) =~= Seq::empty()); }
@loop 1
    invariant words_64@ + seq.rest() == s0, seq.sound() == f0
    decreases seq.rest().len()
@loopstart 1
proof { let w = words_64@; let t = seq.rest(); assert(w.push(word_64) + t =~= s0); }
@loopafter 1
proof { assert(words_64@ =~= s0); }
@loop 2 it
    invariant it.wf(), it.seq() == s0, buffer.wf(), buffer@.len() == it.index() * wpu(), buffer.cap() >= s0.len() * wpu(), val(buffer@) == v64(s0.take(it.index()))
@loopstart 2
let ghost k = it.index();
proof { lemma_fits(k as nat, s0.len()); }
@loopend 2
proof { assert(s0.take(k + 1) =~= s0.take(k).push(s0[k])); lemma_v64_push(s0.take(k), s0[k]); }
@loopafter 2
proof { assert(s0.take(s0.len() as int) =~= s0); }
@loopbefore 2
proof { assert(s0.take(0) =~= Seq::empty()); }
@mod
proof fn lemma_fits(k: nat, n: nat) requires k < n ensures k * wpu() + wpu() <= n * wpu(), (k + 1) * wpu() == k * wpu() + wpu()
{ assert(k * wpu() + wpu() <= n * wpu()) by (nonlinear_arith) requires k + 1 <= n; }
@fn push_word_64
    requires old(buffer).wf(), old(buffer)@.len() + wpu() <= old(buffer).cap()
    ensures final(buffer).wf(), final(buffer).cap() == old(buffer).cap(), final(buffer)@.len() == old(buffer)@.len() + wpu(), val(final(buffer)@) == val(old(buffer)@) + word_64 as nat * pw(old(buffer)@.len())
@loop 0 it
    invariant buffer.wf(), buffer.cap() == old(buffer).cap(), it.snapshot.end == wpu(), old(buffer)@.len() + wpu() <= buffer.cap(), buffer@ == old(buffer)@ + Seq::new(it.index@ as nat, |j: int| (word_64 >> ((j * $BITS) as usize)) as Word)
@loopafter 0
proof { let hi = Seq::new(wpu(), |j: int| (word_64 >> ((j * $BITS) as usize)) as Word); lemma_words64(word_64, hi); lemma_val_concat(old(buffer)@, hi); let (x, p) = (word_64 as nat, pw(old(buffer)@.len())); assert(x * p == p * x) by (nonlinear_arith); }
@fn len_64_to_max_len -> r
@rewrite `len_64 . checked_mul ( WORDS_PER_U64 ) . unwrap_or_else ( | | UBig :: panic_number_too_large ( ) )` => `match len_64.checked_mul(WORDS_PER_U64) { Some(x) => x, None => UBig::panic_number_too_large() }`
    ensures r == len_64 * wpu()
@fn Serialize for IBig::serialize -> r
@mono S=VpSerializer as serialize
@method2fn serialize_ibig IBig
@sig `Result < S :: Ok , S :: Error >` => `Result<VpPairDoc, VpErr>`
@rewrite `( self . sign ( ) , self . magnitude ( ) ) . serialize ( serializer )` => `serialize_pair(vp_self.sign(), vp_self.magnitude(), serializer)`
    requires vp_self.wf()
    ensures r matches Ok(d) ==> is_doc(d.mag(), vp_self.mag().v()) && d.sign() == vp_self.sg(), serializer.sound() ==> r is Ok
@mod
/// serde's Serialize for a pair: the derived Serialize of Sign, then UBig's (contract above)
#[verifier::external_body]
fn serialize_pair(s: crate::sign::Sign, m: &UBig, ser: VpSerializer) -> (r: Result<VpPairDoc, VpErr>)
    requires m.wf()
    ensures r matches Ok(d) ==> d.sign() == s && is_doc(d.mag(), m.v()), ser.sound() ==> r is Ok { unimplemented!() }
/// serde's Deserialize for a pair: the derived Deserialize of Sign, then UBig's (visit_seq above)
#[verifier::external_body]
fn deserialize_pair(d: VpPairDoc) -> (r: Result<(crate::sign::Sign, UBig), VpErr>)
    ensures r matches Ok((s, m)) ==> s == d.sign() && m.wf() && m.v() == v64(d.mag()) { unimplemented!() }
@fn Deserialize<'de> for IBig::deserialize -> r
@mono D=VpPairDoc as deserialize
@method2fn deserialize_ibig IBig
@sig `Result < Self , D :: Error >` => `Result<IBig, VpErr>`
@rewrite `Deserialize :: deserialize ( deserializer )` => `deserialize_pair(deserializer)`
    ensures r matches Ok(x) ==> x.wf() && x.v() == crate::ibig::smul(deserializer.sign(), v64(deserializer.mag()))
