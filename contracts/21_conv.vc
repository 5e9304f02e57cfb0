@file vp_bytes.rs
@mod
use vstd::arithmetic::div_mod::*;
/// 256^n
pub open spec fn bp(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * bp((n - 1) as nat) } }
pub proof fn lemma_bp_pos(n: nat) ensures bp(n) >= 1 decreases n { if n > 0 { lemma_bp_pos((n - 1) as nat); } }
pub proof fn lemma_bp_add(a: nat, b: nat) ensures bp(a + b) == bp(a) * bp(b) decreases a
{
    if a == 0 { assert(1 * bp(b) == bp(b)); } else {
        lemma_bp_add((a - 1) as nat, b);
        let (x, y) = (bp((a - 1) as nat), bp(b));
        assert((256 * x) * y == 256 * (x * y)) by (nonlinear_arith);
    }
}
pub proof fn lemma_bp_word() ensures bp($WBYTES) == B() { reveal_with_fuel(bp, 9); }
pub proof fn lemma_bp_pw(n: nat) ensures bp(n * $WBYTES) == pw(n) decreases n
{
    if n == 0 { assert(bp(0) == 1); } else {
        let m = (n - 1) as nat;
        lemma_bp_pw(m); lemma_bp_add($WBYTES, m * $WBYTES); lemma_bp_word();
        assert(n * $WBYTES == $WBYTES + m * $WBYTES) by (nonlinear_arith) requires n == m + 1;
    }
}
pub proof fn lemma_bval_split(s: Seq<u8>, k: int) requires 0 <= k <= s.len() ensures bval(s) == bval(s.take(k)) + bp(k as nat) * bval(s.skip(k)) decreases k
{
    if k == 0 { assert(s.skip(0) =~= s); assert(bval(s.take(0)) == 0); assert(bp(0) == 1); assert(1 * bval(s) == bval(s)) by (nonlinear_arith); }
    else {
        lemma_bval_split(s.skip(1), k - 1);
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        assert(s.skip(1).take(k - 1) =~= s.take(k).skip(1));
        assert(s.take(k)[0] == s[0]);
        let (a, p, r) = (bval(s.take(k).skip(1)), bp((k - 1) as nat), bval(s.skip(k)));
        assert(256 * (a + p * r) == 256 * a + (256 * p) * r) by (nonlinear_arith);
    }
}
pub proof fn lemma_bval_bound(s: Seq<u8>) ensures bval(s) < bp(s.len()) decreases s.len() { if s.len() > 0 { lemma_bval_bound(s.skip(1)); } }
pub proof fn lemma_bval_zero(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0 ensures bval(s) == 0 decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] == 0 by { assert(s.skip(1)[i] == s[i + 1]); } lemma_bval_zero(s.skip(1)); } }
/// trailing zero bytes do not count
pub proof fn lemma_bval_trim(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> s[i] == 0 ensures bval(s) == bval(s.take(k))
{ lemma_bval_split(s, k); assert forall|i: int| 0 <= i < s.skip(k).len() implies s.skip(k)[i] == 0 by { assert(s.skip(k)[i] == s[i + k]); } lemma_bval_zero(s.skip(k)); assert(bp(k as nat) * 0 == 0); }
pub proof fn lemma_bval_concat(a: Seq<u8>, b: Seq<u8>) ensures bval(a + b) == bval(a) + bp(a.len()) * bval(b)
{ lemma_bval_split(a + b, a.len() as int); assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b); }
/// the top byte counts bp(len - 1)
pub proof fn lemma_bval_last(s: Seq<u8>) requires s.len() > 0 ensures bval(s) == bval(s.drop_last()) + bp((s.len() - 1) as nat) * s.last() as nat
{
    let k = s.len() - 1; lemma_bval_split(s, k); assert(s.take(k) =~= s.drop_last()); let t = s.skip(k); assert(t.len() == 1 && t[0] == s.last()); assert(bval(t.skip(1)) == 0);
}
pub proof fn lemma_bp_mono(a: nat, b: nat) requires a <= b ensures bp(a) <= bp(b) { lemma_bp_add(a, (b - a) as nat); lemma_bp_pos(a); lemma_bp_pos((b - a) as nat); let (x, y) = (bp(a), bp((b - a) as nat)); assert(x * y >= x) by (nonlinear_arith) requires y >= 1; }
/// Word::from_le_bytes / from_be_bytes and their inverses (documented behaviour of core).
#[verifier::external_body]
pub fn word_from_le_bytes(b: [u8; $WBYTES]) -> (r: Word) ensures r as nat == bval(b@) { Word::from_le_bytes(b) }
#[verifier::external_body]
pub fn word_from_be_bytes(b: [u8; $WBYTES]) -> (r: Word) ensures r as nat == bval(b@.reverse()) { Word::from_be_bytes(b) }
pub uninterp spec fn word_le(x: Word) -> Seq<u8>;
#[verifier::external_body]
pub fn word_to_le_bytes(x: Word) -> (r: [u8; $WBYTES]) ensures bval(r@) == x, r@ == word_le(x) { x.to_le_bytes() }
#[verifier::external_body]
pub fn word_to_be_bytes(x: Word) -> (r: [u8; $WBYTES]) ensures bval(r@.reverse()) == x, r@.reverse() == word_le(x) { x.to_be_bytes() }
/// chunk.try_into().unwrap() to a word-sized array
#[verifier::external_body]
pub fn chunk_to_array(c: &[u8]) -> (r: [u8; $WBYTES]) requires c@.len() == $WBYTES ensures r@ == c@ { c.try_into().unwrap() }
@for $T $N in u8,1 u16,2 u32,4 u64,8 u128,16 usize,8
#[verifier::external_body]
pub fn $T_from_le_bytes(b: [u8; $N]) -> (r: $T) ensures r as nat == bval(b@) { $T::from_le_bytes(b) }
@endfor
@for $S $T in i8,u8 i16,u16 i32,u32 i64,u64 i128,u128 isize,usize
/// TryFrom between primitives succeeds exactly when the value fits (documented behaviour of core).
#[verifier::external_body]
pub fn $S_try_into_$T(x: $S) -> (r: Result<$T, ()>) ensures match r { Ok(w) => w as int == x as int, Err(_) => x < 0 } { x.try_into().map_err(|_| ()) }
#[verifier::external_body]
pub fn $T_try_into_$S(x: $T) -> (r: Result<$S, crate::error::OutOfBoundsError>) ensures match r { Ok(w) => w as int == x as int, Err(_) => x as int > $S::MAX as int } { x.try_into().map_err(|_| crate::error::OutOfBoundsError) }
#[verifier::external_body]
pub fn word_try_into_$S(x: Word) -> (r: Result<$S, crate::error::OutOfBoundsError>) ensures match r { Ok(w) => w as int == x as int, Err(_) => x as int > $S::MAX as int } { x.try_into().map_err(|_| crate::error::OutOfBoundsError) }
@endfor
@file vp_std.rs
@mod
pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
/// slice::chunks_exact / rchunks_exact (documented behaviour of core), written out over slices.
pub struct ChunksExact<'a> { pub rest: &'a [u8], pub size: usize }
pub fn chunks_exact<'a>(s: &'a [u8], size: usize) -> (r: ChunksExact<'a>) requires size > 0 ensures r.rest@ == s@, r.size == size { ChunksExact { rest: s, size } }
impl<'a> ChunksExact<'a> {
    pub fn vp_next(&mut self) -> (r: Option<&'a [u8]>) requires old(self).size > 0
        ensures final(self).size == old(self).size, match r { Some(c) => old(self).rest@.len() >= old(self).size && c@ == old(self).rest@.take(old(self).size as int) && final(self).rest@ == old(self).rest@.skip(old(self).size as int), None => old(self).rest@.len() < old(self).size && final(self).rest@ == old(self).rest@ }
    {
        if self.rest.len() < self.size { None } else {
            let (a, b) = self.rest.split_at(self.size);
            self.rest = b;
            Some(a)
        }
    }
    pub fn remainder(&self) -> (r: &'a [u8]) requires self.rest@.len() < self.size ensures r@ == self.rest@ { self.rest }
}
pub struct RChunksExact<'a> { pub rest: &'a [u8], pub size: usize }
pub fn rchunks_exact<'a>(s: &'a [u8], size: usize) -> (r: RChunksExact<'a>) requires size > 0 ensures r.rest@ == s@, r.size == size { RChunksExact { rest: s, size } }
impl<'a> RChunksExact<'a> {
    pub fn vp_next(&mut self) -> (r: Option<&'a [u8]>) requires old(self).size > 0
        ensures final(self).size == old(self).size, match r { Some(c) => old(self).rest@.len() >= old(self).size && c@ == old(self).rest@.skip(old(self).rest@.len() - old(self).size) && final(self).rest@ == old(self).rest@.take(old(self).rest@.len() - old(self).size), None => old(self).rest@.len() < old(self).size && final(self).rest@ == old(self).rest@ }
    {
        if self.rest.len() < self.size { None } else {
            let (a, b) = self.rest.split_at(self.rest.len() - self.size);
            self.rest = a;
            Some(b)
        }
    }
    pub fn remainder(&self) -> (r: &'a [u8]) requires self.rest@.len() < self.size ensures r@ == self.rest@ { self.rest }
}
@file primitive.rs
@const WORD_BYTES external ensures WORD_BYTES == $WBYTES
@plain
const _: () = assert!(WORD_BYTES == $WBYTES);
@mod
use crate::vp_bytes::*;
use crate::ubig::lemma_val_one;
@fn word_from_le_bytes_partial -> r
@rewrite `Word :: from_le_bytes (` => `word_from_le_bytes(`
    requires bytes@.len() <= $WBYTES
    ensures r as nat == bval(bytes@)
@before `Word :: from_le_bytes (`
proof { lemma_bval_trim(word_bytes@, bytes@.len() as int); assert(word_bytes@.take(bytes@.len() as int) =~= bytes@); }
@fn word_from_be_bytes_partial -> r
@rewrite `Word :: from_be_bytes (` => `word_from_be_bytes(`
@rewrite `Word :: BYTE_SIZE` => `WORD_BYTES`
    requires bytes@.len() <= $WBYTES
    ensures r as nat == bval(bytes@.reverse())
@before `Word :: from_be_bytes (`
proof { let t = word_bytes@.reverse(); lemma_bval_trim(t, bytes@.len() as int); assert(t.take(bytes@.len() as int) =~= bytes@.reverse()); }
@for $S $T $M in i8,u8,0x100int i16,u16,0x1_0000int i32,u32,0x1_0000_0000int i64,u64,0x1_0000_0000_0000_0000int i128,u128,0x1_0000_0000_0000_0000_0000_0000_0000_0000int isize,usize,0x1_0000_0000_0000_0000int
@fn PrimitiveSigned for $S::try_from_sign_magnitude -> r
@method2fn $S_try_from_sign_magnitude $S Self::Unsigned=$T
@rewrite `mag . try_into ( ) . map_err ( | _ | OutOfBoundsError )` => `$T_try_into_$S(mag)`
    ensures ({ let v = crate::ibig::smul(sign, mag as nat); match r { Ok(x) => x as int == v, Err(_) => v < $S::MIN as int || v > $S::MAX as int } })
@start
proof {
    let y: $T = (if mag == 0 { 0 } else { $M - mag }) as $T;
    assert((y as $S) as int == (if y as int <= $S::MAX as int { y as int } else { y as int - $M })) by (bit_vector);
}
@endfor
@file convert.rs
@mod
use crate::vp_math::*;
use crate::vp_bytes::*;
use crate::ubig::lemma_val_one;
/// zero bytes at the top do not change the value
proof fn lemma_bval_top(s: Seq<u8>, n: nat) requires 0 < n <= s.len(), s[n - 1] == 0 ensures bval(s.take(n - 1)) == bval(s.take(n as int))
{
    let t = s.take(n as int); lemma_bval_split(t, n - 1);
    assert(t.take(n - 1) =~= s.take(n - 1)); assert(t.skip(n - 1) =~= seq![0u8]);
    assert(bval(seq![0u8]) == 0) by { reveal_with_fuel(bval, 3); }
    assert(bp((n - 1) as nat) * 0 == 0);
}
@fn trim_le_bytes -> r
    ensures bval(r@) == bval(bytes@), r@.len() <= bytes@.len(), r@.len() == 0 || r@[r@.len() - 1] != 0
@loopbefore 0
proof { assert(bytes@.take(len as int) =~= bytes@); }
@loop 0
    invariant len <= bytes@.len(), bval(bytes@.take(len as int)) == bval(bytes@)
    decreases len
@loopstart 0
proof { lemma_bval_top(bytes@, len as nat); }
@loopafter 0
proof { assert(bytes@.subrange(0, len as int) =~= bytes@.take(len as int)); }
@fn trim_be_bytes -> r
    ensures bval(r@.reverse()) == bval(bytes@.reverse()), r@.len() <= bytes@.len(), r@.len() == 0 || r@[0] != 0
@loopbefore 0
proof { assert(bytes@.reverse().take(bytes@.len() - start) =~= bytes@.reverse()); }
@loop 0
    invariant start <= bytes@.len(), bval(bytes@.reverse().take(bytes@.len() - start)) == bval(bytes@.reverse())
    decreases bytes@.len() - start
@loopstart 0
proof { lemma_bval_top(bytes@.reverse(), (bytes@.len() - start) as nat); }
@loopafter 0
proof { assert(bytes@.subrange(start as int, bytes@.len() as int).reverse() =~= bytes@.reverse().take(bytes@.len() - start)); }
@fn UBig::from_le_bytes -> r
    ensures r.wf(), r.v() == bval(bytes@)
@mod
/// one more word of bytes
proof fn lemma_word_more(s: Seq<u8>, n: nat, w: Seq<Word>, x: Word)
    requires w.len() == n, n * $WBYTES + $WBYTES <= s.len(), val(w) == bval(s.take((n * $WBYTES) as int)), x as nat == bval(s.skip((n * $WBYTES) as int).take($WBYTES))
    ensures val(w.push(x)) == bval(s.take((n * $WBYTES + $WBYTES) as int))
{
    let k = (n * $WBYTES) as int; let t = s.take(k + $WBYTES);
    lemma_val_push(w, x); lemma_bp_pw(n); lemma_bval_split(t, k);
    assert(t.take(k) =~= s.take(k)); assert(t.skip(k) =~= s.skip(k).take($WBYTES));
    assert(x as nat * pw(n) == pw(n) * x as nat) by (nonlinear_arith);
}
proof fn lemma_word_rest(s: Seq<u8>, n: nat, w: Seq<Word>, x: Word)
    requires w.len() == n, n * $WBYTES <= s.len(), val(w) == bval(s.take((n * $WBYTES) as int)), x as nat == bval(s.skip((n * $WBYTES) as int))
    ensures val(w.push(x)) == bval(s)
{
    let k = (n * $WBYTES) as int;
    lemma_val_push(w, x); lemma_bp_pw(n); lemma_bval_split(s, k);
    assert(x as nat * pw(n) == pw(n) * x as nat) by (nonlinear_arith);
}
@fn UBig::from_le_bytes_large -> r
@rewrite `bytes . chunks_exact ( WORD_BYTES )` => `crate::vp_std::chunks_exact(bytes, WORD_BYTES)`
@rewrite `for chunk in & mut chunks` => `while let Some(chunk) = chunks.vp_next()`
@rewrite `Word :: from_le_bytes ( chunk . try_into ( ) . unwrap ( ) )` => `word_from_le_bytes(chunk_to_array(chunk))`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires bytes@.len() > $WBYTES
    ensures r.wf(), r.v() == bval(bytes@)
@loop 0
    invariant_except_break buffer@.len() * $WBYTES + chunks.rest@.len() == bytes@.len()
    invariant buffer.wf(), buffer@.len() * $WBYTES <= bytes@.len(), chunks.size == $WBYTES, buffer.cap() * $WBYTES >= bytes@.len(), chunks.rest@ == bytes@.skip((buffer@.len() * $WBYTES) as int), val(buffer@) == bval(bytes@.take((buffer@.len() * $WBYTES) as int))
    ensures buffer@.len() * $WBYTES + chunks.rest@.len() == bytes@.len(), chunks.rest@.len() < $WBYTES
    decreases chunks.rest@.len()
@before `buffer . push ( Word`
let ghost n0 = buffer@.len(); let ghost w0 = buffer@;
proof { let x = bval(chunk@) as Word; lemma_bval_bound(chunk@); lemma_bp_word(); lemma_word_more(bytes@, n0, w0, x); assert(bytes@.skip((n0 * $WBYTES) as int).skip($WBYTES) =~= bytes@.skip((n0 * $WBYTES + $WBYTES) as int)); }
@before `if ! chunks . remainder`
let ghost n0 = buffer@.len(); let ghost w0 = buffer@;
proof { let t = bytes@.skip((n0 * $WBYTES) as int); let x = bval(t) as Word; lemma_bval_bound(t); lemma_bp_word(); lemma_bp_mono(t.len(), $WBYTES); lemma_word_rest(bytes@, n0, w0, x); if t.len() == 0 { assert(bytes@.take((n0 * $WBYTES) as int) =~= bytes@); } }
@fn UBig::from_be_bytes -> r
    ensures r.wf(), r.v() == bval(bytes@.reverse())
@fn UBig::from_be_bytes_large -> r
@rewrite `bytes . rchunks_exact ( WORD_BYTES )` => `crate::vp_std::rchunks_exact(bytes, WORD_BYTES)`
@rewrite `for chunk in & mut chunks` => `while let Some(chunk) = chunks.vp_next()`
@rewrite `Word :: from_be_bytes ( chunk . try_into ( ) . unwrap ( ) )` => `word_from_be_bytes(chunk_to_array(chunk))`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires bytes@.len() > $WBYTES
    ensures r.wf(), r.v() == bval(bytes@.reverse())
@start
let ghost s = bytes@.reverse();
@loop 0
    invariant_except_break buffer@.len() * $WBYTES + chunks.rest@.len() == bytes@.len()
    invariant s == bytes@.reverse(), buffer.wf(), buffer@.len() * $WBYTES <= bytes@.len(), chunks.size == $WBYTES, buffer.cap() * $WBYTES >= bytes@.len(), chunks.rest@.reverse() =~= s.skip((buffer@.len() * $WBYTES) as int), val(buffer@) == bval(s.take((buffer@.len() * $WBYTES) as int))
    ensures buffer@.len() * $WBYTES + chunks.rest@.len() == bytes@.len(), chunks.rest@.len() < $WBYTES
    decreases chunks.rest@.len()
@before `buffer . push ( Word`
let ghost n0 = buffer@.len(); let ghost w0 = buffer@;
proof { let t = chunk@.reverse(); let x = bval(t) as Word; lemma_bval_bound(t); lemma_bp_word(); assert(t =~= s.skip((n0 * $WBYTES) as int).take($WBYTES)); lemma_word_more(s, n0, w0, x); assert(s.skip((n0 * $WBYTES) as int).skip($WBYTES) =~= s.skip((n0 * $WBYTES + $WBYTES) as int)); }
@before `if ! chunks . remainder`
let ghost n0 = buffer@.len(); let ghost w0 = buffer@;
proof { let t = s.skip((n0 * $WBYTES) as int); let x = bval(t) as Word; lemma_bval_bound(t); lemma_bp_word(); lemma_bp_mono(t.len(), $WBYTES); lemma_word_rest(s, n0, w0, x); if t.len() == 0 { assert(s.take((n0 * $WBYTES) as int) =~= s); } }
@mod
proof fn lemma_bp_p2(n: nat) ensures bp(n) == crate::vp_bits::p2(8 * n) decreases n
{ reveal_with_fuel(crate::vp_bits::p2, 9); if n > 0 { lemma_bp_p2((n - 1) as nat); } }
/// keeping the bytes up to the highest set bit keeps the value, and the top byte kept is not zero
proof fn lemma_word_trim(x: Word, b: Seq<u8>, k: int)
    requires b.len() == $WBYTES, bval(b) == x, k == $WBYTES - crate::vp_bits::lzs(x) / 8
    ensures 0 <= k <= $WBYTES, bval(b.take(k)) == x, x != 0 ==> k > 0, k > 0 ==> b[k - 1] != 0
{
    use crate::vp_bits::*;
    lemma_lz(x); let l = ($BITS - lzs(x)) as nat;
    lemma_bp_p2(k as nat); lemma_p2_mono(l, (8 * k) as nat);
    lemma_bval_split(b, k);
    let h = bval(b.skip(k));
    assert(bp(k as nat) * h >= bp(k as nat) || h == 0) by (nonlinear_arith) requires h >= 0, bp(k as nat) >= 0;
    assert(h == 0);
    assert(bp(k as nat) * 0 == 0);
    if k > 0 {
        let t = b.take(k);
        lemma_bval_last(t); lemma_bval_bound(t.drop_last()); lemma_bp_p2((k - 1) as nat); lemma_p2_mono((8 * (k - 1)) as nat, (l - 1) as nat);
        assert(bp((k - 1) as nat) * 0 == 0);
        assert(t.last() == b[k - 1]);
    }
}
/// val of the lower words plus the top one
proof fn lemma_top_bytes(w: Seq<Word>, lo: Seq<u8>, hi: Seq<u8>)
    requires w.len() > 0, lo.len() == (w.len() - 1) * $WBYTES, bval(lo) == val(w.drop_last()), bval(hi) == w.last()
    ensures bval(lo + hi) == val(w)
{
    lemma_bval_concat(lo, hi); lemma_bp_pw((w.len() - 1) as nat);
    assert(w =~= w.drop_last().push(w.last())); lemma_val_push(w.drop_last(), w.last());
    assert(pw((w.len() - 1) as nat) * w.last() == w.last() * pw((w.len() - 1) as nat)) by (nonlinear_arith);
}
@fn UBig::to_le_bytes -> r
@rewrite `x . to_le_bytes ( )` => `word_to_le_bytes(*x)`
@rewrite `word . to_le_bytes ( )` => `word_to_le_bytes(*word)`
@rewrite `last . to_le_bytes ( )` => `word_to_le_bytes(last)`
    requires self.wf()
    ensures bval(r@) == self.v(), r@.len() == 0 || r@.last() != 0
@before `bytes [ .. WORD_BYTES - skip_bytes ] . to_vec`
proof { lemma_word_trim(*x, bytes@, $WBYTES - skip_bytes); }
@loop 0 i idx
    invariant n == buffer@.len(), n >= 1, i <= n - 1, bytes@.len() == i * $WBYTES, bval(bytes@) == val(buffer@.take(i as int))
    decreases n - 1 - i
@loopstart 0
let ghost b0 = bytes@;
proof { let t = buffer@.take(i as int); assert(t.drop_last() =~= buffer@.take(i - 1)); }
@loopend 0
proof { let hi = bytes@.skip(b0.len() as int); assert(bytes@ =~= b0 + hi); assert(hi =~= word_le(buffer@[i - 1])); lemma_top_bytes(buffer@.take(i as int), b0, hi); }
@before `let last_bytes =`
let ghost b1 = bytes@;
@before `bytes . extend_from_slice ( & last_bytes`
proof { lemma_word_trim(last, last_bytes@, $WBYTES - skip_last_bytes); lemma_top_bytes(buffer@, b1, last_bytes@.take($WBYTES - skip_last_bytes)); assert(buffer@.take(n - 1) =~= buffer@.drop_last()); }
@after `bytes . extend_from_slice ( & last_bytes [ .. WORD_BYTES - skip_last_bytes ] ) ;`
proof { assert(bytes@ =~= b1 + last_bytes@.take($WBYTES - skip_last_bytes)); }
@mod
/// one more (lower) word appended to big-endian bytes
proof fn lemma_be_step(w: Seq<Word>, i: int, b0: Seq<u8>, lo: Seq<u8>, b: Seq<u8>)
    requires 0 <= i < w.len(), bval(b0.reverse()) == val(w.skip(i + 1)), lo.len() == $WBYTES, bval(lo.reverse()) == w[i], b == b0 + lo
    ensures bval(b.reverse()) == val(w.skip(i))
{
    assert(b.reverse() =~= lo.reverse() + b0.reverse());
    lemma_bval_concat(lo.reverse(), b0.reverse()); lemma_bp_word();
    assert(w.skip(i).skip(1) =~= w.skip(i + 1));
    assert(w.skip(i)[0] == w[i]); lemma_val_first(w.skip(i));
}
@fn UBig::to_be_bytes -> r
@rewrite `x . to_be_bytes ( )` => `word_to_be_bytes(*x)`
@rewrite `word . to_be_bytes ( )` => `word_to_be_bytes(*word)`
@rewrite `last . to_be_bytes ( )` => `word_to_be_bytes(last)`
    requires self.wf()
    ensures bval(r@.reverse()) == self.v(), r@.len() == 0 || r@[0] != 0
@before `bytes [ skip_bytes .. ] . to_vec`
proof { let t = bytes@.reverse(); lemma_word_trim(*x, t, $WBYTES - skip_bytes); assert(t.take($WBYTES - skip_bytes) =~= bytes@.skip(skip_bytes as int).reverse()); }
@loop 0 i idx
    invariant n == buffer@.len(), n >= 1, i <= n - 1, bytes@.len() > 0 ==> bytes@[0] == top, bval(bytes@.reverse()) == val(buffer@.skip(i as int)), bytes@.len() > 0
    decreases i
@loopend 0
proof { let lo = bytes@.skip(b0.len() as int); assert(bytes@ =~= b0 + lo); assert(lo.reverse() =~= word_le(buffer@[i as int])); lemma_be_step(buffer@, i as int, b0, lo, bytes@); }
@loopafter 0
proof { assert(buffer@.skip(0) =~= buffer@); }
@loopstart 0
let ghost b0 = bytes@;
@loopbefore 0
proof {
    let t = last_bytes@.reverse(); lemma_word_trim(last, t, $WBYTES - skip_last_bytes);
    assert(t.take($WBYTES - skip_last_bytes) =~= bytes@.reverse());
    lemma_val_one(last); assert(buffer@.skip(n - 1) =~= seq![last]);
}
let ghost top = bytes@[0];
