@file vp_core.rs
@mod
pub use core::mem;
pub use core::str;
/// Stand-in for core::fmt: a formatter collects the characters written to it and carries the formatting options.
/// Writing may fail (the sink decides) unless `sound`.
pub mod fmt {
    use vstd::prelude::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    #[derive(Clone, Copy)]
    pub enum Alignment { Left, Right, Center }
    pub struct Opts { pub sign_plus: bool, pub alternate: bool, pub zero: bool, pub width: Option<usize>, pub fill: char, pub align: Option<Alignment>, pub precision: Option<usize>, pub sign_minus: bool, pub sound: bool }
    #[verifier::external_body]
    pub struct Formatter { x: u8 }
    impl Formatter {
        pub uninterp spec fn out(&self) -> Seq<char>;
        pub uninterp spec fn opts(&self) -> Opts;
        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result)
            ensures final(self).opts() == old(self).opts(), r is Ok ==> final(self).out() == old(self).out() + s@, old(self).opts().sound ==> r is Ok { unimplemented!() }
        #[verifier::external_body]
        pub fn write_char(&mut self, c: char) -> (r: Result)
            ensures final(self).opts() == old(self).opts(), r is Ok ==> final(self).out() == old(self).out().push(c), old(self).opts().sound ==> r is Ok { unimplemented!() }
        #[verifier::external_body] pub fn sign_plus(&self) -> (r: bool) ensures r == self.opts().sign_plus { unimplemented!() }
        #[verifier::external_body] pub fn sign_minus(&self) -> (r: bool) ensures r == self.opts().sign_minus { unimplemented!() }
        #[verifier::external_body] pub fn alternate(&self) -> (r: bool) ensures r == self.opts().alternate { unimplemented!() }
        #[verifier::external_body] pub fn sign_aware_zero_pad(&self) -> (r: bool) ensures r == self.opts().zero { unimplemented!() }
        #[verifier::external_body] pub fn width(&self) -> (r: Option<usize>) ensures r == self.opts().width { unimplemented!() }
        #[verifier::external_body] pub fn precision(&self) -> (r: Option<usize>) ensures r == self.opts().precision { unimplemented!() }
        #[verifier::external_body] pub fn fill(&self) -> (r: char) ensures r == self.opts().fill { unimplemented!() }
        #[verifier::external_body] pub fn align(&self) -> (r: Option<Alignment>) ensures r == self.opts().align { unimplemented!() }
    }
    pub trait Write { }
    pub trait Display { fn fmt(&self, f: &mut Formatter) -> Result; }
    pub trait Debug { fn fmt(&self, f: &mut Formatter) -> Result; }
    pub trait Binary { fn fmt(&self, f: &mut Formatter) -> Result; }
    pub trait Octal { fn fmt(&self, f: &mut Formatter) -> Result; }
    pub trait LowerHex { fn fmt(&self, f: &mut Formatter) -> Result; }
    pub trait UpperHex { fn fmt(&self, f: &mut Formatter) -> Result; }
}
@file vp_fmt.rs
@plain
const _: () = assert!(crate::radix::DigitCase::NoLetters as u8 == 0 && crate::radix::DigitCase::Lower as u8 == 39 && crate::radix::DigitCase::Upper as u8 == 7);
@mod
use vstd::prelude::*;
use vstd::string::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::vp_radix::*;
use crate::radix::DigitCase;
use crate::arch::word::Word;
use crate::vp_core::fmt::*;
/// The shortest digits of v, most significant first.
#[via_fn]
proof fn digs_dec(v: nat, r: nat) { if r >= 2 && v >= r { assert(v / r < v) by (nonlinear_arith) requires r >= 2, v >= r; } }
pub open spec fn digs(v: nat, r: nat) -> Seq<u8> decreases v via digs_dec { if r < 2 || v < r { seq![v as u8] } else { digs(v / r, r).push((v % r) as u8) } }
/// The n lowest digits of v, most significant first.
pub open spec fn digs_n(v: nat, r: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { digs_n(v / r, r, (n - 1) as nat).push((v % r) as u8) } }
pub open spec fn case_off(c: DigitCase) -> u8 { match c { DigitCase::NoLetters => 0, DigitCase::Lower => 39, DigitCase::Upper => 7 } }
/// Character code of a digit.
pub open spec fn asc1(d: u8, c: DigitCase) -> u8 { if d < 10 { (d + 48) as u8 } else { (d + 48 + case_off(c)) as u8 } }
pub open spec fn asc(s: Seq<u8>, c: DigitCase) -> Seq<char> { Seq::new(s.len(), |i: int| asc1(s[i], c) as char) }
/// digits the case can show
pub open spec fn fits(s: Seq<u8>, c: DigitCase) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < (if c is NoLetters { 10int } else { 36 }) }
pub open spec fn below(s: Seq<u8>, r: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < r }
/// the digit case suits the radix
pub open spec fn case_ok(r: nat, c: DigitCase) -> bool { 2 <= r <= 36 && (c is NoLetters ==> r <= 10) }
pub open spec fn rep(c: char, n: nat) -> Seq<char> { Seq::new(n, |i: int| c) }
/// What the standard library documents for padding a number: its sign and prefix `head`, its digits.
pub open spec fn padded(o: Opts, head: Seq<char>, digits: Seq<char>) -> Seq<char> {
    let len = head.len() + digits.len();
    match o.width {
        None => head + digits,
        Some(w) => if w <= len { head + digits } else if o.zero { head + rep('0', (w - len) as nat) + digits } else {
            let n = w - len;
            let left = match o.align { Some(Alignment::Left) => 0, Some(Alignment::Center) => n / 2, _ => n };
            rep(o.fill, left as nat) + head + digits + rep(o.fill, (n - left) as nat)
        },
    }
}
pub open spec fn sign_str(neg: bool, o: Opts) -> Seq<char> { if neg { seq!['-'] } else if o.sign_plus { seq!['+'] } else { Seq::empty() } }
pub open spec fn shown(neg: bool, v: nat, radix: nat, prefix: Seq<char>, c: DigitCase, o: Opts) -> Seq<char> { padded(o, sign_str(neg, o) + prefix, asc(digs(v, radix), c)) }
/// exactly s was written
pub open spec fn wrote(a: Formatter, b: Formatter, r: Result, s: Seq<char>) -> bool { b.opts() == a.opts() && (a.opts().sound ==> r is Ok) && (r is Ok ==> b.out() == a.out() + s) }
#[verifier::external_body]
pub fn case_word(c: DigitCase) -> (r: crate::arch::word::Word) ensures r == case_off(c) { c as crate::arch::word::Word }
/// length in bytes of a string of ASCII characters
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures (forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] < '\u{80}') ==> r == s@.len() { s.len() }
/// str::from_utf8_unchecked of ASCII bytes
#[verifier::external_body]
pub fn ascii_str(b: &[u8]) -> (s: &str) requires forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] < 128
    ensures s@.len() == b@.len(), forall|i: int| 0 <= i < b@.len() ==> #[trigger] s@[i] == b@[i] as char { unsafe { core::str::from_utf8_unchecked(b) } }
/// the range a..b of an array as &mut [T] (`&mut s[a..b]`)
pub fn range_mut<'a, const N: usize>(s: &'a mut [u8; N], a: usize, b: usize) -> (r: &'a mut [u8]) requires a <= b <= N
    ensures r@ == old(s)@.subrange(a as int, b as int), final(r)@.len() == b - a, final(s)@ == old(s)@.take(a as int) + final(r)@ + old(s)@.skip(b as int), final(s)@.subrange(a as int, b as int) == final(r)@ { &mut s[a..b] }
pub open spec fn piece(s: Seq<u8>, n: int, j: int) -> Seq<u8> { s.subrange(j * n, j * n + n) }
/// the length of an array type
pub fn arr_len<const N: usize>(a: &[u8; N]) -> (r: usize) ensures r == a@.len() { N }
/// slice::chunks_exact_mut collected (documented behaviour of core)
#[verifier::external_body]
pub fn chunk_vec_mut<'a>(s: &'a mut [u8], n: usize) -> (r: Vec<&'a mut [u8]>) requires n > 0
    ensures r@.len() == old(s)@.len() / n as nat, final(s)@.len() == old(s)@.len(),
        forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]@) == piece(old(s)@, n as int, j),
        forall|j: int| 0 <= j < r@.len() ==> #[trigger] piece(final(s)@, n as int, j) == final(r@[j])@ { s.chunks_exact_mut(n).collect() }
/// <&mut [u8; N]>::try_from(slice).unwrap()
#[verifier::external_body]
pub fn to_array_mut<'a, const N: usize>(s: &'a mut [u8]) -> (r: &'a mut [u8; N]) requires old(s)@.len() == N
    ensures r@ == old(s)@, final(s)@ == final(r)@ { s.try_into().unwrap() }
@file arch/generic/digits.rs
@const DIGIT_CHUNK_LEN ensures DIGIT_CHUNK_LEN == $WBYTES
@mod
use crate::vp_fmt::*;
use crate::vp_std::*;
pub open spec fn lane(w: Word, k: int) -> u8 { ((w >> ((8 * k) as $W)) & 0xff) as u8 }
/// Word::from_ne_bytes / to_ne_bytes on a little-endian target
#[verifier::external_body]
pub fn word_of(b: [u8; DIGIT_CHUNK_LEN]) -> (w: Word) ensures forall|k: int| 0 <= k < $WBYTES ==> #[trigger] lane(w, k) == b@[k] { Word::from_ne_bytes(b) }
#[verifier::external_body]
pub fn bytes_of(w: Word) -> (b: [u8; DIGIT_CHUNK_LEN]) ensures forall|k: int| 0 <= k < $WBYTES ==> #[trigger] b@[k] == lane(w, k) { w.to_ne_bytes() }
@if bits==16
pub proof fn lemma_lanes_no(w: Word) requires forall|k: int| 0 <= k < 2 ==> #[trigger] lane(w, k) < 10 ensures w + 12336 <= $MAX, ({ let y = (w + 12336u16) as u16; forall|k: int| 0 <= k < 2 ==> #[trigger] lane(y, k) == lane(w, k) + 48 })
{
    assert(lane(w, 0) < 10); assert(lane(w, 1) < 10);
    assert((((w) >> 0u16) & 0xffu16) <= 0xff) by (bit_vector); assert((((w) >> 8u16) & 0xffu16) <= 0xff) by (bit_vector);
    assert(w + 12336u16 <= 65535u16) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 10, (((w) >> 8u16) & 0xffu16) < 10;
    let y = (w + 12336u16) as u16;
    assert((((y) >> 0u16) & 0xffu16) == (((w) >> 0u16) & 0xffu16) + 48) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 10, (((w) >> 8u16) & 0xffu16) < 10, y == (w + 12336u16) as u16;
    assert((((y) >> 8u16) & 0xffu16) == (((w) >> 8u16) & 0xffu16) + 48) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 10, (((w) >> 8u16) & 0xffu16) < 10, y == (w + 12336u16) as u16;
    assert forall|k: int| 0 <= k < 2 implies #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 48 }) by { assert((((y) >> 0u16) & 0xffu16) <= 0xff) by (bit_vector); if k == 0 { } assert((((y) >> 8u16) & 0xffu16) <= 0xff) by (bit_vector); if k == 1 { } }
}
pub proof fn lemma_lanes_lo(w: Word) requires forall|k: int| 0 <= k < 2 ==> #[trigger] lane(w, k) < 36 ensures (30326u16 + w) <= $MAX, ({ let l = (((30326u16 + w) as u16) >> 7u16) & 257u16; let x = (w + l * 39) as u16; let y = (x + 12336u16) as u16; l * 39 <= $MAX && w + l * 39 <= $MAX && x + 12336 <= $MAX && forall|k: int| 0 <= k < 2 ==> #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 87 }) })
{
    assert(lane(w, 0) < 36); assert(lane(w, 1) < 36);
    assert((((w) >> 0u16) & 0xffu16) <= 0xff) by (bit_vector); assert((((w) >> 8u16) & 0xffu16) <= 0xff) by (bit_vector);
    let l = (((30326u16 + w) as u16) >> 7u16) & 257u16;
    assert(30326u16 + w <= 65535u16) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36;
    assert(l * 39u16 <= 65535u16) by (bit_vector) requires l == (((30326u16 + w) as u16) >> 7u16) & 257u16;
    assert(w + ((l * 39u16) as u16) <= 65535u16) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36, l == (((30326u16 + w) as u16) >> 7u16) & 257u16;
    let x = (w + ((l * 39u16) as u16)) as u16;
    assert(x + 12336u16 <= 65535u16) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36, l == (((30326u16 + w) as u16) >> 7u16) & 257u16, x == (w + ((l * 39u16) as u16)) as u16;
    let y = (x + 12336u16) as u16;
    assert((((y) >> 0u16) & 0xffu16) == (if (((w) >> 0u16) & 0xffu16) < 10 { (((w) >> 0u16) & 0xffu16) + 48 } else { (((w) >> 0u16) & 0xffu16) + 87 })) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36, l == (((30326u16 + w) as u16) >> 7u16) & 257u16, x == (w + ((l * 39u16) as u16)) as u16, y == (x + 12336u16) as u16;
    assert((((y) >> 8u16) & 0xffu16) == (if (((w) >> 8u16) & 0xffu16) < 10 { (((w) >> 8u16) & 0xffu16) + 48 } else { (((w) >> 8u16) & 0xffu16) + 87 })) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36, l == (((30326u16 + w) as u16) >> 7u16) & 257u16, x == (w + ((l * 39u16) as u16)) as u16, y == (x + 12336u16) as u16;
    assert forall|k: int| 0 <= k < 2 implies #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 87 }) by { assert((((y) >> 0u16) & 0xffu16) <= 0xff) by (bit_vector); if k == 0 { } assert((((y) >> 8u16) & 0xffu16) <= 0xff) by (bit_vector); if k == 1 { } }
}
pub proof fn lemma_lanes_up(w: Word) requires forall|k: int| 0 <= k < 2 ==> #[trigger] lane(w, k) < 36 ensures (30326u16 + w) <= $MAX, ({ let l = (((30326u16 + w) as u16) >> 7u16) & 257u16; let x = (w + l * 7) as u16; let y = (x + 12336u16) as u16; l * 7 <= $MAX && w + l * 7 <= $MAX && x + 12336 <= $MAX && forall|k: int| 0 <= k < 2 ==> #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 55 }) })
{
    assert(lane(w, 0) < 36); assert(lane(w, 1) < 36);
    assert((((w) >> 0u16) & 0xffu16) <= 0xff) by (bit_vector); assert((((w) >> 8u16) & 0xffu16) <= 0xff) by (bit_vector);
    let l = (((30326u16 + w) as u16) >> 7u16) & 257u16;
    assert(30326u16 + w <= 65535u16) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36;
    assert(l * 7u16 <= 65535u16) by (bit_vector) requires l == (((30326u16 + w) as u16) >> 7u16) & 257u16;
    assert(w + ((l * 7u16) as u16) <= 65535u16) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36, l == (((30326u16 + w) as u16) >> 7u16) & 257u16;
    let x = (w + ((l * 7u16) as u16)) as u16;
    assert(x + 12336u16 <= 65535u16) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36, l == (((30326u16 + w) as u16) >> 7u16) & 257u16, x == (w + ((l * 7u16) as u16)) as u16;
    let y = (x + 12336u16) as u16;
    assert((((y) >> 0u16) & 0xffu16) == (if (((w) >> 0u16) & 0xffu16) < 10 { (((w) >> 0u16) & 0xffu16) + 48 } else { (((w) >> 0u16) & 0xffu16) + 55 })) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36, l == (((30326u16 + w) as u16) >> 7u16) & 257u16, x == (w + ((l * 7u16) as u16)) as u16, y == (x + 12336u16) as u16;
    assert((((y) >> 8u16) & 0xffu16) == (if (((w) >> 8u16) & 0xffu16) < 10 { (((w) >> 8u16) & 0xffu16) + 48 } else { (((w) >> 8u16) & 0xffu16) + 55 })) by (bit_vector) requires (((w) >> 0u16) & 0xffu16) < 36, (((w) >> 8u16) & 0xffu16) < 36, l == (((30326u16 + w) as u16) >> 7u16) & 257u16, x == (w + ((l * 7u16) as u16)) as u16, y == (x + 12336u16) as u16;
    assert forall|k: int| 0 <= k < 2 implies #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 55 }) by { assert((((y) >> 0u16) & 0xffu16) <= 0xff) by (bit_vector); if k == 0 { } assert((((y) >> 8u16) & 0xffu16) <= 0xff) by (bit_vector); if k == 1 { } }
}
@endif
@if bits==32
pub proof fn lemma_lanes_no(w: Word) requires forall|k: int| 0 <= k < 4 ==> #[trigger] lane(w, k) < 10 ensures w + 808464432 <= $MAX, ({ let y = (w + 808464432u32) as u32; forall|k: int| 0 <= k < 4 ==> #[trigger] lane(y, k) == lane(w, k) + 48 })
{
    assert(lane(w, 0) < 10); assert(lane(w, 1) < 10); assert(lane(w, 2) < 10); assert(lane(w, 3) < 10);
    assert((((w) >> 0u32) & 0xffu32) <= 0xff) by (bit_vector); assert((((w) >> 8u32) & 0xffu32) <= 0xff) by (bit_vector); assert((((w) >> 16u32) & 0xffu32) <= 0xff) by (bit_vector); assert((((w) >> 24u32) & 0xffu32) <= 0xff) by (bit_vector);
    assert(w + 808464432u32 <= 4294967295u32) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 10, (((w) >> 8u32) & 0xffu32) < 10, (((w) >> 16u32) & 0xffu32) < 10, (((w) >> 24u32) & 0xffu32) < 10;
    let y = (w + 808464432u32) as u32;
    assert((((y) >> 0u32) & 0xffu32) == (((w) >> 0u32) & 0xffu32) + 48) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 10, (((w) >> 8u32) & 0xffu32) < 10, (((w) >> 16u32) & 0xffu32) < 10, (((w) >> 24u32) & 0xffu32) < 10, y == (w + 808464432u32) as u32;
    assert((((y) >> 8u32) & 0xffu32) == (((w) >> 8u32) & 0xffu32) + 48) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 10, (((w) >> 8u32) & 0xffu32) < 10, (((w) >> 16u32) & 0xffu32) < 10, (((w) >> 24u32) & 0xffu32) < 10, y == (w + 808464432u32) as u32;
    assert((((y) >> 16u32) & 0xffu32) == (((w) >> 16u32) & 0xffu32) + 48) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 10, (((w) >> 8u32) & 0xffu32) < 10, (((w) >> 16u32) & 0xffu32) < 10, (((w) >> 24u32) & 0xffu32) < 10, y == (w + 808464432u32) as u32;
    assert((((y) >> 24u32) & 0xffu32) == (((w) >> 24u32) & 0xffu32) + 48) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 10, (((w) >> 8u32) & 0xffu32) < 10, (((w) >> 16u32) & 0xffu32) < 10, (((w) >> 24u32) & 0xffu32) < 10, y == (w + 808464432u32) as u32;
    assert forall|k: int| 0 <= k < 4 implies #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 48 }) by { assert((((y) >> 0u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 0 { } assert((((y) >> 8u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 1 { } assert((((y) >> 16u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 2 { } assert((((y) >> 24u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 3 { } }
}
pub proof fn lemma_lanes_lo(w: Word) requires forall|k: int| 0 <= k < 4 ==> #[trigger] lane(w, k) < 36 ensures (1987475062u32 + w) <= $MAX, ({ let l = (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32; let x = (w + l * 39) as u32; let y = (x + 808464432u32) as u32; l * 39 <= $MAX && w + l * 39 <= $MAX && x + 808464432 <= $MAX && forall|k: int| 0 <= k < 4 ==> #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 87 }) })
{
    assert(lane(w, 0) < 36); assert(lane(w, 1) < 36); assert(lane(w, 2) < 36); assert(lane(w, 3) < 36);
    assert((((w) >> 0u32) & 0xffu32) <= 0xff) by (bit_vector); assert((((w) >> 8u32) & 0xffu32) <= 0xff) by (bit_vector); assert((((w) >> 16u32) & 0xffu32) <= 0xff) by (bit_vector); assert((((w) >> 24u32) & 0xffu32) <= 0xff) by (bit_vector);
    let l = (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32;
    assert(1987475062u32 + w <= 4294967295u32) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36;
    assert(l * 39u32 <= 4294967295u32) by (bit_vector) requires l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32;
    assert(w + ((l * 39u32) as u32) <= 4294967295u32) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32;
    let x = (w + ((l * 39u32) as u32)) as u32;
    assert(x + 808464432u32 <= 4294967295u32) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 39u32) as u32)) as u32;
    let y = (x + 808464432u32) as u32;
    assert((((y) >> 0u32) & 0xffu32) == (if (((w) >> 0u32) & 0xffu32) < 10 { (((w) >> 0u32) & 0xffu32) + 48 } else { (((w) >> 0u32) & 0xffu32) + 87 })) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 39u32) as u32)) as u32, y == (x + 808464432u32) as u32;
    assert((((y) >> 8u32) & 0xffu32) == (if (((w) >> 8u32) & 0xffu32) < 10 { (((w) >> 8u32) & 0xffu32) + 48 } else { (((w) >> 8u32) & 0xffu32) + 87 })) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 39u32) as u32)) as u32, y == (x + 808464432u32) as u32;
    assert((((y) >> 16u32) & 0xffu32) == (if (((w) >> 16u32) & 0xffu32) < 10 { (((w) >> 16u32) & 0xffu32) + 48 } else { (((w) >> 16u32) & 0xffu32) + 87 })) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 39u32) as u32)) as u32, y == (x + 808464432u32) as u32;
    assert((((y) >> 24u32) & 0xffu32) == (if (((w) >> 24u32) & 0xffu32) < 10 { (((w) >> 24u32) & 0xffu32) + 48 } else { (((w) >> 24u32) & 0xffu32) + 87 })) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 39u32) as u32)) as u32, y == (x + 808464432u32) as u32;
    assert forall|k: int| 0 <= k < 4 implies #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 87 }) by { assert((((y) >> 0u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 0 { } assert((((y) >> 8u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 1 { } assert((((y) >> 16u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 2 { } assert((((y) >> 24u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 3 { } }
}
pub proof fn lemma_lanes_up(w: Word) requires forall|k: int| 0 <= k < 4 ==> #[trigger] lane(w, k) < 36 ensures (1987475062u32 + w) <= $MAX, ({ let l = (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32; let x = (w + l * 7) as u32; let y = (x + 808464432u32) as u32; l * 7 <= $MAX && w + l * 7 <= $MAX && x + 808464432 <= $MAX && forall|k: int| 0 <= k < 4 ==> #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 55 }) })
{
    assert(lane(w, 0) < 36); assert(lane(w, 1) < 36); assert(lane(w, 2) < 36); assert(lane(w, 3) < 36);
    assert((((w) >> 0u32) & 0xffu32) <= 0xff) by (bit_vector); assert((((w) >> 8u32) & 0xffu32) <= 0xff) by (bit_vector); assert((((w) >> 16u32) & 0xffu32) <= 0xff) by (bit_vector); assert((((w) >> 24u32) & 0xffu32) <= 0xff) by (bit_vector);
    let l = (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32;
    assert(1987475062u32 + w <= 4294967295u32) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36;
    assert(l * 7u32 <= 4294967295u32) by (bit_vector) requires l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32;
    assert(w + ((l * 7u32) as u32) <= 4294967295u32) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32;
    let x = (w + ((l * 7u32) as u32)) as u32;
    assert(x + 808464432u32 <= 4294967295u32) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 7u32) as u32)) as u32;
    let y = (x + 808464432u32) as u32;
    assert((((y) >> 0u32) & 0xffu32) == (if (((w) >> 0u32) & 0xffu32) < 10 { (((w) >> 0u32) & 0xffu32) + 48 } else { (((w) >> 0u32) & 0xffu32) + 55 })) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 7u32) as u32)) as u32, y == (x + 808464432u32) as u32;
    assert((((y) >> 8u32) & 0xffu32) == (if (((w) >> 8u32) & 0xffu32) < 10 { (((w) >> 8u32) & 0xffu32) + 48 } else { (((w) >> 8u32) & 0xffu32) + 55 })) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 7u32) as u32)) as u32, y == (x + 808464432u32) as u32;
    assert((((y) >> 16u32) & 0xffu32) == (if (((w) >> 16u32) & 0xffu32) < 10 { (((w) >> 16u32) & 0xffu32) + 48 } else { (((w) >> 16u32) & 0xffu32) + 55 })) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 7u32) as u32)) as u32, y == (x + 808464432u32) as u32;
    assert((((y) >> 24u32) & 0xffu32) == (if (((w) >> 24u32) & 0xffu32) < 10 { (((w) >> 24u32) & 0xffu32) + 48 } else { (((w) >> 24u32) & 0xffu32) + 55 })) by (bit_vector) requires (((w) >> 0u32) & 0xffu32) < 36, (((w) >> 8u32) & 0xffu32) < 36, (((w) >> 16u32) & 0xffu32) < 36, (((w) >> 24u32) & 0xffu32) < 36, l == (((1987475062u32 + w) as u32) >> 7u32) & 16843009u32, x == (w + ((l * 7u32) as u32)) as u32, y == (x + 808464432u32) as u32;
    assert forall|k: int| 0 <= k < 4 implies #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 55 }) by { assert((((y) >> 0u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 0 { } assert((((y) >> 8u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 1 { } assert((((y) >> 16u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 2 { } assert((((y) >> 24u32) & 0xffu32) <= 0xff) by (bit_vector); if k == 3 { } }
}
@endif
@if bits==64
pub proof fn lemma_lanes_no(w: Word) requires forall|k: int| 0 <= k < 8 ==> #[trigger] lane(w, k) < 10 ensures w + 3472328296227680304 <= $MAX, ({ let y = (w + 3472328296227680304u64) as u64; forall|k: int| 0 <= k < 8 ==> #[trigger] lane(y, k) == lane(w, k) + 48 })
{
    assert(lane(w, 0) < 10); assert(lane(w, 1) < 10); assert(lane(w, 2) < 10); assert(lane(w, 3) < 10); assert(lane(w, 4) < 10); assert(lane(w, 5) < 10); assert(lane(w, 6) < 10); assert(lane(w, 7) < 10);
    assert((((w) >> 0u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 8u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 16u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 24u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 32u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 40u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 48u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 56u64) & 0xffu64) <= 0xff) by (bit_vector);
    assert(w + 3472328296227680304u64 <= 18446744073709551615u64) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 10, (((w) >> 8u64) & 0xffu64) < 10, (((w) >> 16u64) & 0xffu64) < 10, (((w) >> 24u64) & 0xffu64) < 10, (((w) >> 32u64) & 0xffu64) < 10, (((w) >> 40u64) & 0xffu64) < 10, (((w) >> 48u64) & 0xffu64) < 10, (((w) >> 56u64) & 0xffu64) < 10;
    let y = (w + 3472328296227680304u64) as u64;
    assert((((y) >> 0u64) & 0xffu64) == (((w) >> 0u64) & 0xffu64) + 48) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 10, (((w) >> 8u64) & 0xffu64) < 10, (((w) >> 16u64) & 0xffu64) < 10, (((w) >> 24u64) & 0xffu64) < 10, (((w) >> 32u64) & 0xffu64) < 10, (((w) >> 40u64) & 0xffu64) < 10, (((w) >> 48u64) & 0xffu64) < 10, (((w) >> 56u64) & 0xffu64) < 10, y == (w + 3472328296227680304u64) as u64;
    assert((((y) >> 8u64) & 0xffu64) == (((w) >> 8u64) & 0xffu64) + 48) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 10, (((w) >> 8u64) & 0xffu64) < 10, (((w) >> 16u64) & 0xffu64) < 10, (((w) >> 24u64) & 0xffu64) < 10, (((w) >> 32u64) & 0xffu64) < 10, (((w) >> 40u64) & 0xffu64) < 10, (((w) >> 48u64) & 0xffu64) < 10, (((w) >> 56u64) & 0xffu64) < 10, y == (w + 3472328296227680304u64) as u64;
    assert((((y) >> 16u64) & 0xffu64) == (((w) >> 16u64) & 0xffu64) + 48) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 10, (((w) >> 8u64) & 0xffu64) < 10, (((w) >> 16u64) & 0xffu64) < 10, (((w) >> 24u64) & 0xffu64) < 10, (((w) >> 32u64) & 0xffu64) < 10, (((w) >> 40u64) & 0xffu64) < 10, (((w) >> 48u64) & 0xffu64) < 10, (((w) >> 56u64) & 0xffu64) < 10, y == (w + 3472328296227680304u64) as u64;
    assert((((y) >> 24u64) & 0xffu64) == (((w) >> 24u64) & 0xffu64) + 48) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 10, (((w) >> 8u64) & 0xffu64) < 10, (((w) >> 16u64) & 0xffu64) < 10, (((w) >> 24u64) & 0xffu64) < 10, (((w) >> 32u64) & 0xffu64) < 10, (((w) >> 40u64) & 0xffu64) < 10, (((w) >> 48u64) & 0xffu64) < 10, (((w) >> 56u64) & 0xffu64) < 10, y == (w + 3472328296227680304u64) as u64;
    assert((((y) >> 32u64) & 0xffu64) == (((w) >> 32u64) & 0xffu64) + 48) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 10, (((w) >> 8u64) & 0xffu64) < 10, (((w) >> 16u64) & 0xffu64) < 10, (((w) >> 24u64) & 0xffu64) < 10, (((w) >> 32u64) & 0xffu64) < 10, (((w) >> 40u64) & 0xffu64) < 10, (((w) >> 48u64) & 0xffu64) < 10, (((w) >> 56u64) & 0xffu64) < 10, y == (w + 3472328296227680304u64) as u64;
    assert((((y) >> 40u64) & 0xffu64) == (((w) >> 40u64) & 0xffu64) + 48) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 10, (((w) >> 8u64) & 0xffu64) < 10, (((w) >> 16u64) & 0xffu64) < 10, (((w) >> 24u64) & 0xffu64) < 10, (((w) >> 32u64) & 0xffu64) < 10, (((w) >> 40u64) & 0xffu64) < 10, (((w) >> 48u64) & 0xffu64) < 10, (((w) >> 56u64) & 0xffu64) < 10, y == (w + 3472328296227680304u64) as u64;
    assert((((y) >> 48u64) & 0xffu64) == (((w) >> 48u64) & 0xffu64) + 48) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 10, (((w) >> 8u64) & 0xffu64) < 10, (((w) >> 16u64) & 0xffu64) < 10, (((w) >> 24u64) & 0xffu64) < 10, (((w) >> 32u64) & 0xffu64) < 10, (((w) >> 40u64) & 0xffu64) < 10, (((w) >> 48u64) & 0xffu64) < 10, (((w) >> 56u64) & 0xffu64) < 10, y == (w + 3472328296227680304u64) as u64;
    assert((((y) >> 56u64) & 0xffu64) == (((w) >> 56u64) & 0xffu64) + 48) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 10, (((w) >> 8u64) & 0xffu64) < 10, (((w) >> 16u64) & 0xffu64) < 10, (((w) >> 24u64) & 0xffu64) < 10, (((w) >> 32u64) & 0xffu64) < 10, (((w) >> 40u64) & 0xffu64) < 10, (((w) >> 48u64) & 0xffu64) < 10, (((w) >> 56u64) & 0xffu64) < 10, y == (w + 3472328296227680304u64) as u64;
    assert forall|k: int| 0 <= k < 8 implies #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 48 }) by { assert((((y) >> 0u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 0 { } assert((((y) >> 8u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 1 { } assert((((y) >> 16u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 2 { } assert((((y) >> 24u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 3 { } assert((((y) >> 32u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 4 { } assert((((y) >> 40u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 5 { } assert((((y) >> 48u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 6 { } assert((((y) >> 56u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 7 { } }
}
pub proof fn lemma_lanes_lo(w: Word) requires forall|k: int| 0 <= k < 8 ==> #[trigger] lane(w, k) < 36 ensures (8536140394893047414u64 + w) <= $MAX, ({ let l = (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64; let x = (w + l * 39) as u64; let y = (x + 3472328296227680304u64) as u64; l * 39 <= $MAX && w + l * 39 <= $MAX && x + 3472328296227680304 <= $MAX && forall|k: int| 0 <= k < 8 ==> #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 87 }) })
{
    assert(lane(w, 0) < 36); assert(lane(w, 1) < 36); assert(lane(w, 2) < 36); assert(lane(w, 3) < 36); assert(lane(w, 4) < 36); assert(lane(w, 5) < 36); assert(lane(w, 6) < 36); assert(lane(w, 7) < 36);
    assert((((w) >> 0u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 8u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 16u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 24u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 32u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 40u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 48u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 56u64) & 0xffu64) <= 0xff) by (bit_vector);
    let l = (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64;
    assert(8536140394893047414u64 + w <= 18446744073709551615u64) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36;
    assert(l * 39u64 <= 18446744073709551615u64) by (bit_vector) requires l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64;
    assert(w + ((l * 39u64) as u64) <= 18446744073709551615u64) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64;
    let x = (w + ((l * 39u64) as u64)) as u64;
    assert(x + 3472328296227680304u64 <= 18446744073709551615u64) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 39u64) as u64)) as u64;
    let y = (x + 3472328296227680304u64) as u64;
    assert((((y) >> 0u64) & 0xffu64) == (if (((w) >> 0u64) & 0xffu64) < 10 { (((w) >> 0u64) & 0xffu64) + 48 } else { (((w) >> 0u64) & 0xffu64) + 87 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 39u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 8u64) & 0xffu64) == (if (((w) >> 8u64) & 0xffu64) < 10 { (((w) >> 8u64) & 0xffu64) + 48 } else { (((w) >> 8u64) & 0xffu64) + 87 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 39u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 16u64) & 0xffu64) == (if (((w) >> 16u64) & 0xffu64) < 10 { (((w) >> 16u64) & 0xffu64) + 48 } else { (((w) >> 16u64) & 0xffu64) + 87 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 39u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 24u64) & 0xffu64) == (if (((w) >> 24u64) & 0xffu64) < 10 { (((w) >> 24u64) & 0xffu64) + 48 } else { (((w) >> 24u64) & 0xffu64) + 87 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 39u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 32u64) & 0xffu64) == (if (((w) >> 32u64) & 0xffu64) < 10 { (((w) >> 32u64) & 0xffu64) + 48 } else { (((w) >> 32u64) & 0xffu64) + 87 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 39u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 40u64) & 0xffu64) == (if (((w) >> 40u64) & 0xffu64) < 10 { (((w) >> 40u64) & 0xffu64) + 48 } else { (((w) >> 40u64) & 0xffu64) + 87 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 39u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 48u64) & 0xffu64) == (if (((w) >> 48u64) & 0xffu64) < 10 { (((w) >> 48u64) & 0xffu64) + 48 } else { (((w) >> 48u64) & 0xffu64) + 87 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 39u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 56u64) & 0xffu64) == (if (((w) >> 56u64) & 0xffu64) < 10 { (((w) >> 56u64) & 0xffu64) + 48 } else { (((w) >> 56u64) & 0xffu64) + 87 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 39u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert forall|k: int| 0 <= k < 8 implies #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 87 }) by { assert((((y) >> 0u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 0 { } assert((((y) >> 8u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 1 { } assert((((y) >> 16u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 2 { } assert((((y) >> 24u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 3 { } assert((((y) >> 32u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 4 { } assert((((y) >> 40u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 5 { } assert((((y) >> 48u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 6 { } assert((((y) >> 56u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 7 { } }
}
pub proof fn lemma_lanes_up(w: Word) requires forall|k: int| 0 <= k < 8 ==> #[trigger] lane(w, k) < 36 ensures (8536140394893047414u64 + w) <= $MAX, ({ let l = (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64; let x = (w + l * 7) as u64; let y = (x + 3472328296227680304u64) as u64; l * 7 <= $MAX && w + l * 7 <= $MAX && x + 3472328296227680304 <= $MAX && forall|k: int| 0 <= k < 8 ==> #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 55 }) })
{
    assert(lane(w, 0) < 36); assert(lane(w, 1) < 36); assert(lane(w, 2) < 36); assert(lane(w, 3) < 36); assert(lane(w, 4) < 36); assert(lane(w, 5) < 36); assert(lane(w, 6) < 36); assert(lane(w, 7) < 36);
    assert((((w) >> 0u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 8u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 16u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 24u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 32u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 40u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 48u64) & 0xffu64) <= 0xff) by (bit_vector); assert((((w) >> 56u64) & 0xffu64) <= 0xff) by (bit_vector);
    let l = (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64;
    assert(8536140394893047414u64 + w <= 18446744073709551615u64) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36;
    assert(l * 7u64 <= 18446744073709551615u64) by (bit_vector) requires l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64;
    assert(w + ((l * 7u64) as u64) <= 18446744073709551615u64) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64;
    let x = (w + ((l * 7u64) as u64)) as u64;
    assert(x + 3472328296227680304u64 <= 18446744073709551615u64) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 7u64) as u64)) as u64;
    let y = (x + 3472328296227680304u64) as u64;
    assert((((y) >> 0u64) & 0xffu64) == (if (((w) >> 0u64) & 0xffu64) < 10 { (((w) >> 0u64) & 0xffu64) + 48 } else { (((w) >> 0u64) & 0xffu64) + 55 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 7u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 8u64) & 0xffu64) == (if (((w) >> 8u64) & 0xffu64) < 10 { (((w) >> 8u64) & 0xffu64) + 48 } else { (((w) >> 8u64) & 0xffu64) + 55 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 7u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 16u64) & 0xffu64) == (if (((w) >> 16u64) & 0xffu64) < 10 { (((w) >> 16u64) & 0xffu64) + 48 } else { (((w) >> 16u64) & 0xffu64) + 55 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 7u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 24u64) & 0xffu64) == (if (((w) >> 24u64) & 0xffu64) < 10 { (((w) >> 24u64) & 0xffu64) + 48 } else { (((w) >> 24u64) & 0xffu64) + 55 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 7u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 32u64) & 0xffu64) == (if (((w) >> 32u64) & 0xffu64) < 10 { (((w) >> 32u64) & 0xffu64) + 48 } else { (((w) >> 32u64) & 0xffu64) + 55 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 7u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 40u64) & 0xffu64) == (if (((w) >> 40u64) & 0xffu64) < 10 { (((w) >> 40u64) & 0xffu64) + 48 } else { (((w) >> 40u64) & 0xffu64) + 55 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 7u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 48u64) & 0xffu64) == (if (((w) >> 48u64) & 0xffu64) < 10 { (((w) >> 48u64) & 0xffu64) + 48 } else { (((w) >> 48u64) & 0xffu64) + 55 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 7u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert((((y) >> 56u64) & 0xffu64) == (if (((w) >> 56u64) & 0xffu64) < 10 { (((w) >> 56u64) & 0xffu64) + 48 } else { (((w) >> 56u64) & 0xffu64) + 55 })) by (bit_vector) requires (((w) >> 0u64) & 0xffu64) < 36, (((w) >> 8u64) & 0xffu64) < 36, (((w) >> 16u64) & 0xffu64) < 36, (((w) >> 24u64) & 0xffu64) < 36, (((w) >> 32u64) & 0xffu64) < 36, (((w) >> 40u64) & 0xffu64) < 36, (((w) >> 48u64) & 0xffu64) < 36, (((w) >> 56u64) & 0xffu64) < 36, l == (((8536140394893047414u64 + w) as u64) >> 7u64) & 72340172838076673u64, x == (w + ((l * 7u64) as u64)) as u64, y == (x + 3472328296227680304u64) as u64;
    assert forall|k: int| 0 <= k < 8 implies #[trigger] lane(y, k) == (if lane(w, k) < 10 { lane(w, k) + 48 } else { lane(w, k) + 55 }) by { assert((((y) >> 0u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 0 { } assert((((y) >> 8u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 1 { } assert((((y) >> 16u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 2 { } assert((((y) >> 24u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 3 { } assert((((y) >> 32u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 4 { } assert((((y) >> 40u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 5 { } assert((((y) >> 48u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 6 { } assert((((y) >> 56u64) & 0xffu64) <= 0xff) by (bit_vector); if k == 7 { } }
}
@endif
@fn digit_chunk_raw_to_ascii
@rewrite `Word :: from_ne_bytes ( * digits )` => `word_of(*digits)`
@rewrite `const ALL_ONES : Word = Word :: MAX / 0xff ;` => `let ALL_ONES: Word = Word::MAX / 0xff;`
@rewrite `digit_case != DigitCase :: NoLetters` => `!matches!(digit_case, DigitCase::NoLetters)`
@rewrite `digit_case as Word` => `case_word(digit_case)`
@rewrite `digits . copy_from_slice ( & word . to_ne_bytes ( ) )` => `*digits = bytes_of(word)`
    requires fits(old(digits)@, digit_case)
    ensures forall|k: int| 0 <= k < $WBYTES ==> #[trigger] final(digits)@[k] == asc1(old(digits)@[k], digit_case)
@start
let ghost d0 = digits@;
@after `let mut word = Word :: from_ne_bytes ( * digits ) ;`
let ghost w0: Word = word;
proof {
    assert forall|k: int| 0 <= k < $WBYTES implies #[trigger] lane(w0, k) < (if digit_case is NoLetters { 10int } else { 36 }) by { assert(d0[k] < 36); }
    match digit_case { DigitCase::NoLetters => lemma_lanes_no(w0), DigitCase::Lower => lemma_lanes_lo(w0), DigitCase::Upper => lemma_lanes_up(w0) }
}
@file fmt/digit_writer.rs
@filerewrite `use core ::` => `use crate::vp_core::`
@filerewrite `dyn fmt :: Write` => `fmt::Formatter`
@filerewrite `unsafe { str :: from_utf8_unchecked ( b ) }` => `ascii_str(b)`
@item const BUFFER_LEN_MIN
@const BUFFER_LEN ensures BUFFER_LEN as int % $WBYTES == 0, BUFFER_LEN >= 1
@item struct DigitWriter
@itemrewrite `buffer : [` => `pub buffer: [`
@itemrewrite `buffer_len :` => `pub buffer_len:`
@itemrewrite `digit_case :` => `pub digit_case:`
@itemrewrite `writer :` => `pub writer:`
@mod
use crate::vp_fmt::*;
use crate::vp_std::*;
use crate::vp_core::fmt::*;
impl<'a> DigitWriter<'a> {
    pub open spec fn ok(&self) -> bool { self.buffer_len < self.buffer@.len() && self.buffer@.len() as int % $WBYTES == 0 && fits(self.buffer@.take(self.buffer_len as int), self.digit_case) }
    /// before a flush the buffer may be full
    pub open spec fn ok0(&self) -> bool { self.buffer@.len() > 0 && self.buffer_len <= self.buffer@.len() && self.buffer@.len() as int % $WBYTES == 0 && fits(self.buffer@.take(self.buffer_len as int), self.digit_case) }
    /// everything written so far
    pub open spec fn out(&self) -> Seq<char> { self.writer.out() + asc(self.buffer@.take(self.buffer_len as int), self.digit_case) }
    pub open spec fn case(&self) -> DigitCase { self.digit_case }
    pub open spec fn empty(&self) -> bool { self.buffer_len == 0 }
    /// the formatter as it will be given back when the borrow ends
    #[verifier::prophetic]
    pub open spec fn dest(&self) -> Formatter { *final(self.writer) }
    pub open spec fn sink(&self) -> Formatter { *self.writer }
}
pub open spec fn step<'a>(a: DigitWriter<'a>, b: DigitWriter<'a>, r: Result, d: Seq<u8>) -> bool {
    b.case() == a.case() && b.sink().opts() == a.sink().opts() && (a.sink().opts().sound ==> r is Ok) && (r is Ok ==> b.ok() && b.out() == a.out() + asc(d, a.case()))
}
@fn DigitWriter<'a>::new -> r
    ensures r.ok(), r.empty(), r.sink() == *old(writer), r.case() == digit_case, r.dest() == *final(writer)
@fn DigitWriter<'a>::write -> r
@attr #[verifier::loop_isolation(false)]
@rewrite `BUFFER_LEN` => `arr_len(&self.buffer)`
    requires old(self).ok(), fits(buf@, old(self).case())
    ensures step(*old(self), *final(self), r, buf@), final(self).dest() == old(self).dest()
@start
let ghost b0 = buf@; let ghost s0 = *self;
proof { assert(asc(Seq::<u8>::empty(), self.digit_case) =~= Seq::empty()); }
@loop 0
    invariant self.ok(), fits(buf@, s0.case()), self.case() == s0.case(), self.sink().opts() == s0.sink().opts(), self.dest() == s0.dest(), self.out() + asc(buf@, s0.case()) == s0.out() + asc(b0, s0.case())
    decreases buf@.len()
@loopstart 0
let ghost b1 = buf@; let ghost s1 = *self; let ghost c = s0.case();
@before `self . buffer_len += len ;`
proof {
    let t1 = s1.buffer@.take(s1.buffer_len as int); let ch = b1.take(len as int);
    assert(self.buffer@.take(s1.buffer_len + len) =~= t1 + ch);
    assert(asc(b1, c) =~= asc(ch, c) + asc(buf@, c)); assert(asc(t1 + ch, c) =~= asc(t1, c) + asc(ch, c));
    assert forall|i: int| 0 <= i < (t1 + ch).len() implies #[trigger] (t1 + ch)[i] < (if c is NoLetters { 10int } else { 36 }) by { if i < t1.len() { assert(t1[i] < 36); } else { assert(ch[i - t1.len()] == b1[i - t1.len()]); } }
    assert forall|i: int| 0 <= i < buf@.len() implies #[trigger] buf@[i] < (if c is NoLetters { 10int } else { 36 }) by { assert(buf@[i] == b1[i + len]); }
    assert(s1.out() + asc(b1, c) =~= s1.writer.out() + asc(t1 + ch, c) + asc(buf@, c));
}
@fn DigitWriter<'a>::flush -> r
@rewrite `& mut self . buffer [ self . buffer_len .. buffer_len_rounded ]` => `range_mut(&mut self.buffer, self.buffer_len, buffer_len_rounded).iter_mut()`
@rewrite `math :: round_up (` => `math::round_up_us(`
@rewrite `self . buffer [ .. buffer_len_rounded ] . chunks_exact_mut ( arch :: digits :: DIGIT_CHUNK_LEN )` => `chunk_vec_mut(range_mut(&mut self.buffer, 0, buffer_len_rounded), arch::digits::DIGIT_CHUNK_LEN)`
@rewrite `chunk . try_into ( ) . unwrap ( )` => `to_array_mut(chunk)`
    requires old(self).ok0()
    ensures step(*old(self), *final(self), r, Seq::empty()), r is Ok ==> final(self).empty(), final(self).dest() == old(self).dest()
@attr #[verifier::loop_isolation(false)]
@start
let ghost s0 = *self; let ghost c = s0.case(); let ghost n = s0.buffer_len as int; let ghost b0 = self.buffer@; let ghost m = b0.len() as int;
@loopbefore 0
let ghost rn = buffer_len_rounded as int;
proof { lemma_mult_le(rn, m, $WBYTES); }
@loop 0 it
    invariant it.wf(), it.seq().len() == rn - n, forall|j: int| 0 <= j < it.index() ==> *final(#[trigger] it.seq()[j]) == 0
@loopafter 0
let ghost b1 = self.buffer@;
proof {
    assert(b1.len() == m); assert forall|i: int| 0 <= i < n implies b1[i] == b0[i] by { assert(b1.take(n)[i] == b0.take(n)[i]); }
    assert forall|i: int| n <= i < rn implies b1[i] == 0 by { assert(b1.subrange(n, rn)[i - n] == b1[i]); }
}
@loop 1 it
    invariant it.wf(), it.seq().len() == rn / $WBYTES, forall|j: int, k: int| 0 <= j < it.index() && 0 <= k < $WBYTES ==> #[trigger] final(it.seq()[j])@[k] == asc1(b1[j * $WBYTES + k], c),
        forall|j: int| 0 <= j < it.seq().len() ==> #[trigger] it.seq()[j]@ == piece(b1.subrange(0, rn), $WBYTES, j)
@loopstart 1
proof {
    let j = it.index() as int; assert(chunk@ =~= b1.subrange(j * $WBYTES, j * $WBYTES + $WBYTES));
    assert forall|i: int| 0 <= i < chunk@.len() implies #[trigger] chunk@[i] < (if c is NoLetters { 10int } else { 36 }) by { let q = j * $WBYTES + i; if q < n { assert(s0.buffer@.take(n)[q] == b1[q]); } else { assert(b1[q] == 0); } }
}
@loopafter 1
proof {
    let b2 = self.buffer@;
    assert forall|i: int| 0 <= i < n implies b2[i] == asc1(b0[i], c) by { let j = i / $WBYTES; let k = i % $WBYTES; assert(piece(b2.subrange(0, rn), $WBYTES, j)[k] == b2[i]); assert(b1[j * $WBYTES + k] == b0[i]); }
    assert forall|i: int| 0 <= i < n implies #[trigger] b2[i] < 128 by { assert(s0.buffer@.take(n)[i] == b0[i]); assert(asc1(b0[i], c) < 128); }
    assert(asc(Seq::<u8>::empty(), c) =~= Seq::empty()); assert(b2.take(0) =~= Seq::empty());
    assert(b2.take(n).map_values(|x: u8| x as char) =~= asc(b0.take(n), c));
}
@tail
proof { assert(self.out() =~= s0.out() + asc(Seq::<u8>::empty(), c)); }
@mod
proof fn lemma_mult_le(a: int, m: int, w: int) requires w > 0, a % w == 0, m % w == 0, a < m + w ensures a <= m
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, w); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, w);
    if a > m { let (x, y) = (a / w, m / w); assert(x >= y + 1) by (nonlinear_arith) requires w * x > w * y, w > 0; assert(w * x >= w * y + w) by (nonlinear_arith) requires x >= y + 1, w > 0; }
}
@file fmt/mod.rs
@filerewrite `use core ::` => `use crate::vp_core::`
@filerewrite `& mut dyn PreparedForFormatting` => `&mut T`
@filerewrite `fn format_prepared (` => `fn format_prepared<T: PreparedForFormatting>(`
@inlineclosure write_digits
@item trait PreparedForFormatting
@itemrewrite `fn width ( & self ) -> usize ;` => `spec fn ok(&self) -> bool; spec fn digits(&self) -> Seq<u8>; fn width(&self) -> (r: usize) requires self.ok() ensures r == self.digits().len();`
@itemrewrite `fn write ( & mut self , digit_writer : & mut DigitWriter ) -> fmt :: Result ;` => `fn write(&mut self, digit_writer: &mut DigitWriter) -> (r: fmt::Result) requires old(self).ok(), old(digit_writer).ok(), fits(old(self).digits(), old(digit_writer).case()) ensures step(*old(digit_writer), *final(digit_writer), r, old(self).digits()), final(digit_writer).dest() == old(digit_writer).dest();`
@item struct InRadix
@item struct InRadixFull
@plain
macro_rules! vp_stub { ($($t:ident)*) => { $( impl core::fmt::$t for UBig { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } } impl core::fmt::$t for IBig { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } } )* } }
vp_stub! { Display Debug Binary Octal LowerHex UpperHex }
@mod
use crate::vp_fmt::*;
use crate::vp_std::*;
use crate::vp_bits::*;
use crate::vp_radix::*;
use crate::fmt::digit_writer::step;
use vstd::string::*;
impl<'a> InRadixFull<'a> {
    pub closed spec fn wf(&self) -> bool { self.magnitude.wf() && case_ok(self.radix as nat, self.digit_case) && self.prefix@.len() <= 2 && forall|i: int| 0 <= i < self.prefix@.len() ==> #[trigger] self.prefix@[i] < '\u{80}' }
    pub closed spec fn rx(&self) -> nat { self.radix as nat }
    pub closed spec fn text(&self, o: fmt::Opts) -> Seq<char> { shown(self.sign is Negative, self.magnitude.v(), self.radix as nat, self.prefix@, self.digit_case, o) }
}
impl<'a> InRadix<'a> {
    pub closed spec fn wf(&self) -> bool { self.magnitude.wf() && radix_ok(self.radix as int) }
    pub closed spec fn neg(&self) -> bool { self.sign is Negative }
    pub closed spec fn v(&self) -> nat { self.magnitude.v() }
    pub closed spec fn rx(&self) -> nat { self.radix as nat }
}
pub open spec fn pre2(o: fmt::Opts, a: char) -> Seq<char> { if o.alternate { seq!['0', a] } else { Seq::empty() } }
@for $T $N in UBig,ubig IBig,ibig
@fn Display for $T::fmt -> r
@method2fn display_$N $T
    requires vp_self.wf()
    ensures wrote(*old(f), *final(f), r, shown(nneg_$N(vp_self), nval_$N(vp_self), 10, Seq::empty(), DigitCase::NoLetters, old(f).opts()))
@start
proof { reveal_strlit(""); }
@fn Debug for $T::fmt -> r
@method2fn debug_$N $T
@rewrite `Display :: fmt ( self , f )` => `display_$N(self, f)`
    requires vp_self.wf()
    ensures wrote(*old(f), *final(f), r, shown(nneg_$N(vp_self), nval_$N(vp_self), 10, Seq::empty(), DigitCase::NoLetters, old(f).opts()))
@endfor
@for $T $N $U $R $C $D in UBig,ubig,Binary,2,b,NoLetters UBig,ubig,Octal,8,o,NoLetters UBig,ubig,LowerHex,16,x,Lower UBig,ubig,UpperHex,16,x,Upper IBig,ibig,Binary,2,b,NoLetters IBig,ibig,Octal,8,o,NoLetters IBig,ibig,LowerHex,16,x,Lower IBig,ibig,UpperHex,16,x,Upper
@fn $U for $T::fmt -> r
@method2fn $U_$N $T
    requires vp_self.wf()
    ensures wrote(*old(f), *final(f), r, shown(nneg_$N(vp_self), nval_$N(vp_self), $R, pre2(old(f).opts(), '$C'), DigitCase::$D, old(f).opts()))
@start
proof { reveal_strlit(""); reveal_strlit("0$C"); assert("0$C"@ =~= seq!['0', '$C']); }
@endfor
@mod
pub open spec fn nneg_ubig(x: &UBig) -> bool { false }
pub open spec fn nval_ubig(x: &UBig) -> nat { x.v() }
pub open spec fn nneg_ibig(x: &IBig) -> bool { x.v() < 0 }
pub open spec fn nval_ibig(x: &IBig) -> nat { x.mag().v() }
@fn UBig::in_radix -> r
@panics !radix_ok(radix as int)
    requires self.wf()
    ensures r.wf(), !r.neg(), r.v() == self.v(), r.rx() == radix
@fn IBig::in_radix -> r
@panics !radix_ok(radix as int)
    requires self.wf()
    ensures r.wf(), r.neg() == (self.v() < 0), r.v() == self.mag().v(), r.rx() == radix
@fn Display for InRadix<'_>::fmt -> r
@method2fn display_in_radix InRadix<'_>
    requires vp_self.wf()
    ensures wrote(*old(f), *final(f), r, shown(vp_self.neg(), vp_self.v(), vp_self.rx(), Seq::empty(), (if vp_self.rx() <= 10 { DigitCase::NoLetters } else if old(f).opts().alternate { DigitCase::Upper } else { DigitCase::Lower }), old(f).opts()))
@start
proof { reveal_strlit(""); }
@fn InRadixFull<'_>::fmt -> r
    requires self.wf()
    ensures wrote(*old(f), *final(f), r, self.text(old(f).opts()))
@start
proof { lemma_radix_p2(self.radix); }
@fn InRadixFull<'_>::format_prepared -> r
@rewrite `sign . len ( ) + self . prefix . len ( )` => `str_len(sign) + str_len(self.prefix)`
@rewrite `self . sign == Negative` => `matches!(self.sign, Negative)`
    requires self.wf(), old(prepared).ok(), old(prepared).digits() == digs(self.magnitude.v(), self.radix as nat), old(prepared).digits().len() <= usize::MAX - 3
    ensures wrote(*old(f), *final(f), r, self.text(old(f).opts()))
@attr #[verifier::loop_isolation(false)] #[verifier::rlimit(100)]
@start
let ghost f0 = *f; let ghost o = f0.opts(); let ghost ds = prepared.digits(); let ghost ac = asc(ds, self.digit_case); let ghost sg = sign_str(self.sign is Negative, o); let ghost hd = sg + self.prefix@;
proof { reveal_strlit(""); assert(""@ =~= Seq::empty()); reveal_strlit("-"); reveal_strlit("+"); reveal_strlit("0"); assert("-"@ =~= seq!['-']); assert("+"@ =~= seq!['+']); assert("0"@ =~= seq!['0']); lemma_digs(self.magnitude.v(), self.radix as nat); }
@loopbefore 0
proof { assert(f.out() =~= f0.out() + hd + rep('0', 0)); }
@loopbefore 1
proof { assert(f.out() =~= f0.out() + rep(o.fill, 0)); }
@loopbefore 2
proof { assert(f.out() =~= f0.out() + rep(o.fill, left as nat) + hd + ac + rep(o.fill, 0)); }
@tail
proof { lemma_text(f0.out(), f.out(), o, sg, self.prefix@, ac); }
@loop 0 it
    invariant f.opts() == o, f.out() == f0.out() + hd + rep('0', it.index@ as nat)
@loopend 0
proof { assert(f.out() =~= f0.out() + hd + rep('0', it.index@ as nat + 1)); }
@loop 1 it
    invariant f.opts() == o, f.out() == f0.out() + rep(o.fill, it.index@ as nat)
@loopend 1
proof { assert(f.out() =~= f0.out() + rep(o.fill, it.index@ as nat + 1)); }
@loop 2 it
    invariant f.opts() == o, f.out() == f0.out() + rep(o.fill, left as nat) + hd + ac + rep(o.fill, it.index@ as nat)
@loopend 2
proof { assert(f.out() =~= f0.out() + rep(o.fill, left as nat) + hd + ac + rep(o.fill, it.index@ as nat + 1)); }
@mod
/// the pieces written one after another make up the padded number
proof fn lemma_text(a: Seq<char>, b: Seq<char>, o: fmt::Opts, sg: Seq<char>, px: Seq<char>, ac: Seq<char>)
    requires ({
        let hd = sg + px; let len = hd.len() + ac.len();
        match o.width {
            None => b == a + sg + px + ac,
            Some(w) => if w <= len { b == a + sg + px + ac } else if o.zero { b == a + hd + rep('0', (w - len) as nat) + ac }
                else { let n = w - len; let left = match o.align { Some(fmt::Alignment::Left) => 0, Some(fmt::Alignment::Center) => n / 2, _ => n }; b == a + rep(o.fill, left as nat) + hd + ac + rep(o.fill, (n - left) as nat) },
        }
    })
    ensures b == a + padded(o, sg + px, ac)
{
    let hd = sg + px; let len = hd.len() + ac.len();
    match o.width {
        None => { assert(b =~= a + (hd + ac)); }
        Some(w) => {
            if w <= len { assert(b =~= a + (hd + ac)); }
            else if o.zero { assert(b =~= a + (hd + rep('0', (w - len) as nat) + ac)); }
            else { let n = w - len; let left = match o.align { Some(fmt::Alignment::Left) => 0, Some(fmt::Alignment::Center) => n / 2, _ => n }; assert(b =~= a + (rep(o.fill, left as nat) + hd + ac + rep(o.fill, (n - left) as nat))); }
        }
    }
}
@file fmt/power_two.rs
@filerewrite `use core ::` => `use crate::vp_core::`
@item struct PreparedWord
@item struct PreparedLarge
@impl PreparedForFormatting for PreparedWord
    closed spec fn ok(&self) -> bool { 1 <= self.log_radix <= 5 && self.width >= 1 && (self.width - 1) * self.log_radix < $BITS }
    closed spec fn digits(&self) -> Seq<u8> { digs_n(self.word as nat, p2(self.log_radix as nat), self.width as nat) }
@impl PreparedForFormatting for PreparedLarge<'_>
    closed spec fn ok(&self) -> bool { 1 <= self.log_radix <= 5 && self.width >= 1 && self.words@.len() >= 1 && self.words@.len() <= MAXLEN() && (self.words@.len() - 1) * $BITS < self.width * self.log_radix < self.words@.len() * $BITS + self.log_radix }
    closed spec fn digits(&self) -> Seq<u8> { digs_n(val(self.words@), p2(self.log_radix as nat), self.width as nat) }
@mod
use crate::vp_math::*;
use crate::vp_fmt::*;
use crate::vp_std::*;
use crate::vp_bits::*;
use crate::vp_radix::*;
use crate::fmt::digit_writer::step;
@fn InRadixFull<'_>::fmt_power_two -> r
    requires self.wf(), is_p2(self.rx())
    ensures wrote(*old(f), *final(f), r, self.text(old(f).opts()))
@start
proof {
    lemma_radix_p2(self.radix);
    match self.magnitude.rp() { Small(w) => { lemma_p2_wb(); lemma_digs_len(w as nat, self.radix as nat, $BITS); }, Large(b) => { lemma_val_bound(b@); lemma_pw_p2(b@.len()); lemma_digs_len(val(b@), self.radix as nat, b@.len() * $BITS); assert(b@.len() * $BITS <= MAXLEN() * $BITS) by (nonlinear_arith) requires b@.len() <= MAXLEN(); } }
}
@fn PreparedWord::new -> r
@rewrite `math :: ceil_div ( math :: bit_len ( word )` => `math::ceil_div_u32(math::bit_len_gw(word)`
    requires 2 <= radix <= 36, is_p2(radix as nat)
    ensures r.ok(), r.digits() == digs(word as nat, radix as nat)
@start
proof { lemma_radix_p2(radix); reveal_with_fuel(p2, 6); }
@ret
proof {
    let l = vp_ret.log_radix as nat; let w = vp_ret.width as nat; lemma_rw_p2(l, w); lemma_rw_p2(l, (w - 1) as nat);
    lemma_p2_wb(); lemma_width(word as nat, l, w, $BITS);
    lemma_digs_min(word as nat, radix as nat, w);
}
@fn PreparedForFormatting for PreparedWord::width -> r
@start
proof { reveal_with_fuel(p2, 6); assert(p2(1) == 2 && p2(2) == 4 && p2(3) == 8 && p2(4) == 16 && p2(5) == 32); lemma_digs_n(self.word as nat, p2(self.log_radix as nat), self.width as nat); }
@fn PreparedForFormatting for PreparedWord::write -> r
@rewrite `math :: ones ( self . log_radix )` => `math::ones_gw(self.log_radix)`
@attr #[verifier::loop_isolation(false)]
@start
let ghost l = self.log_radix as nat; let ghost n = self.width as nat; let ghost ds = self.digits(); let ghost v = self.word as nat;
proof { reveal_with_fuel(p2, 6); assert(p2(1) == 2 && p2(2) == 4 && p2(3) == 8 && p2(4) == 16 && p2(5) == 32); lemma_digs_n(v, p2(l), n); assert(n <= $BITS) by (nonlinear_arith) requires (n - 1) * l < $BITS, l >= 1, n >= 1; }
@loop 0 it
    invariant digits@.len() == $BITS, forall|i: int| n - it.index@ <= i < n ==> #[trigger] digits@[i] == ds[i]
@loopstart 0
proof {
    let i = idx as nat; assert(i * l <= (n - 1) * l) by (nonlinear_arith) requires i <= n - 1; let sh = (i * l) as u32;
    lemma_shr_div(self.word, sh); lemma_mask_mod(self.word >> sh, l as u32); lemma_digs_n_at(v, p2(l), n, n - 1 - i); lemma_rw_p2(l, i); assert(l * i == i * l) by (nonlinear_arith); assert(n - 1 - (n - 1 - i) == i);
}
@loopafter 0
proof { assert(digits@.take(n as int) =~= ds); }
@fn PreparedLarge<'_>::new -> r
@rewrite `math :: ceil_div (` => `math::ceil_div_us(`
    requires 2 <= radix <= 36, is_p2(radix as nat), 2 <= words@.len() <= MAXLEN(), words@.last() != 0
    ensures r.ok(), r.digits() == digs(val(words@), radix as nat)
@start
proof {
    lemma_radix_p2(radix); reveal_with_fuel(p2, 6); lemma_lz(words@.last()); assert(words@.len() * $BITS <= MAXLEN() * $BITS) by (nonlinear_arith) requires words@.len() <= MAXLEN();
    crate::bits::lemma_words_bit_len(words@);
}
@ret
proof {
    let l = vp_ret.log_radix as nat; let w = vp_ret.width as nat; lemma_rw_p2(l, w); lemma_rw_p2(l, (w - 1) as nat);
    lemma_width(val(words@), l, w, (words@.len() * $BITS - lzs(words@.last())) as nat);
    lemma_digs_min(val(words@), radix as nat, w);
    assert((words@.len() - 1) * $BITS < w * l < words@.len() * $BITS + l);
}
@mod
/// the number of digits of l bits each a number of n bits needs
proof fn lemma_width(v: nat, l: nat, w: nat, n: nat) requires 1 <= l <= 5, v < p2(n), exists|t: nat| 0 <= t <= n && #[trigger] is_bit_len(v, t) && w == (if t == 0 { 1 } else { (t - 1) / (l as int) + 1 })
    ensures w >= 1, (w - 1) * l < n || w == 1, v < p2(l * w), w == 1 || v >= p2(l * ((w - 1) as nat)), forall|t: nat| t > 0 && #[trigger] is_bit_len(v, t) ==> t <= w * l < t + l
{
    let t = choose|t: nat| 0 <= t <= n && #[trigger] is_bit_len(v, t) && w == (if t == 0 { 1 } else { (t - 1) / (l as int) + 1 });
    assert forall|t2: nat| t2 > 0 && #[trigger] is_bit_len(v, t2) implies t2 == t by { if t2 < t { lemma_p2_mono(t2, (t - 1) as nat); } if t < t2 { lemma_p2_mono(t, (t2 - 1) as nat); lemma_p2_pos((t2 - 1) as nat); } }
    if t > 0 {
        let q = (t - 1) / (l as int); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t - 1, l as int); vstd::arithmetic::div_mod::lemma_mod_bound(t - 1, l as int); let m = (t - 1) % (l as int);
        assert(l * w == l * q + l) by (nonlinear_arith) requires w == q + 1; assert(w * l == l * w) by (nonlinear_arith); assert((w - 1) * l == l * q) by (nonlinear_arith) requires w == q + 1; assert(l * ((w - 1) as nat) == l * q);
        lemma_p2_mono(t, l * w); lemma_p2_mono((l * q) as nat, (t - 1) as nat);
    } else { lemma_p2_pos(l * w); }
}
@fn PreparedForFormatting for PreparedLarge<'_>::width -> r
@start
proof { reveal_with_fuel(p2, 6); assert(p2(1) == 2 && p2(2) == 4 && p2(3) == 8 && p2(4) == 16 && p2(5) == 32); lemma_digs_n(val(self.words@), p2(self.log_radix as nat), self.width as nat); }
@fn PreparedForFormatting for PreparedLarge<'_>::write -> r
@rewrite `math :: ones ( self . log_radix )` => `math::ones_gw(self.log_radix)`
@rewrite `self . words . iter ( ) . rev ( )` => `rev_words(self.words)`
@start
let ghost l = self.log_radix as nat; let ghost n = self.width as nat; let ghost ds = self.digits(); let ghost s = self.words@; let ghost v = val(s); let ghost dw0 = *digit_writer; let ghost mut left = n;
proof {
    reveal_with_fuel(p2, 6); assert(p2(1) == 2 && p2(2) == 4 && p2(3) == 8 && p2(4) == 16 && p2(5) == 32); lemma_digs_n(v, p2(l), n);
    assert(s.len() * $BITS <= MAXLEN() * $BITS) by (nonlinear_arith) requires s.len() <= MAXLEN(); assert(ds.take(0) =~= Seq::empty()); assert(asc(Seq::<u8>::empty(), dw0.case()) =~= Seq::empty());
    assert((s.len() - 1) * $BITS == s.len() * $BITS - $BITS); assert(dw0.out() + asc(ds.take(0), dw0.case()) =~= dw0.out());
}
@loop 0
    invariant_except_break left <= n, bits < $BITS + l, bits <= $BITS || it.i == s.len() - 1, word == s[it.i as int], it.i < s.len(), it.i * $BITS + bits == left * l,
        digit_writer.out() == dw0.out() + asc(ds.take(n - left), dw0.case())
    invariant self.log_radix == l, 1 <= l <= 5, mask == sub(1$W << (l as u32), 1), it.s@ == s, v == val(s), s.len() >= 1, s.len() <= MAXLEN(), ds == digs_n(v, p2(l), n), ds.len() == n, fits(ds, dw0.case()), 2 <= p2(l) <= 36,
        digit_writer.ok(), digit_writer.case() == dw0.case(), digit_writer.dest() == dw0.dest(), digit_writer.sink().opts() == dw0.sink().opts(), *self == *old(self), dw0 == *old(digit_writer), old(self).digits() == ds
    ensures bits == 0, digit_writer.out() == dw0.out() + asc(ds, dw0.case())
    decreases left
@loopstart 0
let ghost k = it.i as nat; let ghost dwb = *digit_writer; let ghost b0 = bits; let ghost p0 = word;
proof {
    if bits < l && k == 0 { assert(left == 0) by (nonlinear_arith) requires left * l < l, l >= 1; assert(0 * l == 0); assert(ds.take(n as int) =~= ds); }
    else {
        assert(k * $BITS >= $BITS || k == 0); assert(left >= 1) by (nonlinear_arith) requires left * l >= 1, l >= 1;
        assert((left - 1) * l == left * l - l) by (nonlinear_arith); lemma_digs_n_at(v, p2(l), n, n - left); lemma_rw_p2(l, (left - 1) as nat); assert(l * ((left - 1) as nat) == (left - 1) * l) by (nonlinear_arith) requires left >= 1;
        assert(n - 1 - (n - left) == left - 1);
        if bits < l { let e = (l - bits) as u32; lemma_digit_across(s, l, k, e as nat); lemma_two_words(word, s[k - 1], e, l as u32); assert((k - 1) * $BITS == k * $BITS - $BITS); }
        else { let b = (bits - l) as u32; lemma_digit_in(s, l, k, b as nat); lemma_shr_div(word, b); lemma_mask_mod(word >> b, l as u32); }
    }
}
@before `digit_writer . write ( & [ digit ] ) ? ;`
proof {
    assert(digit == ds[n - left]); assert(ds.take(n - left + 1) =~= ds.take(n - left).push(digit)); let c = dw0.case();
    assert(asc(ds.take(n - left + 1), c) =~= asc(ds.take(n - left), c) + asc(seq![digit], c));
    assert(dw0.out() + asc(ds.take(n - left + 1), c) =~= dw0.out() + asc(ds.take(n - left), c) + asc(seq![digit], c));
    left = (left - 1) as nat;
}
@file radix.rs
@const MAX_WORD_DIGITS_NON_POW_2 external ensures MAX_WORD_DIGITS_NON_POW_2 == crate::vp_fmt::MWD()
@plain
const _: () = assert!(MAX_WORD_DIGITS_NON_POW_2 == $MWD);
@file fmt/non_power_two.rs
@filerewrite `use core ::` => `use crate::vp_core::`
@filerewrite `use crate::vp_core:: { fmt :: { self , Formatter } , mem , }` => `use crate::vp_core::{fmt::{self, Formatter}, mem}`
@item struct PreparedWord
@item struct PreparedMedium
@item struct PreparedLarge
@item const CHUNK_LEN
@impl PreparedForFormatting for PreparedWord
    closed spec fn ok(&self) -> bool { self.start_index <= self.digits@.len() }
    closed spec fn digits(&self) -> Seq<u8> { self.digits@.skip(self.start_index as int) }
@impl PreparedForFormatting for PreparedMedium
    closed spec fn ok(&self) -> bool { np2(self.radix as nat) && self.num_low_groups <= 16 && self.top_group.ok() && groups_ok(self.low_groups@, self.num_low_groups as nat, self.radix as nat) && self.digits().len() <= usize::MAX }
    closed spec fn digits(&self) -> Seq<u8> { self.top_group.digits() + gdigs(self.low_groups@, self.num_low_groups as nat, self.radix as nat) }
@impl PreparedForFormatting for PreparedLarge
    closed spec fn ok(&self) -> bool { np2(self.radix as nat) && self.top_chunk.ok() && powers_ok(self.radix_powers@, self.radix as nat) && chunks_ok(self.big_chunks@, self.radix as nat, self.radix_powers@.len()) && self.digits().len() <= usize::MAX }
    closed spec fn digits(&self) -> Seq<u8> { self.top_chunk.digits() + bdigs(self.big_chunks@, self.big_chunks@.len(), self.radix as nat) }
@mod
use crate::vp_math::*;
use crate::vp_fmt::*;
use crate::vp_std::*;
use crate::vp_bits::*;
use crate::vp_radix::*;
use crate::fmt::digit_writer::step;
use crate::radix::DigitCase;
use core::ops::*;
use vstd::arithmetic::div_mod::*;
pub open spec fn np2(r: nat) -> bool { 2 <= r <= 36 && !is_p2(r) }
/// what is known of the radix
pub open spec fn dpw_ok(r: nat, d: nat) -> bool { d >= 1 && rw(r, d) < B() && rw(r, d + 1) >= B() }
/// how many digits a word always holds
pub open spec fn dpw(r: nat) -> nat { choose|d: nat| #[trigger] dpw_ok(r, d) }
/// the value of a full word group
pub open spec fn rg(r: nat) -> nat { rw(r, dpw(r)) }
proof fn lemma_dpw(r: nat, d: nat) requires r >= 2, dpw_ok(r, d) ensures dpw(r) == d, rg(r) < B()
{
    let e = dpw(r); assert(dpw_ok(r, e));
    if e < d { lemma_rw_mono(r, e + 1, d); } if d < e { lemma_rw_mono(r, d + 1, e); }
}
proof fn lemma_info(i: crate::radix::RadixInfo, radix: u32) requires i.ok(radix as int), np2(radix as nat)
    ensures dpw_ok(radix as nat, dpw(radix as nat)), dpw(radix as nat) == i.digits_per_word, rg(radix as nat) == i.range_per_word, dpw(radix as nat) >= 1, 3 <= radix, i.range_per_word >= 3, i.digits_per_word <= $BITS
{
    let r = radix as nat; let d = i.digits_per_word as nat; lemma_radix_p2(radix); lemma_rw_pow(r, d); assert(rw(r, d + 1) == r * rw(r, d)); let x = rw(r, d); assert(r * x == x * r) by (nonlinear_arith);
    lemma_dpw(r, d); lemma_rw_pos(r, (d - 1) as nat); let y = rw(r, (d - 1) as nat); assert(r * y >= 3) by (nonlinear_arith) requires r >= 3, y >= 1;
}
/// k word groups, least significant first, as digits
pub open spec fn gdigs(low: Seq<Word>, k: nat, r: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { digs_n(low[k - 1] as nat, r, dpw(r)) + gdigs(low, (k - 1) as nat, r) } }
pub open spec fn groups_ok(low: Seq<Word>, k: nat, r: nat) -> bool { k <= low.len() && forall|i: int| 0 <= i < k ==> (#[trigger] low[i] as nat) < rg(r) }
pub open spec fn gval(low: Seq<Word>, k: nat, m: nat) -> nat decreases k { if k == 0 { 0 } else { gval(low, (k - 1) as nat, m) + low[k - 1] as nat * rw(m, (k - 1) as nat) } }
proof fn lemma_gval_ext(a: Seq<Word>, b: Seq<Word>, k: nat, m: nat) requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures gval(a, k, m) == gval(b, k, m) decreases k { if k > 0 { lemma_gval_ext(a, b, (k - 1) as nat, m); } }
proof fn lemma_groups(low: Seq<Word>, k: nat, r: nat) requires 2 <= r <= 36, groups_ok(low, k, r)
    ensures digs_n(gval(low, k, rg(r)), r, k * dpw(r)) == gdigs(low, k, r), gval(low, k, rg(r)) < rw(r, k * dpw(r)), rw(rg(r), k) == rw(r, k * dpw(r)), gdigs(low, k, r).len() == k * dpw(r), below(gdigs(low, k, r), r) decreases k
{
    let d = dpw(r);
    if k == 0 { assert(0 * d == 0); } else {
        let j = (k - 1) as nat; lemma_groups(low, j, r); let g = low[k - 1] as nat; let v = gval(low, j, rg(r)); let e = j * d; let w = rw(r, e);
        assert(k * d == d + j * d) by (nonlinear_arith) requires k == j + 1; lemma_rw_add(r, d, e); lemma_digs_n_split(g * w + v, r, d, e); assert(g * w + v == v + g * w);
        lemma_quot(g * w + v, g, w, v); lemma_digs_n_mod(v, r, e, g); let x = rw(r, d); assert(g * w + v < x * w) by (nonlinear_arith) requires g + 1 <= x, v < w;
        assert(rw(rg(r), k) == rg(r) * rw(rg(r), j)); lemma_digs_n(g, r, d);
        let u = gdigs(low, k, r); assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] < r by { if i < d { assert(u[i] == digs_n(g, r, d)[i]); } else { assert(u[i] == gdigs(low, j, r)[i - d]); } }
    }
}
proof fn lemma_rw_le_pw(m: nat, k: nat) requires m < B() ensures rw(m, k) <= pw(k) decreases k
{ if k > 0 { lemma_rw_le_pw(m, (k - 1) as nat); let (a, b) = (rw(m, (k - 1) as nat), pw((k - 1) as nat)); lemma_pw_add(1, (k - 1) as nat); crate::ubig::lemma_pw1(); let bb = B(); assert(m * a <= bb * b) by (nonlinear_arith) requires m <= bb, a <= b; } }
proof fn lemma_top_len(s: Seq<Word>, k: nat) requires val(s) < pw(k), s.len() > 0 ==> s.last() != 0 ensures s.len() <= k
{ if s.len() > k { lemma_val_top(s); lemma_pw_p2(k); lemma_pw_p2((s.len() - 1) as nat); lemma_p2_mono(k * $BITS, ((s.len() - 1) as nat) * $BITS); } }
/// number of digits of a chunk of size i
pub open spec fn csz(r: nat, i: nat) -> nat { dpw(r) * 16 * p2(i) }
pub open spec fn powers_ok(ps: Seq<UBig>, r: nat) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).wf() && ps[i].v() == rw(r, csz(r, i as nat)) }
pub open spec fn chunks_ok(cs: Seq<(usize, UBig)>, r: nat, n: nat) -> bool { forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs[j]).1.wf() && cs[j].0 <= n && cs[j].1.v() < rw(r, csz(r, cs[j].0 as nat)) }
pub open spec fn bdigs(cs: Seq<(usize, UBig)>, k: nat, r: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { digs_n(cs[k - 1].1.v(), r, csz(r, cs[k - 1].0 as nat)) + bdigs(cs, (k - 1) as nat, r) } }
proof fn lemma_bdigs_ext(a: Seq<(usize, UBig)>, b: Seq<(usize, UBig)>, k: nat, r: nat) requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures bdigs(a, k, r) == bdigs(b, k, r) decreases k { if k > 0 { lemma_bdigs_ext(a, b, (k - 1) as nat, r); } }
proof fn lemma_bdigs_len(cs: Seq<(usize, UBig)>, k: nat, n: nat, r: nat) requires k <= n <= cs.len(), 2 <= r <= 36 ensures bdigs(cs, k, r).len() <= bdigs(cs, n, r).len(), k > 0 ==> bdigs(cs, k, r).len() == csz(r, cs[k - 1].0 as nat) + bdigs(cs, (k - 1) as nat, r).len() decreases n - k
{
    if k > 0 { lemma_digs_n(cs[k - 1].1.v(), r, csz(r, cs[k - 1].0 as nat)); }
    if k < n { lemma_bdigs_len(cs, k + 1, n, r); }
}
/// another chunk x is put above the e low digits of `low`
proof fn lemma_chunk_step(cs: Seq<(usize, UBig)>, c: (usize, UBig), r: nat, low: nat, e: nat) requires 2 <= r <= 36, bdigs(cs, cs.len(), r) == digs_n(low, r, e), low < rw(r, e), c.1.v() < rw(r, csz(r, c.0 as nat))
    ensures ({ let f = csz(r, c.0 as nat); let l2 = c.1.v() * rw(r, e) + low; bdigs(cs.push(c), (cs.len() + 1) as nat, r) == digs_n(l2, r, f + e) && l2 < rw(r, f + e) && rw(r, f + e) == rw(r, f) * rw(r, e) })
{
    let f = csz(r, c.0 as nat); let x = c.1.v(); let w = rw(r, e); let l2 = x * w + low; let y = rw(r, f);
    lemma_bdigs_ext(cs, cs.push(c), cs.len(), r); lemma_digs_n_split(l2, r, f, e); lemma_quot(l2, x, w, low); lemma_digs_n_mod(low, r, e, x); lemma_rw_add(r, f, e);
    assert(x * w + low < y * w) by (nonlinear_arith) requires x + 1 <= y, low < w;
}
proof fn lemma_asc_cat(a: Seq<u8>, b: Seq<u8>, c: DigitCase) ensures asc(a + b, c) == asc(a, c) + asc(b, c) { assert(asc(a + b, c) =~= asc(a, c) + asc(b, c)); }
proof fn lemma_step<'a>(d0: DigitWriter<'a>, d1: DigitWriter<'a>, d2: DigitWriter<'a>, r: fmt::Result, a: Seq<u8>, b: Seq<u8>) requires step(d0, d1, Ok(()), a), step(d1, d2, r, b) ensures step(d0, d2, r, a + b)
{ lemma_asc_cat(a, b, d0.case()); assert(d0.out() + (asc(a, d0.case()) + asc(b, d0.case())) =~= d0.out() + asc(a, d0.case()) + asc(b, d0.case())); }
proof fn lemma_fits_cat(a: Seq<u8>, b: Seq<u8>, c: DigitCase) requires fits(a + b, c) ensures fits(a, c), fits(b, c)
{ assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] < (if c is NoLetters { 10int } else { 36 }) by { assert((a + b)[i] == a[i]); } assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < (if c is NoLetters { 10int } else { 36 }) by { assert((a + b)[a.len() + i] == b[i]); } }
proof fn lemma_step0<'a>(d: DigitWriter<'a>) requires d.ok() ensures step(d, d, Ok(()), Seq::empty()) { assert(asc(Seq::<u8>::empty(), d.case()) =~= Seq::empty()); assert(d.out() + Seq::<char>::empty() =~= d.out()); }
@fn InRadixFull<'_>::fmt_non_power_two -> r
    requires self.wf(), !is_p2(self.rx())
    ensures wrote(*old(f), *final(f), r, self.text(old(f).opts()))
@start
let ghost rx = self.radix as nat;
proof {
    lemma_radix_p2(self.radix);
    match self.magnitude.rp() { Small(w) => { lemma_p2_wb(); lemma_digs_len(w as nat, rx, $BITS); }, Large(b) => {
        lemma_val_bound(b@); lemma_pw_p2(b@.len()); lemma_digs_len(val(b@), rx, b@.len() * $BITS); assert(b@.len() * $BITS <= MAXLEN() * $BITS) by (nonlinear_arith) requires b@.len() <= MAXLEN();
        lemma_val_top(b@); lemma_pw_pos((b@.len() - 1) as nat);
    } }
}
@after `let mut prepared = PreparedWord :: new ( * word , self . radix , 1 ) ;`
proof { lemma_digs_min(*word as nat, rx, prepared.digits().len()); }
@after `let radix_info = radix :: radix_info ( self . radix ) ;`
proof {
    lemma_info(*radix_info, self.radix); let d = radix_info.digits_per_word as nat; let n = buffer@.len();
    assert(n * (d + 1) <= MAXLEN() * ($BITS + 1)) by (nonlinear_arith) requires n <= MAXLEN(), d <= $BITS;
    assert(16 * d <= 16 * $BITS) by (nonlinear_arith) requires d <= $BITS;
    if n * (d + 1) <= 16 * d { lemma_pw_rw(rx, d, n); lemma_rw_mono(rx, n * (d + 1), 16 * d); lemma_rw_mul(rx, d, 16); assert(16 * d == d * 16); }
}
@mod
proof fn lemma_rw_mul(r: nat, d: nat, k: nat) ensures rw(rw(r, d), k) == rw(r, d * k) decreases k
{ if k == 0 { assert(d * 0 == 0); } else { lemma_rw_mul(r, d, (k - 1) as nat); assert(d * k == d + d * (k - 1)) by (nonlinear_arith); lemma_rw_add(r, d, d * ((k - 1) as nat)); } }
proof fn lemma_rw_mono(r: nat, a: nat, b: nat) requires a <= b, r >= 1 ensures rw(r, a) <= rw(r, b) { lemma_rw_add(r, a, (b - a) as nat); lemma_rw_pos(r, (b - a) as nat); let (x, y) = (rw(r, a), rw(r, (b - a) as nat)); assert(x * y >= x) by (nonlinear_arith) requires y >= 1, x >= 0; }
proof fn lemma_pw_rw(r: nat, d: nat, n: nat) requires r >= 1, dpw_ok(r, d) ensures pw(n) <= rw(r, n * (d + 1)) decreases n
{
    if n == 0 { assert(0 * (d + 1) == 0); lemma_pw_p2(0); } else {
        let m = (n - 1) as nat; lemma_pw_rw(r, d, m); assert(n * (d + 1) == (d + 1) + m * (d + 1)) by (nonlinear_arith) requires n == m + 1; lemma_rw_add(r, d + 1, m * (d + 1));
        lemma_pw_add(1, m); crate::ubig::lemma_pw1(); let (a, b, x, y) = (B(), pw(m), rw(r, d + 1), rw(r, m * (d + 1))); assert(a * b <= x * y) by (nonlinear_arith) requires a <= x, b <= y;
    }
}
proof fn lemma_mwd(r: nat) requires r >= 3 ensures rw(r, MWD()) >= B(), MWD() <= 64
{ assert(rw(3, MWD()) >= B()) by (compute_only); lemma_rw_base(r, MWD()); }
proof fn lemma_rw_base(r: nat, k: nat) requires r >= 3 ensures rw(r, k) >= rw(3, k) decreases k { if k > 0 { lemma_rw_base(r, (k - 1) as nat); let (a, b) = (rw(r, (k - 1) as nat), rw(3, (k - 1) as nat)); assert(r * a >= 3 * b) by (nonlinear_arith) requires r >= 3, a >= b, b >= 0; } }
@fn PreparedWord::new -> p
    requires np2(radix as nat), 1 <= min_digits <= MWD()
    ensures p.ok(), ({ let n = p.digits().len(); p.digits() == digs_n(word as nat, radix as nat, n) && n >= min_digits && n <= MWD() && (word as nat) < rw(radix as nat, n) && (n == min_digits || word as nat >= rw(radix as nat, (n - 1) as nat)) })
@start
let ghost w0: nat = word as nat; let ghost r = radix as nat;
@after `let radix_info = radix :: radix_info ( radix ) ;`
proof { lemma_info(*radix_info, radix); lemma_mwd(r); assert(w0 / 1 == w0); }
@loop 0
    invariant w0 < B(), r == radix, np2(r), r >= 3, 1 <= min_digits <= MWD(), radix_info.ok(radix as int), prepared.digits@.len() == MWD(), max_start == MWD() - min_digits, prepared.start_index <= MWD(),
        ({ let c = (MWD() - prepared.start_index) as nat; word as nat == w0 / rw(r, c) && prepared.digits() == digs_n(w0, r, c) && (c <= min_digits || w0 >= rw(r, (c - 1) as nat)) })
    decreases prepared.start_index
@loopbefore 0
proof { assert(prepared.digits() =~= digs_n(w0, r, 0)); }
@loopstart 0
let ghost c = (MWD() - prepared.start_index) as nat; let ghost pr0 = prepared; let ghost wb = word;
proof {
    lemma_rw_pos(r, c); lemma_mwd(r); let q = rw(r, c);
    if prepared.start_index == 0 { assert(w0 / q == 0) by { lemma_basic_div(w0 as int, q as int); } assert(false); }
    lemma_digs_n_split(w0, r, 1, c); let x = w0 / q; assert(digs_n(x / r, r, 0) =~= Seq::empty()); assert(x % r < r); lemma_div_denominator(w0 as int, q as int, r as int); assert(r * q == q * r) by (nonlinear_arith);
    if word != 0 { assert(w0 >= q) by { if w0 < q { lemma_basic_div(w0 as int, q as int); } } }
    lemma_digs_n(w0, r, c + 1);
}
@loopend 0
proof { let q = rw(r, c); assert(prepared.digits() =~= seq![((w0 / q) % r) as u8] + pr0.digits()); assert(digs_n(w0 / q, r, 1) =~= seq![((w0 / q) % r) as u8]); assert(prepared.digits() =~= digs_n(w0, r, c + 1)); }
@loopafter 0
proof { let c = (MWD() - prepared.start_index) as nat; lemma_rw_pos(r, c); let q = rw(r, c); lemma_fundamental_div_mod(w0 as int, q as int); lemma_mod_bound(w0 as int, q as int); assert(q * 0 == 0); lemma_digs_n(w0, r, c); }
@fn PreparedForFormatting for PreparedWord::width -> r
@fn PreparedForFormatting for PreparedWord::write -> r
@start
proof { assert(self.digits@.subrange(self.start_index as int, self.digits@.len() as int) =~= self.digits()); }
@fn PreparedMedium::new -> p
@rewrite `assert ! ( buffer_len == 1 ) ;` => ``
    requires np2(radix as nat), number.wf(), 0 < number.v() < rw(rg(radix as nat), 16), 
    ensures p.ok(), p.digits() == digs(number.v(), radix as nat)
@attr #[verifier::loop_isolation(false)]
@start
let ghost r = radix as nat; let ghost v = number.v(); let ghost m = rg(r);
@before `let ( mut buffer , mut buffer_len )`
proof { lemma_info(*radix_info, radix); lemma_rw_le_pw(m, 16); }
@loopbefore 0
proof { assert(v * 1 == v); let b = buffer@.take(buffer_len as int); if buffer_len == 0 { lemma_val_empty(b); } }
@loop 0
    invariant 1 <= buffer_len <= 16, buffer@.len() == 16, buffer@[buffer_len - 1] != 0, num_low_groups <= 16, low_groups@.len() == 16, groups_ok(low_groups@, num_low_groups as nat, r),
        v == val(buffer@.take(buffer_len as int)) * rw(m, num_low_groups as nat) + gval(low_groups@, num_low_groups as nat, m)
    decreases val(buffer@.take(buffer_len as int))
@loopstart 0
let ghost c0 = val(buffer@.take(buffer_len as int)); let ghost k = num_low_groups as nat; let ghost lg0 = low_groups@; let ghost bl0 = buffer_len as int; let ghost b0 = buffer@;
proof {
    let t = buffer@.take(buffer_len as int); lemma_val_top(t); assert(t.last() == buffer@[buffer_len - 1]); lemma_pw_add(1, (buffer_len - 2) as nat); crate::ubig::lemma_pw1(); lemma_pw_pos((buffer_len - 2) as nat);
    let y = pw((buffer_len - 2) as nat); let bb = B(); assert(bb * y >= bb) by (nonlinear_arith) requires y >= 1; assert(c0 >= bb);
    let w = rw(m, k); lemma_rw_pos(m, k); assert(c0 * w >= w) by (nonlinear_arith) requires c0 >= 1; if k >= 16 { lemma_rw_mono(m, 16, k); }
}
@after `low_groups [ num_low_groups ] = rem ;`
let ghost c1 = val(buffer@.take(bl0)); 
proof {
    lemma_gval_ext(lg0, low_groups@, k, m); let w = rw(m, k); let g = gval(lg0, k, m); let rr = rem as nat; assert(c0 == c1 * m + rr);
    assert((c1 * m + rr) * w + g == c1 * (m * w) + (g + rr * w)) by (nonlinear_arith); assert(gval(low_groups@, k + 1, m) == g + rr * w);
    if c1 == 0 { assert(0 * m == 0); assert(false); } assert(c1 < c0) by (nonlinear_arith) requires c0 >= c1 * m, m >= 3, c1 >= 1;
}
@loop 1
    invariant 1 <= buffer_len <= bl0, buffer@.len() == 16, val(buffer@.take(buffer_len as int)) == c1
    decreases buffer_len
@loopstart 1
proof { let t = buffer@.take(buffer_len as int); lemma_val_trim(t, buffer_len - 1); assert(t.take(buffer_len - 1) =~= buffer@.take(buffer_len - 1)); if buffer_len == 1 { lemma_val_empty(buffer@.take(0)); } }
@loopafter 0
proof {
    let t = buffer@.take(1); crate::ubig::lemma_val_one(buffer@[0]); assert(t =~= seq![buffer@[0]]); lemma_groups(low_groups@, num_low_groups as nat, r);
    let x = buffer@[0] as nat; let k = num_low_groups as nat; lemma_digs_split(x, gval(low_groups@, k, m), r, k * dpw(r)); lemma_mwd(r);
    assert(k * dpw(r) <= 16 * $BITS) by (nonlinear_arith) requires k <= 16, dpw(r) <= $BITS;
}
@ret
proof { let n = vp_ret.top_group.digits().len(); lemma_digs_min(buffer@[0] as nat, r, n); }
@fn PreparedForFormatting for PreparedMedium::width -> r
@after `let radix_info = radix :: radix_info ( self . radix ) ;`
proof { lemma_info(*radix_info, self.radix); lemma_groups(self.low_groups@, self.num_low_groups as nat, self.radix as nat); }
@fn PreparedForFormatting for PreparedMedium::write -> r
@attr #[verifier::loop_isolation(false)]
@start
let ghost dw0 = *digit_writer; let ghost rx = self.radix as nat; let ghost all = self.digits(); let ghost low = self.low_groups@; let ghost nl = self.num_low_groups as nat; let ghost top = self.top_group.digits(); let ghost s0 = *self; let ghost mut done = top;
proof { lemma_fits_cat(top, gdigs(low, nl, rx), dw0.case()); }
@after `let radix_info = radix :: radix_info ( self . radix ) ;`
proof { lemma_info(*radix_info, self.radix); lemma_groups(low, nl, rx); lemma_mwd(rx); lemma_dpw_mwd(rx); }
@loop 0 i idx
    invariant i <= nl, self.radix == s0.radix, self.low_groups@ == low, self.num_low_groups == nl, done + gdigs(low, i as nat, rx) == all, step(dw0, *digit_writer, Ok(()), done), digit_writer.dest() == dw0.dest(), fits(gdigs(low, i as nat, rx), dw0.case())
    decreases i
@loopstart 0
let ghost dw1 = *digit_writer; let ghost g = digs_n(low[i as int] as nat, rx, dpw(rx));
proof { lemma_fits_cat(g, gdigs(low, i as nat, rx), dw0.case()); assert(done + (g + gdigs(low, i as nat, rx)) =~= done + g + gdigs(low, i as nat, rx)); }
@before `prepared . write ( digit_writer ) ? ;`
proof { let n = prepared.digits().len(); lemma_exact(low[i as int] as nat, rx, n); assert(prepared.digits() == g); }
@after `prepared . write ( digit_writer ) ? ;`
proof { lemma_step(dw0, dw1, *digit_writer, Ok(()), done, g); done = done + g; }
@loopafter 0
proof { assert(done + Seq::<u8>::empty() =~= done); }
@mod
proof fn lemma_dpw_mwd(r: nat) requires r >= 3, dpw_ok(r, dpw(r)) ensures dpw(r) <= MWD() { lemma_mwd(r); if dpw(r) > MWD() { lemma_rw_mono(r, MWD(), dpw(r)); } }
/// a group below the range has exactly dpw digits
proof fn lemma_exact(v: nat, r: nat, n: nat) requires r >= 3, v < rg(r), n >= dpw(r), n == dpw(r) || v >= rw(r, (n - 1) as nat) ensures n == dpw(r)
{ if n > dpw(r) { lemma_rw_mono(r, dpw(r), (n - 1) as nat); } }
@fn ubig_to_chunk_buffer -> r
    requires x.wf(), x.v() < pw(16)
    ensures r.1 <= 16, r.0@.len() == 16, val(r.0@.take(r.1 as int)) == x.v(), r.1 > 0 ==> r.0@[r.1 - 1] != 0
@after `let buffer_len = words . len ( ) ;`
proof { lemma_top_len(words@, 16); }
@ret
proof { assert(vp_ret.0@.take(vp_ret.1 as int) =~= words@); }
@fn PreparedLarge::write_chunk -> r
    requires np2(self.radix as nat), old(digit_writer).ok(), x.wf(), x.v() < rw(rg(self.radix as nat), 16), fits(digs_n(x.v(), self.radix as nat, 16 * dpw(self.radix as nat)), old(digit_writer).case())
    ensures step(*old(digit_writer), *final(digit_writer), r, digs_n(x.v(), self.radix as nat, 16 * dpw(self.radix as nat))), final(digit_writer).dest() == old(digit_writer).dest()
@attr #[verifier::loop_isolation(false)]
@start
let ghost dw0 = *digit_writer; let ghost r = self.radix as nat; let ghost m = rg(r); let ghost v = x.v(); let ghost mut done = Seq::<u8>::empty();
@after `let radix_info = radix :: radix_info ( self . radix ) ;`
proof { lemma_info(*radix_info, self.radix); lemma_rw_le_pw(m, 16); lemma_mwd(r); lemma_dpw_mwd(r); }
@loopbefore 0
proof { assert(v * 1 == v); }
@looppre 0
let ghost g0 = groups@;
@loop 0 k idx
    invariant k <= 16, groups@.len() == 16, buffer_len <= 16, buffer@.len() == 16, buffer_len > 0 ==> buffer@[buffer_len - 1] != 0, groups_ok(groups@, k as nat, r), val(buffer@.take(buffer_len as int)) < rw(m, (16 - k) as nat),
        v == val(buffer@.take(buffer_len as int)) * rw(m, k as nat) + gval(groups@, k as nat, m)
    decreases 16 - k
@loopstart 0
let ghost c0 = val(buffer@.take(buffer_len as int)); let ghost bl0 = buffer_len as int; let ghost j = (k - 1) as nat;
@loopbefore 1
let ghost c1 = val(buffer@.take(bl0));
proof {
    lemma_gval_ext(g0, groups@, j, m); let w = rw(m, j); let g = gval(g0, j, m); let rr = groups@[j as int] as nat; assert(c0 == c1 * m + rr);
    assert((c1 * m + rr) * w + g == c1 * (m * w) + (g + rr * w)) by (nonlinear_arith); assert(gval(groups@, j + 1, m) == g + rr * w);
    let z = rw(m, (15 - j) as nat); assert(rw(m, (16 - j) as nat) == m * z); assert(c1 < z) by (nonlinear_arith) requires c1 * m <= c0, c0 < m * z, m >= 1;
}
@loop 1
    invariant buffer_len <= bl0, buffer@.len() == 16, val(buffer@.take(buffer_len as int)) == c1
    decreases buffer_len
@loopstart 1
proof { let t = buffer@.take(buffer_len as int); lemma_val_trim(t, buffer_len - 1); assert(t.take(buffer_len - 1) =~= buffer@.take(buffer_len - 1)); }
@loopafter 0
proof {
    let t = buffer@.take(buffer_len as int); if buffer_len > 0 { assert(t.last() == buffer@[buffer_len - 1]); lemma_val_top(t); lemma_pw_pos((buffer_len - 1) as nat); } else { lemma_val_empty(t); }
    assert(0 * rw(m, 16) == 0) by (nonlinear_arith); lemma_groups(groups@, 16, r); lemma_step0(dw0);
    assert(done + gdigs(groups@, 16, r) =~= gdigs(groups@, 16, r));
}
@loop 2 i idx
    invariant i <= 16, done + gdigs(groups@, i as nat, r) == gdigs(groups@, 16, r), step(dw0, *digit_writer, Ok(()), done), digit_writer.dest() == dw0.dest(), fits(gdigs(groups@, i as nat, r), dw0.case())
    decreases i
@loopstart 2
let ghost dw1 = *digit_writer; let ghost g = digs_n(groups@[i as int] as nat, r, dpw(r));
proof { lemma_fits_cat(g, gdigs(groups@, i as nat, r), dw0.case()); assert(done + (g + gdigs(groups@, i as nat, r)) =~= done + g + gdigs(groups@, i as nat, r)); }
@before `prepared . write ( digit_writer ) ? ;`
proof { let n = prepared.digits().len(); lemma_exact(groups@[i as int] as nat, r, n); assert(prepared.digits() == g); }
@after `prepared . write ( digit_writer ) ? ;`
proof { lemma_step(dw0, dw1, *digit_writer, Ok(()), done, g); done = done + g; }
@loopafter 2
proof { assert(done + Seq::<u8>::empty() =~= done); }
@fn PreparedLarge::write_big_chunk -> r
    requires np2(self.radix as nat), old(digit_writer).ok(), x.wf(), i <= self.radix_powers@.len(), powers_ok(self.radix_powers@, self.radix as nat), x.v() < rw(self.radix as nat, csz(self.radix as nat, i as nat)), fits(digs_n(x.v(), self.radix as nat, csz(self.radix as nat, i as nat)), old(digit_writer).case())
    ensures step(*old(digit_writer), *final(digit_writer), r, digs_n(x.v(), self.radix as nat, csz(self.radix as nat, i as nat))), final(digit_writer).dest() == old(digit_writer).dest()
    decreases i
@start
let ghost dw0 = *digit_writer; let ghost rx = self.radix as nat; let ghost d = dpw(rx); let ghost v = x.v(); let ghost mut dw1 = dw0;
proof {
    assert(p2(0) == 1); lemma_rw_mul(rx, d, 16); assert(d * 16 * 1 == d * 16 && 16 * d == d * 16);
    if i > 0 {
        let j = (i - 1) as nat; assert(p2(i as nat) == 2 * p2(j)); let q = p2(j); let dd = d * 16; assert(dd * (2 * q) == dd * q + dd * q) by (nonlinear_arith); let e = csz(rx, j); assert(csz(rx, i as nat) == e + e);
        lemma_rw_add(rx, e, e); let p = rw(rx, e); lemma_rw_pos(rx, e); lemma_digs_n_split(v, rx, e, e);
        lemma_fundamental_div_mod(v as int, p as int); lemma_mod_bound(v as int, p as int); let (a, b) = (v / p, v % p); assert(a < p) by (nonlinear_arith) requires p * a <= v, v < p * p; assert(p * a == a * p) by (nonlinear_arith);
        lemma_digs_n_mod(b, rx, e, a); lemma_fits_cat(digs_n(a, rx, e), digs_n(b, rx, e), dw0.case());
    }
}
@before `self . write_big_chunk ( digit_writer , i - 1 , r )`
proof { dw1 = *digit_writer; }
@ret
proof { if i > 0 { let e = csz(rx, (i - 1) as nat); let p = rw(rx, e); lemma_step(dw0, dw1, *digit_writer, vp_ret, digs_n(v / p, rx, e), digs_n(v % p, rx, e)); } }
@fn PreparedLarge::new -> p
@rewrite `let new = prev * prev ;` => `let new = prev.mul(prev);`
@rewrite `radix_powers . iter ( ) . enumerate ( ) . rev ( )` => `rev_enum(&radix_powers)`
@rewrite `for ( i , p ) in power_iter` => `while let Some((i, p)) = power_iter.next()`
@rewrite `const_assert ! ( UBig :: MAX_LEN % 2 == 0 ) ;` => ``
    requires np2(radix as nat), number.wf(), number.v() > 0, digs(number.v(), radix as nat).len() <= usize::MAX
    ensures p.ok(), p.digits() == digs(number.v(), radix as nat)
@attr #[verifier::loop_isolation(false)]
@start
let ghost rx = radix as nat; let ghost v = number.v(); let ghost m = rg(rx); let ghost d = dpw(rx); let ghost mut ee: nat = 0; let ghost mut low: nat = 0;
@after `let radix_info = radix :: radix_info ( radix ) ;`
proof { lemma_info(*radix_info, radix); }
@before `let chunk_power`
proof { lemma_rw_pow(m, 16); lemma_rw_mul(rx, d, 16); assert(16 * d == d * 16); }
@before `return PreparedLarge`
proof { assert(radix_powers@ =~= Seq::empty()); assert(big_chunks@ =~= Seq::empty()); assert(digs(v, rx) + Seq::<u8>::empty() =~= digs(v, rx)); }
@loopbefore 0
proof { assert(p2(0) == 1); assert(d * 16 * 1 == 16 * d); }
@loop 0
    invariant radix_powers@.len() >= 1, powers_ok(radix_powers@, rx), radix_powers@.last().v() <= v
    decreases v - radix_powers@.last().v()
@loopstart 0
let ghost pv = radix_powers@.last().v();
proof { lemma_csz(rx, (radix_powers@.len() - 1) as nat); assert(pv * pv > pv) by (nonlinear_arith) requires pv >= 3; lemma_len_bounds(number); let l = radix_powers@.last().lenv(); lemma_len_bounds(&radix_powers@.last()); if 2 * l - 1 > number.lenv() { lemma_sq_big(v, pv, number.lenv(), l); } }
@loopafter 0
let ghost n = radix_powers@.len(); let ghost pp = rw(rx, csz(rx, (n - 1) as nat));
proof { assert(v < pp * pp); lemma_csz(rx, (n - 1) as nat); }
@loopbefore 1
proof {
    let c = big_chunks@[0]; assert(big_chunks@ =~= Seq::empty().push(c)); assert(digs_n(0, rx, 0) =~= Seq::empty()); lemma_chunk_step(Seq::empty(), c, rx, 0, 0);
    ee = csz(rx, (n - 1) as nat); low = c.1.v(); assert(low * 1 + 0 == low);
    lemma_fundamental_div_mod(v as int, pp as int); lemma_mod_bound(v as int, pp as int); let q = x.v(); assert(q == v / pp); assert(q < pp && q >= 1) by (nonlinear_arith) requires pp * q + low == v, low < pp, v < pp * pp, v >= pp, q >= 0, pp >= 1; assert(pp * q == q * pp) by (nonlinear_arith);
}
@loop 1
    invariant power_iter.s@ == radix_powers@, power_iter.i <= n - 1, x.wf(), 1 <= x.v() < rw(rx, csz(rx, power_iter.i as nat)) || (power_iter.i == n - 1 && 1 <= x.v() < pp), low < rw(rx, ee), v == x.v() * rw(rx, ee) + low, bdigs(big_chunks@, big_chunks@.len(), rx) == digs_n(low, rx, ee), chunks_ok(big_chunks@, rx, n)
    decreases power_iter.i
@loopstart 1
let ghost xb = x.v(); let ghost cs0 = big_chunks@; let ghost pi = rw(rx, csz(rx, i as nat));
proof { lemma_csz(rx, i as nat); assert(p.v() == pi); }
@loopend 1
proof {
    if xb >= pi {
        let c = big_chunks@.last(); assert(big_chunks@ =~= cs0.push(c)); lemma_chunk_step(cs0, c, rx, low, ee); let w = rw(rx, ee); let q = x.v(); let rr = c.1.v();
        lemma_fundamental_div_mod(xb as int, pi as int); assert(q == xb / pi && rr == xb % pi); assert((pi * q + rr) * w + low == q * (pi * w) + (rr * w + low)) by (nonlinear_arith);
        assert(q < pi && q >= 1) by (nonlinear_arith) requires pi * q + rr == xb, rr < pi, xb < pi * pi, xb >= pi, q >= 0, pi >= 1;
        low = rr * w + low; ee = csz(rx, c.0 as nat) + ee;
    }
}
@loopafter 1
proof { assert(p2(0) == 1); assert(d * 16 * 1 == 16 * d); lemma_digs_split(x.v(), low, rx, ee); }
@mod
proof fn lemma_csz(r: nat, i: nat) requires 3 <= r, dpw(r) >= 1 ensures csz(r, i + 1) == 2 * csz(r, i), csz(r, i) >= 1, rw(r, csz(r, i + 1)) == rw(r, csz(r, i)) * rw(r, csz(r, i)), rw(r, csz(r, i)) >= 3
{
    assert(p2(i + 1) == 2 * p2(i)); let q = p2(i); let dd = dpw(r) * 16; assert(dd * (2 * q) == dd * q + dd * q) by (nonlinear_arith); let e = csz(r, i); lemma_rw_add(r, e, e); lemma_p2_pos(i);
    assert(dd * q >= 1) by (nonlinear_arith) requires dd >= 1, q >= 1; lemma_rw_mono(r, 1, e); let x0 = rw(r, 0); assert(x0 == 1); assert(rw(r, 1) == r * x0); assert(r * 1 == r);
}
impl UBig { pub(crate) closed spec fn lenv(&self) -> nat { match self.rp() { crate::ubig::Repr::Small(_) => 1, crate::ubig::Repr::Large(b) => b@.len() } } }
proof fn lemma_len_bounds(x: &UBig) requires x.wf() ensures x.v() < pw(x.lenv()), x.v() > 0 ==> x.v() >= pw((x.lenv() - 1) as nat), x.lenv() >= 1
{ crate::ubig::lemma_pw1(); lemma_pw_p2(0); match x.rp() { crate::ubig::Repr::Small(_) => { } crate::ubig::Repr::Large(b) => { lemma_val_bound(b@); lemma_val_top(b@); } } }
proof fn lemma_sq_big(v: nat, p: nat, n: nat, l: nat) requires v < pw(n), p >= pw((l - 1) as nat), l >= 1, 2 * l - 1 > n ensures v < p * p
{
    let a = (l - 1) as nat; lemma_pw_add(a, a); lemma_pw_p2(n); lemma_pw_p2(a + a); assert(n <= a + a); lemma_p2_mono(n * $BITS, (a + a) * $BITS); let x = pw(a); assert(x * x <= p * p) by (nonlinear_arith) requires 0 <= x <= p;
}
@fn PreparedForFormatting for PreparedLarge::width -> r
@rewrite `for ( i , _ )` => `for vp_c`
@rewrite `& self . big_chunks` => `self.big_chunks.iter()`
@rewrite `<< i` => `<< vp_c.0`
@start
let ghost rx = self.radix as nat; let ghost cs = self.big_chunks@; let ghost tl = self.top_chunk.digits().len();
@after `let radix_info = radix :: radix_info ( self . radix ) ;`
proof { lemma_info(*radix_info, self.radix); lemma_bdigs_len(cs, cs.len(), cs.len(), rx); }
@loop 0 it
    invariant it.wf(), it.seq().len() == cs.len(), forall|j: int| 0 <= j < cs.len() ==> *(#[trigger] it.seq()[j]) == cs[j], num_digits == tl + bdigs(cs, it.index() as nat, rx).len(), np2(rx), dpw(rx) == radix_info.digits_per_word, radix_info.digits_per_word <= $BITS, tl + bdigs(cs, cs.len(), rx).len() <= usize::MAX, dpw(rx) >= 1
@loopstart 0
proof {
    let j = it.index() as nat; assert(*vp_c == cs[j as int]); lemma_bdigs_len(cs, j + 1, cs.len(), rx); let i = vp_c.0 as nat; let z = (radix_info.digits_per_word * 16) as usize; 
    assert(z * p2(i) <= usize::MAX); lemma_p2_pos(i); if i >= 64 { lemma_p2_mono(64, i); let q = p2(i); crate::vp_parse::lemma_p2_63(); assert(p2(64) == 2 * p2(63)); assert(z * q >= q) by (nonlinear_arith) requires z >= 1, q >= 0; }
    crate::vp_parse::lemma_shl_size(z, vp_c.0);
}
@fn PreparedForFormatting for PreparedLarge::write -> r
@rewrite `for ( i , val ) in big_chunks . drain ( .. ) . rev ( )` => `while let Some((i, val)) = big_chunks.pop()`
@attr #[verifier::loop_isolation(false)]
@start
let ghost dw0 = *digit_writer; let ghost rx = self.radix as nat; let ghost all = self.digits(); let ghost cs = self.big_chunks@; let ghost top = self.top_chunk.digits(); let ghost mut done = top; let ghost ps = self.radix_powers@;
proof { lemma_fits_cat(top, bdigs(cs, cs.len(), rx), dw0.case()); }
@loop 0
    invariant big_chunks@.len() <= cs.len(), big_chunks@ == cs.take(big_chunks@.len() as int), self.radix == rx, self.radix_powers@ == ps, done + bdigs(cs, big_chunks@.len(), rx) == all, step(dw0, *digit_writer, Ok(()), done), digit_writer.dest() == dw0.dest(), fits(bdigs(cs, big_chunks@.len(), rx), dw0.case())
    decreases big_chunks@.len()
@loopstart 0
let ghost dw1 = *digit_writer; let ghost j = big_chunks@.len(); let ghost g = digs_n(cs[j as int].1.v(), rx, csz(rx, cs[j as int].0 as nat));
proof { assert(cs[j as int].1.wf()); lemma_fits_cat(g, bdigs(cs, j, rx), dw0.case()); assert(done + (g + bdigs(cs, j, rx)) =~= done + g + bdigs(cs, j, rx)); assert(big_chunks@ =~= cs.take(j as int)); }
@after `self . write_big_chunk ( digit_writer , i , val ) ? ;`
proof { lemma_step(dw0, dw1, *digit_writer, Ok(()), done, g); done = done + g; }
@loopafter 0
proof { assert(done + Seq::<u8>::empty() =~= done); }
@file math.rs
@fn ceil_div_usize -> r
    requires b > 0
    ensures r == (if a == 0 { 0 } else { (a - 1) / (b as int) + 1 })
@fn round_up_usize -> r
    requires b > 0, a + b <= usize::MAX
    ensures r as int % b as int == 0, a <= r < a + b
@start
proof { lemma_round(a as int, b as int); }
@fn ceil_div -> r
@mono T=usize as ceil_div_us
    requires b > 0
    ensures r == (if a == 0 { 0 } else { (a - 1) / (b as int) + 1 })
@fn ceil_div -> r
@mono T=u32 as ceil_div_u32
    requires b > 0
    ensures r == (if a == 0 { 0 } else { (a - 1) / (b as int) + 1 })
@fn round_up -> r
@mono T=usize as round_up_us
@rewrite `ceil_div (` => `ceil_div_us(`
    requires b > 0, a + b <= usize::MAX
    ensures r as int % b as int == 0, a <= r < a + b
@start
proof { lemma_round(a as int, b as int); }
@mod
proof fn lemma_round(a: int, b: int) requires a >= 0, b > 0 ensures ({ let c = if a == 0 { 0 } else { (a - 1) / b + 1 }; (c * b) % b == 0 && a <= c * b < a + b })
{
    let c = if a == 0 { 0 } else { (a - 1) / b + 1 };
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(c, b);
    if a > 0 { let q = (a - 1) / b; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a - 1, b); assert((q + 1) * b == b * q + b) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_bound(a - 1, b); } else { assert(0 * b == 0) by (nonlinear_arith); }
}
@file vp_fmt.rs
@mod
pub proof fn lemma_digs(v: nat, r: nat) requires 2 <= r <= 36
    ensures below(digs(v, r), r), digs(v, r).len() >= 1, digs(v, r)[0] == 0 ==> v == 0, v == 0 ==> digs(v, r).len() == 1 decreases v
{
    if v >= r {
        assert(0 < v / r < v) by (nonlinear_arith) requires v >= r, r >= 2; lemma_digs(v / r, r); assert(v % r < r) by (nonlinear_arith) requires r >= 2;
        let t = digs(v / r, r); let u = digs(v, r);
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] < r by { if i < t.len() { assert(u[i] == t[i]); } }
    }
}
/// digits every word fits in (radix 3)
pub open spec fn MWD() -> nat { $MWD }
/// a power of the radix
pub open spec fn rw(r: nat, k: nat) -> nat decreases k { if k == 0 { 1 } else { r * rw(r, (k - 1) as nat) } }
pub proof fn lemma_rw_pos(r: nat, k: nat) requires r >= 1 ensures rw(r, k) >= 1 decreases k { if k > 0 { lemma_rw_pos(r, (k - 1) as nat); let a = rw(r, (k - 1) as nat); assert(r * a >= 1) by (nonlinear_arith) requires r >= 1, a >= 1; } }
pub proof fn lemma_rw_add(r: nat, a: nat, b: nat) ensures rw(r, a + b) == rw(r, a) * rw(r, b) decreases a
{
    if a == 0 { let x = rw(r, b); assert(1 * x == x); } else { lemma_rw_add(r, (a - 1) as nat, b); let (x, y) = (rw(r, (a - 1) as nat), rw(r, b)); assert(r * (x * y) == (r * x) * y) by (nonlinear_arith); }
}
pub proof fn lemma_rw_pow(r: nat, k: nat) ensures rw(r, k) == pow(r as int, k) decreases k { reveal(pow); if k > 0 { lemma_rw_pow(r, (k - 1) as nat); } }
pub proof fn lemma_rw_p2(l: nat, k: nat) ensures rw(p2(l), k) == p2(l * k) decreases k
{
    if k == 0 { assert(l * 0 == 0); } else { lemma_rw_p2(l, (k - 1) as nat); let n = l * (k - 1); assert(l * k == l + n) by (nonlinear_arith) requires n == l * (k - 1); lemma_p2_add(l, n as nat); }
}
pub proof fn lemma_digs_n(v: nat, r: nat, n: nat) requires 2 <= r <= 36 ensures digs_n(v, r, n).len() == n, below(digs_n(v, r, n), r) decreases n
{
    if n > 0 {
        lemma_digs_n(v / r, r, (n - 1) as nat); assert(v % r < r) by (nonlinear_arith) requires r >= 2; let t = digs_n(v / r, r, (n - 1) as nat); let u = digs_n(v, r, n);
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] < r by { if i < t.len() { assert(u[i] == t[i]); } }
    }
}
pub proof fn lemma_digs_n_at(v: nat, r: nat, n: nat, i: int) requires 2 <= r <= 36, 0 <= i < n ensures digs_n(v, r, n)[i] == (v / rw(r, (n - 1 - i) as nat)) % r decreases n
{
    lemma_digs_n(v / r, r, (n - 1) as nat);
    if i == n - 1 { assert(v / 1 == v); assert(v % r < r) by (nonlinear_arith) requires r >= 2; } else {
        lemma_digs_n_at(v / r, r, (n - 1) as nat, i); let k = (n - 2 - i) as nat; lemma_rw_pos(r, k);
        lemma_div_denominator(v as int, r as int, rw(r, k) as int);
    }
}
/// the shortest digits are n digits of which the first is not zero
pub proof fn lemma_digs_min(v: nat, r: nat, n: nat) requires 2 <= r <= 36, n >= 1, v < rw(r, n), n == 1 || v >= rw(r, (n - 1) as nat) ensures digs(v, r) == digs_n(v, r, n) decreases n
{
    if n == 1 { assert(rw(r, 0) == 1); assert(rw(r, 1) == r * 1); assert(digs_n(v / r, r, 0) =~= Seq::empty()); assert(v % r == v) by (nonlinear_arith) requires v < r; assert(digs_n(v, r, 1) =~= seq![v as u8]); }
    else {
        let a = rw(r, (n - 2) as nat); lemma_rw_pos(r, (n - 2) as nat); let b = rw(r, (n - 1) as nat); assert(b == r * a);
        assert(v >= r) by (nonlinear_arith) requires v >= r * a, a >= 1;
        assert(v / r < b && v / r >= a) by { lemma_fundamental_div_mod(v as int, r as int); let q = v / r; assert(0 <= v % r < r) by (nonlinear_arith) requires r >= 2; let m = v % r;
            assert(q < b) by (nonlinear_arith) requires r * q + m < r * b, m >= 0, r >= 2; assert(q >= a) by (nonlinear_arith) requires r * q + m >= r * a, m < r, r >= 2; }
        lemma_digs_min(v / r, r, (n - 1) as nat);
    }
}
pub proof fn lemma_digs_n_split(v: nat, r: nat, a: nat, b: nat) requires 2 <= r <= 36 ensures digs_n(v, r, a + b) == digs_n(v / rw(r, b), r, a) + digs_n(v, r, b) decreases b
{
    if b == 0 { assert(v / 1 == v); assert(digs_n(v, r, 0) =~= Seq::empty()); assert(digs_n(v, r, a) + Seq::<u8>::empty() =~= digs_n(v, r, a)); }
    else {
        let c = (b - 1) as nat; lemma_digs_n_split(v / r, r, a, c); lemma_rw_pos(r, c); lemma_div_denominator(v as int, r as int, rw(r, c) as int);
        let d = (v % r) as u8; assert(digs_n(v, r, a + b) =~= digs_n(v / rw(r, b), r, a) + digs_n(v, r, b));
    }
}
pub proof fn lemma_digs_n_mod(v: nat, r: nat, b: nat, m: nat) requires 2 <= r <= 36 ensures digs_n(m * rw(r, b) + v, r, b) == digs_n(v, r, b) decreases b
{
    if b > 0 {
        let c = (b - 1) as nat; let x = rw(r, c); let w = m * rw(r, b) + v; let k = m * x; assert(m * (r * x) == r * (m * x)) by (nonlinear_arith); assert(w == r * k + v);
        lemma_fundamental_div_mod(v as int, r as int); let (q, d) = (v / r, v % r); assert(d < r) by (nonlinear_arith) requires r >= 2, d == v % r;
        assert(r * k + (r * q + d) == (k + q) * r + d) by (nonlinear_arith); lemma_quot(w, k + q, r, d); lemma_digs_n_mod(q, r, c, m);
    }
}
/// digits of a number put together from a high part and b low digits
pub proof fn lemma_digs_split(a: nat, c: nat, r: nat, b: nat) requires 2 <= r <= 36, a > 0, c < rw(r, b) ensures digs(a * rw(r, b) + c, r) == digs(a, r) + digs_n(c, r, b) decreases b
{
    if b == 0 { assert(a * 1 == a); assert(digs(a, r) + Seq::<u8>::empty() =~= digs(a, r)); }
    else {
        let e = (b - 1) as nat; let x = rw(r, e); let w = a * rw(r, b) + c; let k = a * x; assert(a * (r * x) == r * (a * x)) by (nonlinear_arith);
        lemma_fundamental_div_mod(c as int, r as int); let (q, d) = (c / r, c % r); assert(d < r) by (nonlinear_arith) requires r >= 2, d == c % r;
        assert(r * k + (r * q + d) == (k + q) * r + d) by (nonlinear_arith); lemma_quot(w, k + q, r, d);
        assert(q < x) by (nonlinear_arith) requires r * q + d < r * x, d >= 0, r >= 2;
        lemma_rw_pos(r, e); assert(k >= 1) by (nonlinear_arith) requires k == a * x, a >= 1, x >= 1; assert(w >= r) by (nonlinear_arith) requires w == r * k + c, k >= 1, c >= 0, r >= 2;
        lemma_digs_split(a, q, r, e);
        assert(digs(w, r) =~= digs(a, r) + digs_n(c, r, b));
    }
}
pub proof fn lemma_digs_len(v: nat, r: nat, k: nat) requires 2 <= r <= 36, v < p2(k), k >= 1 ensures digs(v, r).len() <= k decreases k
{
    if v >= r {
        if k == 1 { assert(p2(0) == 1); assert(p2(1) == 2); } else {
            assert(p2(k) == 2 * p2((k - 1) as nat)); let h = p2((k - 1) as nat); lemma_fundamental_div_mod(v as int, r as int); let q = v / r; assert(v % r >= 0);
            assert(q < h) by (nonlinear_arith) requires r * q <= v, v < 2 * h, r >= 2; lemma_digs_len(q, r, (k - 1) as nat);
        }
    }
}
pub proof fn lemma_fits(s: Seq<u8>, r: nat, c: DigitCase) requires below(s, r), case_ok(r, c) ensures fits(s, c) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < (if c is NoLetters { 10int } else { 36 }) by { assert(s[i] < r); } }
/// One digit inside one word.
pub proof fn lemma_digit_in(s: Seq<Word>, l: nat, k: nat, b: nat) requires k < s.len(), b < $BITS, b + l <= $BITS || k == s.len() - 1
    ensures (val(s) / p2(k * $BITS + b)) % p2(l) == (s[k as int] as nat / p2(b)) % p2(l)
{
    let u = val(s.skip(k as int)); let t = s.skip(k as int); lemma_val_split(s, k as int); lemma_val_bound(s.take(k as int)); lemma_pw_p2(k); lemma_p2_add(k * $BITS, b); lemma_p2_pos(k * $BITS); lemma_p2_pos(b); lemma_p2_pos(l);
    let (x, p, q, m) = (val(s.take(k as int)), pw(k), p2(b), p2(l)); assert(p * u == u * p) by (nonlinear_arith); lemma_quot(val(s), u, p, x);
    lemma_div_denominator(val(s) as int, p as int, q as int);
    lemma_val_first(t); let w = s[k as int] as nat; let h = val(t.skip(1));
    if k == s.len() - 1 { lemma_val_empty(t.skip(1)); assert(B() * 0 == 0); } else {
        let g = p2(($BITS - b - l) as nat); lemma_p2_add(b, l); lemma_p2_add(b + l, ($BITS - b - l) as nat); lemma_p2_wb();
        assert(B() == q * m * g); assert(q * m * g * h == q * (m * (g * h))) by (nonlinear_arith); let z = g * h;
        lemma_div_shift(w, q, m * z); lemma_mod_shift(w / q, m, z);
    }
}
pub proof fn lemma_div_shift(w: nat, q: nat, z: nat) requires q >= 1 ensures (w + q * z) / q == w / q + z
{ lemma_fundamental_div_mod(w as int, q as int); lemma_mod_bound(w as int, q as int); let (a, d) = (w / q, w % q); assert(q * a + d + q * z == (a + z) * q + d) by (nonlinear_arith); lemma_quot(w + q * z, a + z, q, d); }
pub proof fn lemma_mod_shift(w: nat, q: nat, z: nat) requires q >= 1 ensures (w + q * z) % q == w % q
{ lemma_fundamental_div_mod(w as int, q as int); lemma_mod_bound(w as int, q as int); let (a, d) = (w / q, w % q); assert(q * a + d + q * z == (a + z) * q + d) by (nonlinear_arith); lemma_quot(w + q * z, a + z, q, d); }
/// One digit across two words.
pub proof fn lemma_digit_across(s: Seq<Word>, l: nat, k: nat, e: nat) requires 1 <= k < s.len(), 1 <= e <= l, l < $BITS
    ensures (val(s) / p2((k - 1) as nat * $BITS + ($BITS - e) as nat)) % p2(l) == (s[k as int] as nat * p2(e) + s[k - 1] as nat / p2(($BITS - e) as nat)) % p2(l)
{
    let j = (k - 1) as nat; let b = ($BITS - e) as nat; let t = s.skip(j as int); let u = val(t);
    lemma_val_split(s, j as int); lemma_val_bound(s.take(j as int)); lemma_pw_p2(j); lemma_p2_add(j * $BITS, b); lemma_p2_pos(j * $BITS); lemma_p2_pos(b); lemma_p2_pos(l);
    let (x, p, q, m) = (val(s.take(j as int)), pw(j), p2(b), p2(l)); assert(p * u == u * p) by (nonlinear_arith); lemma_quot(val(s), u, p, x);
    lemma_div_denominator(val(s) as int, p as int, q as int);
    lemma_val_first(t); lemma_val_first(t.skip(1)); assert(t.skip(1)[0] == s[k as int]);
    let (w, y, h, f) = (s[j as int] as nat, s[k as int] as nat, val(t.skip(1).skip(1)), p2(e)); let g = p2(($BITS - l) as nat);
    lemma_p2_add(b, e); lemma_p2_add(l, ($BITS - l) as nat); lemma_p2_wb(); assert(B() == q * f); assert(B() == m * g); let bb = B();
    assert(u == w + bb * (y + bb * h));
    assert(bb * (y + bb * h) == q * (f * y + m * (f * (g * h)))) by (nonlinear_arith) requires bb == q * f, bb == m * g;
    let z = f * (g * h); lemma_div_shift(w, q, f * y + m * z); lemma_mod_shift(w / q + f * y, m, z); assert(f * y == y * f) by (nonlinear_arith);
}
pub proof fn lemma_two_words(x: Word, w: Word, e: u32, l: u32) requires 1 <= e <= l, l < $BITS
    ensures ((x << e | w >> (($BITS - e) as u32)) & sub(1$W << l, 1)) as nat == (x as nat * p2(e as nat) + w as nat / p2(($BITS - e) as nat)) % p2(l as nat)
{
    let b = ($BITS - e) as u32; let c = w >> b; lemma_shr_div(w, b); lemma_p2_pos(b as nat); lemma_p2_add(b as nat, e as nat); lemma_p2_wb(); lemma_p2_pos(l as nat);
    let (q, f) = (p2(b as nat), p2(e as nat)); assert(w < q * f); assert(w as nat / q < f) by { lemma_fundamental_div_mod(w as int, q as int); let a = w as nat / q; assert(w as int % q as int >= 0); assert(a < f) by (nonlinear_arith) requires q * a <= w, w < q * f, q >= 1; }
    lemma_shl_word(x, c, e); assert(e < $BITSu32 ==> ((x as $DW) << e) as $W == x << e) by (bit_vector);
    let t = x << e | c; let hi = ((((x as $DW) << e) >> $BITSu32) as $W) as nat; lemma_mask_mod(t, l);
    let (m, g) = (p2(l as nat), p2(($BITS - l) as nat)); lemma_p2_add(l as nat, ($BITS - l) as nat); let bb = B(); assert(bb * hi == m * (g * hi)) by (nonlinear_arith) requires bb == m * g; lemma_mod_shift(t as nat, m, g * hi);
}
pub struct RevEnum<'a, T> { pub s: &'a [T], pub i: usize }
/// slice::iter().enumerate().rev()
pub fn rev_enum<'a, T>(s: &'a Vec<T>) -> (r: RevEnum<'a, T>) ensures r.s@ == s@, r.i == s@.len() { RevEnum { s: s.as_slice(), i: s.len() } }
impl<'a, T> RevEnum<'a, T> {
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>) requires old(self).i <= old(self).s@.len()
        ensures final(self).s == old(self).s, old(self).i == 0 ==> r is None && final(self).i == 0, old(self).i > 0 ==> r is Some && r.unwrap().0 == old(self).i - 1 && *r.unwrap().1 == old(self).s@[old(self).i - 1] && final(self).i == old(self).i - 1
    { if self.i == 0 { None } else { self.i -= 1; Some((self.i, &self.s[self.i])) } }
}
pub struct RevWords<'a> { pub s: &'a [Word], pub i: usize }
/// slice::iter().rev().copied()
pub fn rev_words<'a>(s: &'a [Word]) -> (r: RevWords<'a>) ensures r.s@ == s@, r.i == s@.len() { RevWords { s, i: s.len() } }
impl<'a> RevWords<'a> {
    pub fn next(&mut self) -> (r: Option<Word>) requires old(self).i <= old(self).s@.len()
        ensures final(self).s == old(self).s, old(self).i == 0 ==> r is None && final(self).i == 0, old(self).i > 0 ==> r == Some(old(self).s@[old(self).i - 1]) && final(self).i == old(self).i - 1
    { if self.i == 0 { None } else { self.i -= 1; Some(self.s[self.i]) } }
}
/// the characters of digits, as bytes
pub open spec fn ascb(s: Seq<u8>, c: DigitCase) -> Seq<u8> { Seq::new(s.len(), |i: int| asc1(s[i], c)) }
/// Parsing the digits gives the number back.
pub proof fn lemma_parse_back(v: nat, r: nat, c: DigitCase) requires case_ok(r, c) ensures all_digits(ascb(digs(v, r), c), r as int), sv(ascb(digs(v, r), c), r as int) == v decreases v
{
    let d = digs(v, r); let s = ascb(d, c); lemma_digs(v, r);
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] dig(s[i]) < r by { assert(d[i] < r); }
    if v < r { assert(s.drop_last() =~= Seq::empty()); assert(sv(Seq::empty(), r as int) == 0); assert(0 * r == 0); assert(dig(s.last()) == v); }
    else {
        assert(0 < v / r < v) by (nonlinear_arith) requires v >= r, r >= 2; lemma_parse_back(v / r, r, c); assert(s.drop_last() =~= ascb(digs(v / r, r), c));
        assert(v % r < r) by (nonlinear_arith) requires r >= 2; assert(dig(s.last()) == v % r); lemma_fundamental_div_mod(v as int, r as int); let q = v / r; assert(q * r == r * q) by (nonlinear_arith);
    }
}
