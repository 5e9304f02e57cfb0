@file vp_parse.rs
@mod
use vstd::prelude::*;
use vstd::string::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::vp_radix::*;
use crate::arch::word::Word;
use crate::ubig::UBig;
use crate::ibig::IBig;
use crate::error::ParseError;
use crate::sign::Sign;
/// str::strip_prefix of an ASCII character / of two ASCII characters (documented behaviour of core)
#[verifier::external_body]
pub fn strip_byte<'a>(s: &'a str, c: u8) -> (r: Option<&'a str>) requires c < 128
    ensures match r { Some(t) => s.spec_bytes().len() > 0 && s.spec_bytes()[0] == c && t.spec_bytes() == s.spec_bytes().skip(1), None => s.spec_bytes().len() == 0 || s.spec_bytes()[0] != c } { s.strip_prefix(c as char) }
#[verifier::external_body]
pub fn strip_two<'a>(s: &'a str, c: u8, d: u8) -> (r: Option<&'a str>) requires c < 128, d < 128
    ensures match r { Some(t) => has_two(s.spec_bytes(), c, d) && t.spec_bytes() == s.spec_bytes().skip(2), None => !has_two(s.spec_bytes(), c, d) } { s.strip_prefix(core::str::from_utf8(&[c, d]).unwrap()) }
pub open spec fn has_two(s: Seq<u8>, c: u8, d: u8) -> bool { s.len() >= 2 && s[0] == c && s[1] == d }
/// No allocation exceeds isize::MAX bytes (guaranteed by Rust).
#[verifier::external_body]
pub proof fn axiom_bytes_len(s: &[u8]) ensures s@.len() <= isize::MAX { }
/// slice::rchunks collected (documented behaviour of core)
#[verifier::external_body]
pub fn rchunk_vec(s: &[u8], n: usize) -> (r: Vec<&[u8]>) requires n > 0
    ensures r@.len() == (s@.len() + n - 1) / (n as int), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j])@ == s@.subrange(imax(s@.len() - (j * n + n), 0), s@.len() - j * n) { s.rchunks(n).collect() }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub fn vec_one(x: UBig) -> (r: Vec<UBig>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
#[verifier::external_body]
pub fn split_last<T>(s: &[T]) -> (r: Option<(&T, &[T])>) ensures match r { Some((x, t)) => s@.len() > 0 && *x == s@.last() && t@ == s@.drop_last(), None => s@.len() == 0 } { s.split_last() }
/// The result of parsing digits t.
pub open spec fn parsed(r: Result<UBig, ParseError>, t: Seq<u8>, radix: int) -> bool {
    match r { Ok(u) => u.wf() && all_digits(t, radix) && u.v() == sv(t, radix), Err(e) => e is InvalidDigit && !all_digits(t, radix) }
}
/// The result of parsing digits t, at least one of them.
pub open spec fn parsed1(r: Result<UBig, ParseError>, t: Seq<u8>, radix: int) -> bool {
    if t.len() == 0 { r is Err && r->Err_0 is NoDigits } else { parsed(r, t, radix) }
}
pub open spec fn strip_plus(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s } }
pub open spec fn strip_sign(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 45 { s.skip(1) } else { strip_plus(s) } }
pub open spec fn neg_sign(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 45 }
pub open spec fn prefix_radix(s: Seq<u8>) -> int { if has_two(s, 48, 98) { 2 } else if has_two(s, 48, 111) { 8 } else if has_two(s, 48, 120) { 16 } else { 10 } }
pub open spec fn prefix_rest(s: Seq<u8>) -> Seq<u8> { if prefix_radix(s) != 10 { s.skip(2) } else { s } }
/// The result of parsing a signed number with digits t.
pub open spec fn parsed_i(r: Result<IBig, ParseError>, neg: bool, t: Seq<u8>, radix: int) -> bool {
    if t.len() == 0 { r is Err && r->Err_0 is NoDigits } else {
        match r { Ok(x) => x.wf() && all_digits(t, radix) && x.v() == (if neg { -sv(t, radix) } else { sv(t, radix) }), Err(e) => e is InvalidDigit && !all_digits(t, radix) }
    }
}
/// a leading zero digit does not matter
pub proof fn lemma_zero_digit(s: Seq<u8>, radix: int) requires s.len() > 0, s[0] == 48, radix > 0
    ensures sv(s, radix) == sv(s.skip(1), radix), all_digits(s, radix) == all_digits(s.skip(1), radix)
{
    lemma_sv_front(s, 0, radix); assert(s.skip(0) =~= s); assert(dig(s[0]) == 0); assert(0 * pow(radix, (s.len() - 1) as nat) == 0);
    let t = s.skip(1);
    if all_digits(t, radix) { assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] dig(s[i]) < radix by { if i > 0 { assert(s[i] == t[i - 1]); assert(0 <= dig(t[i - 1]) < radix); } } }
    if all_digits(s, radix) { assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] dig(t[i]) < radix by { assert(t[i] == s[i + 1]); assert(0 <= dig(s[i + 1]) < radix); } }
}
/// or-ing a digit in at a bit position: the low word, and what is carried out of it
pub proof fn lemma_place(word: Word, d: Word, bits: u32) requires bits < $BITS, word < p2(bits as nat)
    ensures (word | (d << bits)) as nat + B() * (if bits == 0 { 0 } else { (d >> (($BITS - bits) as u32)) as nat }) == word as nat + d as nat * p2(bits as nat)
{
    if bits == 0 { assert(word == 0); assert(0$W | (d << 0u32) == d) by (bit_vector); assert(p2(0) == 1); assert(d as nat * 1 == d as nat); }
    else {
        lemma_shl_word(d, word, bits);
        assert(word | (d << bits) == (((d as $DW) << bits) as $W) | word) by (bit_vector) requires bits < $BITS;
        assert((d >> (($BITSu32 - bits) as u32)) == ((((d as $DW) << bits) >> $BITSu32) as $W)) by (bit_vector) requires 0 < bits < $BITS;
        assert(($BITS - bits) as u32 == ($BITSu32 - bits) as u32);
    }
}
/// One more digit d in front of the digits s, given as words b and the partial word w.
pub proof fn lemma_digit_bits(s: Seq<u8>, i: int, radix: u32, b: Seq<Word>, w: nat, bits: nat)
    requires 0 <= i < s.len(), radix == 2 || radix == 4 || radix == 8 || radix == 16 || radix == 32, 0 <= dig(s[i]) < radix,
        val(b) + w * pw(b.len()) == sv(s.skip(i + 1), radix as int), b.len() * $BITS + bits == (s.len() - i - 1) * lg(radix as int), w < p2(bits),
    ensures val(b) + (w + dig(s[i]) * p2(bits)) * pw(b.len()) == sv(s.skip(i), radix as int), w + dig(s[i]) * p2(bits) < p2(bits + lg(radix as int)),
        (s.len() - i) * lg(radix as int) == b.len() * $BITS + bits + lg(radix as int), radix == p2(lg(radix as int)),
{
    let r = radix as int; let l = lg(r); let k = (s.len() - i - 1) as nat; let d = dig(s[i]) as nat;
    lemma_sv_front(s, i, r); lemma_pow_p2(r, k); assert(l * k == k * l) by (nonlinear_arith);
    lemma_pw_p2(b.len()); lemma_p2_add(b.len() * $BITS, bits); assert(b.len() * $BITS == $BITS * b.len());
    let (p, q, v, x) = (pw(b.len()), p2(bits), val(b), d);
    assert(p == p2(b.len() * $BITS)); 
    assert(v + (w + x * q) * p == v + w * p + x * (p * q)) by (nonlinear_arith);
    lemma_p2_add(bits, l); reveal_with_fuel(p2, 6); assert(p2(l) == r);
    assert(w + x * q < q * r) by (nonlinear_arith) requires w < q, x + 1 <= r;
    assert((s.len() - i) * l == k * l + l) by (nonlinear_arith) requires k == s.len() - i - 1;
}
pub proof fn lemma_pow_mono(r: int, a: nat, b: nat) requires r >= 1, a <= b ensures pow(r, a) <= pow(r, b), pow(r, a) >= 1 decreases b
{ lemma_pow_positive(r, a); if a < b { lemma_pow_mono(r, a, (b - 1) as nat); reveal(pow); let p = pow(r, (b - 1) as nat); assert(r * p >= p) by (nonlinear_arith) requires r >= 1, p >= 1; } }
/// shifts of sizes
pub proof fn lemma_shl_size(x: usize, k: usize) requires k < 64, x * p2(k as nat) <= usize::MAX ensures (x << k) == x * p2(k as nat) decreases k
{
    lemma_p2_pos(k as nat);
    if k == 0 { assert(x << 0usize == x) by (bit_vector); assert(p2(0) == 1); assert(x * 1 == x); } else {
        let j = (k - 1) as usize; let p = p2(j as nat) as int; assert(p2(k as nat) == 2 * p2(j as nat)); lemma_p2_pos(j as nat);
        assert(x * (2 * p) == 2 * (x * p)) by (nonlinear_arith); assert(x * p >= 0) by (nonlinear_arith) requires x >= 0, p >= 0;
        lemma_shl_size(x, j);
        assert((x << ((j + 1) as usize)) == mul(x << j, 2)) by (bit_vector) requires j < 63;
    }
}
pub proof fn lemma_shr_size(x: usize, k: usize) requires k < 64 ensures (x >> k) == x as int / (p2(k as nat) as int) decreases k
{
    lemma_p2_pos(k as nat);
    if k == 0 { assert(x >> 0usize == x) by (bit_vector); assert(p2(0) == 1); } else {
        let j = (k - 1) as usize; lemma_p2_pos(j as nat); lemma_shr_size(x, j);
        assert((x >> ((j + 1) as usize)) == (x >> j) / 2) by (bit_vector) requires j < 63;
        lemma_div_denominator(x as int, p2(j as nat) as int, 2); assert(p2(k as nat) == p2(j as nat) * 2);
    }
}
pub proof fn lemma_p2_63() ensures p2(63) == 0x8000_0000_0000_0000, p2(64) == 0x1_0000_0000_0000_0000
{ reveal_with_fuel(p2, 9); assert(p2(8) == 256); lemma_p2_add(8, 8); assert(p2(16) == 0x1_0000); lemma_p2_add(16, 16); assert(p2(32) == 0x1_0000_0000); lemma_p2_add(32, 32); assert(0x1_0000_0000 * 0x1_0000_0000 == 0x1_0000_0000_0000_0000) by (compute); assert(p2(64) == 2 * p2(63)); }
/// k is the number of digits that fit a word
pub open spec fn is_dpw(radix: int, k: int) -> bool { k >= 1 && pow(radix, k as nat) < B() <= pow(radix, k as nat) * radix }
pub proof fn lemma_dpw(radix: int, k: int) requires is_dpw(radix, k), radix >= 2
    ensures forall|n: nat| #[trigger] pow(radix, n) < B() <==> n <= k, forall|j: int| is_dpw(radix, j) ==> j == k
{
    assert forall|n: nat| #[trigger] pow(radix, n) < B() <==> n <= k by {
        if n <= k { lemma_pow_mono(radix, n, k as nat); } else { lemma_pow_mono(radix, (k + 1) as nat, n); reveal(pow); let p = pow(radix, k as nat); assert(pow(radix, (k + 1) as nat) == radix * p); assert(radix * p == p * radix) by (nonlinear_arith); }
    }
    assert forall|j: int| is_dpw(radix, j) implies j == k by {
        assert(j <= k) by { assert(pow(radix, j as nat) < B()); }
        if j < k { assert(pow(radix, (j + 1) as nat) < B()); reveal(pow); let p = pow(radix, j as nat); assert(pow(radix, (j + 1) as nat) == radix * p); assert(radix * p == p * radix) by (nonlinear_arith); }
    }
}
pub proof fn lemma_digits_sub(s: Seq<u8>, a: int, b: int, radix: int) requires 0 <= a <= b <= s.len() ensures all_digits(s, radix) ==> all_digits(s.subrange(a, b), radix)
{ if all_digits(s, radix) { let t = s.subrange(a, b); assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] dig(t[i]) < radix by { assert(t[i] == s[a + i]); assert(0 <= dig(s[a + i]) < radix); } } }
pub proof fn lemma_digits_cat(s: Seq<u8>, a: int, radix: int) requires 0 <= a <= s.len(), all_digits(s.take(a), radix), all_digits(s.skip(a), radix) ensures all_digits(s, radix)
{ assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] dig(s[i]) < radix by { if i < a { assert(s.take(a)[i] == s[i]); assert(0 <= dig(s.take(a)[i]) < radix); } else { assert(s.skip(a)[i - a] == s[i]); assert(0 <= dig(s.skip(a)[i - a]) < radix); } } }
/// the head of a string that is left when j groups of k digits are cut off its end
pub open spec fn head(s: Seq<u8>, j: int, k: int) -> Seq<u8> { s.take(imax(s.len() - j * k, 0)) }
/// one more group of k digits behind a head
pub proof fn lemma_group(s: Seq<u8>, j: int, k: int, radix: int) requires j >= 0, k >= 1, radix >= 2, s.len() - j * k >= 0
    ensures ({ let h = head(s, j + 1, k); let g = s.subrange(imax(s.len() - (j * k + k), 0), s.len() - j * k); let t = head(s, j, k);
        sv(t, radix) == sv(h, radix) * pow(radix, k as nat) + sv(g, radix) && (all_digits(h, radix) && all_digits(g, radix) ==> all_digits(t, radix)) && g.len() <= k && (all_digits(s, radix) ==> all_digits(g, radix)) })
{
    assert((j + 1) * k == j * k + k) by (nonlinear_arith); assert(j * k >= 0) by (nonlinear_arith) requires j >= 0, k >= 1;
    let a = imax(s.len() - (j * k + k), 0); let b = s.len() - j * k; let t = head(s, j, k); let h = head(s, j + 1, k); let g = s.subrange(a, b);
    assert(t == s.take(b)); lemma_sv_split(t, a, radix); assert(t.take(a) =~= h); assert(t.skip(a) =~= g); lemma_digits_sub(s, a, b, radix);
    if all_digits(h, radix) && all_digits(g, radix) { lemma_digits_cat(t, a, radix); }
    if a == 0 { assert(h.len() == 0); assert(sv(h, radix) == 0); let (x, y) = (pow(radix, (b - a) as nat), pow(radix, k as nat)); assert(0 * x == 0 && 0 * y == 0) by (nonlinear_arith); }
}
@file error.rs
@item enum ParseError
@file parse/power_two.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::vp_radix::*;
use crate::vp_parse::*;
use crate::vp_std::*;
use vstd::string::*;
@fn parse -> r
@rewrite `src . len ( )` => `src.as_bytes().len()`
    requires radix_ok(radix as int), is_p2(radix as nat)
    ensures parsed(r, src.spec_bytes(), radix as int)
@start
proof { lemma_radix_p2(radix); let l = lg(radix as int) as int; let n = src.spec_bytes().len(); if n <= $BITSint / l { assert(n * l <= $BITS) by (nonlinear_arith) requires n <= $BITSint / l, l >= 1; } }
@fn parse_word -> r
@rewrite `src . len ( )` => `src.as_bytes().len()`
    requires radix_ok(radix as int), is_p2(radix as nat), src.spec_bytes().len() * lg(radix as int) <= $BITS
    ensures match r { Ok(w) => all_digits(src.spec_bytes(), radix as int) && w == sv(src.spec_bytes(), radix as int), Err(e) => e is InvalidDigit && !all_digits(src.spec_bytes(), radix as int) }
@attr #[verifier::loop_isolation(false)]
@start
let ghost s = src.spec_bytes(); let ghost n = s.len(); let ghost lr = lg(radix as int);
proof { lemma_radix_p2(radix); assert(n <= $BITSint / (lr as int)) by (nonlinear_arith) requires n * lr <= $BITS, lr >= 1; assert(s.skip(n as int) =~= Seq::empty()); assert(p2(0) == 1); assert(0 * lr == 0) by (nonlinear_arith); }
@loop 0 i idx
    invariant i <= n, bits == (n - i) * lr, word == sv(s.skip(i as int), radix as int), word < p2(bits as nat), forall|j: int| i <= j < n ==> 0 <= #[trigger] dig(s[j]) < radix
    decreases i
@loopstart 0
let ghost w0: Word = word; let ghost b0: u32 = bits; let ghost dg = dig(s[i as int]);
proof {
    assert(val(Seq::<Word>::empty()) == 0); assert(pw(0) == 1); assert(w0 as nat * 1 == w0);
    if 0 <= dg < radix {
        lemma_digit_bits(s, i as int, radix, Seq::<Word>::empty(), w0 as nat, b0 as nat);
        assert((n - i) * lr <= n * lr) by (nonlinear_arith) requires i >= 0, lr >= 0; assert(b0 + lr <= $BITS);
        lemma_place(w0, dg as Word, b0); lemma_p2_mono(b0 as nat + lr, $BITS); lemma_p2_wb();
        let h = if b0 == 0 { 0 } else { ((dg as Word) >> (($BITS - b0) as u32)) as nat };
        assert(h == 0) by { if h >= 1 { assert(B() * h >= B()) by (nonlinear_arith) requires h >= 1, B() >= 0; } }
        assert((w0 as nat + dg as nat * p2(b0 as nat)) * 1 == w0 as nat + dg as nat * p2(b0 as nat));
    }
}
@loopafter 0
proof { assert(s.skip(0) =~= s); }
@fn parse_large -> r
@rewrite `src . len ( ) . checked_mul ( log_radix as usize ) . unwrap_or_else ( | | UBig :: panic_number_too_large ( ) )` => `match src.as_bytes().len().checked_mul(log_radix as usize) { Some(x) => x, None => UBig::panic_number_too_large() }`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires radix_ok(radix as int), is_p2(radix as nat), src.spec_bytes().len() > 0
    ensures parsed(r, src.spec_bytes(), radix as int)
@attr #[verifier::loop_isolation(false)]
@start
let ghost s = src.spec_bytes(); let ghost n = s.len(); let ghost lr = lg(radix as int);
proof { lemma_radix_p2(radix); assert(s.skip(n as int) =~= Seq::empty()); assert(val(Seq::<Word>::empty()) == 0); assert(n * lr >= lr) by (nonlinear_arith) requires n >= 1, lr >= 0; assert(0 * pw(0) == 0); }
@loopbefore 0
proof { assert(p2(0) == 1); assert(n * lr == num_bits); assert(0 * lr == 0) by (nonlinear_arith); }
@loop 0 i idx
    invariant i <= n, buffer.wf(), bits < $BITS, buffer@.len() * $BITS + bits == (n - i) * lr, val(buffer@) + word as nat * pw(buffer@.len()) == sv(s.skip(i as int), radix as int), word < p2(bits as nat), forall|j: int| i <= j < n ==> 0 <= #[trigger] dig(s[j]) < radix,
        buffer.cap() * $BITS >= num_bits
    decreases i
@loopstart 0
let ghost w0: Word = word; let ghost b0: u32 = bits; let ghost dg = dig(s[i as int]); let ghost bf = buffer@;
proof {
    if 0 <= dg < radix {
        lemma_digit_bits(s, i as int, radix, bf, w0 as nat, b0 as nat);
        assert((n - i) * lr <= n * lr) by (nonlinear_arith) requires i >= 0, lr >= 0;
        lemma_place(w0, dg as Word, b0); lemma_p2_wb();
        let nw = w0 | ((dg as Word) << b0); let nb = b0 + lr;
        let h = if b0 == 0 { 0 } else { ((dg as Word) >> (($BITS - b0) as u32)) as nat };
        if nb >= $BITS {
            lemma_p2_add($BITS, (nb - $BITS) as nat); let q = p2((nb - $BITS) as nat);
            assert(h < q) by (nonlinear_arith) requires B() * h < B() * q, B() > 0;
            lemma_val_push(bf, nw); lemma_pw_step(bf.len()); let p = pw(bf.len());
            assert((nw as nat + B() * h) * p == nw * p + h * (B() * p)) by (nonlinear_arith);
        } else {
            lemma_p2_mono(nb as nat, $BITS);
            assert(h == 0) by { if h >= 1 { assert(B() * h >= B()) by (nonlinear_arith) requires h >= 1, B() >= 0; } }
        }
    }
}
@loopafter 0
proof { assert(s.skip(0) =~= s); lemma_val_push(buffer@, word); if bits == 0 { assert(0 * pw(buffer@.len()) == 0); } }
@file parse/non_power_two.rs
@item const CHUNK_LEN
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::vp_radix::*;
use crate::vp_parse::*;
use crate::vp_std::*;
use vstd::string::*;
use vstd::arithmetic::power::*;
use core::ops::*;
use crate::radix::RadixInfo;
spec fn powers_ok(p: Seq<UBig>, radix: int, c: nat) -> bool { forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).wf() && p[j].v() == pow(radix, c * p2(j as nat)) }
/// c digits make a chunk
spec fn chunk_ok(radix: int, c: int) -> bool { exists|k: int| #[trigger] is_dpw(radix, k) && c == CHUNK_LEN * k }
@fn parse -> r
    requires radix_ok(radix as int), !is_p2(radix as nat)
    ensures parsed(r, src.spec_bytes(), radix as int)
@start
proof { assert forall|k: int| #[trigger] is_dpw(radix as int, k) implies (forall|n: nat| #[trigger] pow(radix as int, n) < B() <==> n <= k) by { lemma_dpw(radix as int, k); } }
@after `let radix_info = radix :: radix_info ( radix ) ;`
proof { assert(is_dpw(radix as int, radix_info.digits_per_word as int)); assert(chunk_ok(radix as int, CHUNK_LEN * radix_info.digits_per_word as int)); }
@fn parse_word -> r
    requires radix_ok(radix as int), !is_p2(radix as nat), pow(radix as int, src@.len()) < B()
    ensures match r { Ok(w) => all_digits(src@, radix as int) && w == sv(src@, radix as int), Err(e) => e is InvalidDigit && !all_digits(src@, radix as int) }
@start
let ghost s = src@; let ghost rx = radix as int;
proof { assert forall|k: int| #[trigger] is_dpw(radix as int, k) implies (forall|n: nat| #[trigger] pow(radix as int, n) < B() <==> n <= k) by { lemma_dpw(radix as int, k); } 
    assert forall|i: RadixInfo| i.ok(rx) implies src@.len() <= i.digits_per_word by { assert(is_dpw(rx, i.digits_per_word as int)); } }
@loop 0 i idx
    invariant i <= src@.len(), s == src@, rx == radix, radix_ok(rx), word == sv(s.take(i as int), rx), all_digits(s.take(i as int), rx), pow(rx, s.len()) < B()
    decreases src@.len() - i
@loopstart 0
let ghost i0 = i as int - 1; let ghost t = s.take(i0); let ghost t2 = s.take(i0 + 1); let ghost dg = dig(s[i0]);
proof {
    assert(t2 =~= t.push(s[i0])); lemma_sv_push(t, s[i0], rx); lemma_sv_bound(t, rx);
    if 0 <= dg < rx {
        assert forall|j: int| 0 <= j < t2.len() implies 0 <= #[trigger] dig(t2[j]) < rx by { if j < i0 { assert(t2[j] == t[j]); assert(0 <= dig(t[j]) < rx); } }
        lemma_sv_bound(t2, rx); lemma_pow_mono(rx, t2.len(), s.len());
    }
}
@loopafter 0
proof { assert(s.take(s.len() as int) =~= s); }
@fn parse_chunk -> r
@rewrite `bytes . rchunks ( radix_info . digits_per_word )` => `rchunk_vec(bytes, radix_info.digits_per_word)`
@rewrite `mul :: mul_word_in_place_with_carry ( & mut buffer ,` => `mul::mul_word_in_place_with_carry(buffer.deref_mut(),`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires radix_ok(radix as int), !is_p2(radix as nat), exists|c: int| #[trigger] chunk_ok(radix as int, c) && bytes@.len() <= c
    ensures parsed(r, bytes@, radix as int)
@attr #[verifier::loop_isolation(false)]
@start
let ghost s = bytes@; let ghost rx = radix as int;
proof { assert forall|k: int| #[trigger] is_dpw(rx, k) implies (forall|n: nat| #[trigger] pow(rx, n) < B() <==> n <= k) && (forall|j: int| #[trigger] is_dpw(rx, j) ==> j == k) by { lemma_dpw(rx, k); } }
@after `let radix_info = radix :: radix_info ( radix ) ;`
let ghost k = radix_info.digits_per_word as int;
proof { assert(is_dpw(rx, k)); assert(s.len() <= CHUNK_LEN * k); assert((s.len() + k - 1) / k <= CHUNK_LEN) by (nonlinear_arith) requires s.len() <= CHUNK_LEN * k, k >= 1; }
@loopbefore 0
let ghost gn = groups@.len() as int;
proof {
    assert(gn * k >= s.len()) by (nonlinear_arith) requires gn == (s.len() + k - 1) / k, k >= 1;
    assert(gn > 0 ==> (gn - 1) * k < s.len()) by (nonlinear_arith) requires gn == (s.len() + k - 1) / k, k >= 1;
    assert(head(s, gn, k) =~= Seq::empty());
}
@loop 0 i idx over groups groups rev
    invariant i <= gn, buffer.wf(), buffer@.len() <= gn - i, buffer.cap() >= gn, val(buffer@) == sv(head(s, i as int, k), rx), all_digits(head(s, i as int, k), rx)
    decreases i
@loopstart 0
let ghost b0 = buffer@; let ghost j = i as int; let ghost g = groups@[j]@;
proof {
    assert(j * k <= (gn - 1) * k) by (nonlinear_arith) requires j <= gn - 1, k >= 1;
    lemma_group(s, j, k, rx); lemma_pow_mono(rx, g.len(), k as nat);
}
@before `if carry != 0`
proof { lemma_val_push(buffer@, carry); assert(0 * pw(buffer@.len()) == 0); }
@loopafter 0
proof { assert(0 * k == 0) by (nonlinear_arith); assert(head(s, 0, k) =~= s); }
@fn parse_large -> r
@rewrite `vec ! [ UBig :: from_word ( radix_info . range_per_word ) . pow ( CHUNK_LEN ) ]` => `vec_one(UBig::from_word(radix_info.range_per_word).pow(CHUNK_LEN))`
@rewrite `prev * prev` => `prev.mul(prev)`
    requires radix_ok(radix as int), !is_p2(radix as nat), exists|c: int| #[trigger] chunk_ok(radix as int, c) && bytes@.len() > c
    ensures parsed(r, bytes@, radix as int)
@attr #[verifier::loop_isolation(false)]
@start
let ghost rx = radix as int; let ghost n = bytes@.len() as int;
proof {
    axiom_bytes_len(bytes); lemma_p2_63();
    assert forall|k: int| #[trigger] is_dpw(rx, k) implies (forall|n: nat| #[trigger] pow(rx, n) < B() <==> n <= k) && (forall|j: int| #[trigger] is_dpw(rx, j) ==> j == k) by { lemma_dpw(rx, k); }
}
@after `let radix_info = radix :: radix_info ( radix ) ;`
let ghost k = radix_info.digits_per_word as int;
proof { assert(is_dpw(rx, k)); }
@loopbefore 0
let ghost cb = chunk_bytes as int;
proof {
    assert(cb == CHUNK_LEN * k); lemma_pow_multiplies(rx, k as nat, CHUNK_LEN as nat); assert(k * CHUNK_LEN == cb) by (nonlinear_arith) requires cb == CHUNK_LEN * k; assert(p2(0) == 1); assert(cb * 1 == cb);
    assert((n - 1) / 1 == n - 1); assert(cb >= 1) by (nonlinear_arith) requires cb == CHUNK_LEN * k, k >= 1, CHUNK_LEN == 256;
}
@loop 0
    invariant powers_ok(radix_powers@, rx, cb as nat), 1 <= radix_powers@.len() <= 63, cb * p2((radix_powers@.len() - 1) as nat) < n
    decreases 64 - radix_powers@.len()
@loopstart 0
let ghost m = radix_powers@.len(); let ghost p0 = radix_powers@;
proof {
    lemma_shr_size((n - 1) as usize, m as usize); let q = p2(m) as int; lemma_p2_pos(m); lemma_p2_63();
    assert(cb * q <= n - 1) by (nonlinear_arith) requires cb <= (n - 1) / q, q >= 1;
    assert(m <= 62) by { if m >= 63 { lemma_p2_mono(63, m); assert(cb * q >= q) by (nonlinear_arith) requires cb >= 1, q >= 1; } }
    let e = (cb * p2((m - 1) as nat)) as nat; assert(cb * q == e + e) by (nonlinear_arith) requires q == 2 * p2((m - 1) as nat), e == cb * p2((m - 1) as nat); lemma_pow_adds(rx, e, e);
    lemma_pow_positive(rx, e); let a = pow(rx, e); assert(p0[m - 1].v() == a);
}
@loopafter 0
proof {
    let m = radix_powers@.len(); lemma_shr_size((n - 1) as usize, m as usize); let q = p2(m) as int; lemma_p2_pos(m);
    assert(n <= cb * q) by (nonlinear_arith) requires cb > (n - 1) / q, q >= 1;
    assert(cb * q <= 2 * (n - 1)) by (nonlinear_arith) requires q == 2 * p2((m - 1) as nat), cb * p2((m - 1) as nat) <= n - 1;
    assert(chunk_ok(rx, cb));
}
@fn parse_large_divide_conquer -> r
@rewrite `radix_powers . split_last ( )` => `split_last(radix_powers)`
@rewrite `res_hi * radix_power + res_lo` => `res_hi.mul(radix_power).add(res_lo)`
    requires radix_ok(radix as int), !is_p2(radix as nat), chunk_bytes >= 1, radix_powers@.len() < 64, chunk_bytes * p2(radix_powers@.len()) <= usize::MAX, bytes@.len() <= chunk_bytes * p2(radix_powers@.len()), powers_ok(radix_powers@, radix as int, chunk_bytes as nat), chunk_ok(radix as int, chunk_bytes as int)
    ensures parsed(r, bytes@, radix as int)
    decreases radix_powers@.len()
@start
let ghost rx = radix as int; let ghost cb = chunk_bytes as int; let ghost m = radix_powers@.len(); let ghost s = bytes@; let ghost n = s.len() as int; let ghost ps = radix_powers@;
proof {
    lemma_shl_size(chunk_bytes, m as usize); assert(p2(0) == 1); assert(cb * 1 == cb);
    if m > 0 {
        let q = p2((m - 1) as nat) as int; lemma_p2_pos((m - 1) as nat); assert(cb * (2 * q) == 2 * (cb * q)) by (nonlinear_arith); assert(cb * q >= 0) by (nonlinear_arith) requires cb >= 0, q >= 0;
        lemma_shl_size(chunk_bytes, (m - 1) as usize);
        assert(powers_ok(ps.drop_last(), rx, cb as nat));
        assert(ps[m - 1].v() == pow(rx, (cb * q) as nat));
        if n > cb * q {
            let a = n - cb * q; lemma_sv_split(s, a, rx); lemma_digits_sub(s, 0, a, rx); lemma_digits_sub(s, a, n, rx); assert(s.take(a) =~= s.subrange(0, a)); assert(s.skip(a) =~= s.subrange(a, n));
            if all_digits(s.take(a), rx) && all_digits(s.skip(a), rx) { lemma_digits_cat(s, a, rx); }
        }
    }
}
@file parse/mod.rs
@mod
use crate::vp_radix::*;
use crate::vp_bits::*;
use crate::vp_parse::*;
use crate::vp_std::*;
use vstd::string::*;
@fn FromStr for UBig::from_str -> r
@method2fn ubig_from_str UBig
    ensures parsed1(r, strip_plus(s.spec_bytes()), 10)
@fn FromStr for IBig::from_str -> r
@method2fn ibig_from_str IBig
    ensures parsed_i(r, neg_sign(s.spec_bytes()), strip_sign(s.spec_bytes()), 10)
@fn UBig::from_str_radix -> r
@rewrite `src . strip_prefix ( '+' )` => `strip_byte(src, b'+')`
@panics !radix_ok(radix as int)
    ensures parsed1(r, strip_plus(src.spec_bytes()), radix as int)
@fn UBig::from_str_with_radix_prefix -> r
@rewrite `src . strip_prefix ( '+' )` => `strip_byte(src, b'+')`
    ensures ({ let t = strip_plus(src.spec_bytes()); parsed1(r, prefix_rest(t), prefix_radix(t)) })
@fn UBig::from_str_with_radix_prefix_no_sign -> r
@rewrite `src . strip_prefix ( "0b" )` => `strip_two(src, b'0', b'b')`
@rewrite `src . strip_prefix ( "0o" )` => `strip_two(src, b'0', b'o')`
@rewrite `src . strip_prefix ( "0x" )` => `strip_two(src, b'0', b'x')`
    ensures parsed1(r, prefix_rest(src.spec_bytes()), prefix_radix(src.spec_bytes()))
@fn UBig::from_str_radix_no_sign -> r
@rewrite `src . strip_prefix ( '0' )` => `strip_byte(src, b'0')`
    requires radix_ok(radix as int)
    ensures parsed1(r, src.spec_bytes(), radix as int)
@start
let ghost s0 = src.spec_bytes();
proof { lemma_radix_p2(radix); }
@loop 0
    invariant radix_ok(radix as int), all_digits(src.spec_bytes(), radix as int) == all_digits(s0, radix as int), sv(src.spec_bytes(), radix as int) == sv(s0, radix as int)
    ensures src.spec_bytes().len() == 0 || src.spec_bytes()[0] != 48
    decreases src.spec_bytes().len()
@loopstart 0
proof { lemma_zero_digit(src.spec_bytes(), radix as int); }
@fn IBig::from_str_radix -> r
@rewrite `src . strip_prefix ( '+' )` => `strip_byte(src, b'+')`
@rewrite `src . strip_prefix ( '-' )` => `strip_byte(src, b'-')`
@panics !radix_ok(radix as int)
    ensures parsed_i(r, neg_sign(src.spec_bytes()), strip_sign(src.spec_bytes()), radix as int)
@fn IBig::from_str_with_radix_prefix -> r
@rewrite `src . strip_prefix ( '+' )` => `strip_byte(src, b'+')`
@rewrite `src . strip_prefix ( '-' )` => `strip_byte(src, b'-')`
    ensures ({ let t = strip_sign(src.spec_bytes()); parsed_i(r, neg_sign(src.spec_bytes()), prefix_rest(t), prefix_radix(t)) })
