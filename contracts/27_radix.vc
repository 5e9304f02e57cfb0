@file vp_radix.rs
@mod
use vstd::prelude::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use crate::vp_bits::*;
/// The value of a digit character, -1 if it is none.
pub open spec fn dig(b: u8) -> int {
    if 48 <= b <= 57 { b - 48 } else if 97 <= b <= 122 { b - 97 + 10 } else if 65 <= b <= 90 { b - 65 + 10 } else { -1 }
}
pub open spec fn all_digits(s: Seq<u8>, radix: int) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] dig(s[i]) < radix }
/// The number a string of digits denotes (most significant first).
pub open spec fn sv(s: Seq<u8>, radix: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { sv(s.drop_last(), radix) * radix + dig(s.last()) }
}
pub open spec fn radix_ok(radix: int) -> bool { 2 <= radix <= 36 }
pub proof fn lemma_sv_split(s: Seq<u8>, k: int, radix: int) requires 0 <= k <= s.len(), radix > 0
    ensures sv(s, radix) == sv(s.take(k), radix) * pow(radix, (s.len() - k) as nat) + sv(s.skip(k), radix)
    decreases s.len()
{
    if k == s.len() { assert(s.take(k) =~= s); assert(s.skip(k) =~= Seq::empty()); lemma_pow0(radix); }
    else {
        let t = s.drop_last(); lemma_sv_split(t, k, radix);
        assert(t.take(k) =~= s.take(k)); assert(s.skip(k).drop_last() =~= t.skip(k)); assert(s.skip(k).last() == s.last());
        reveal(pow); let n = (t.len() - k) as nat; assert(pow(radix, n + 1) == radix * pow(radix, n));
        let (a, p, b, d) = (sv(s.take(k), radix), pow(radix, n), sv(t.skip(k), radix), dig(s.last()));
        assert((a * p + b) * radix + d == a * (radix * p) + (b * radix + d)) by (nonlinear_arith);
    }
}
pub proof fn lemma_sv_bound(s: Seq<u8>, radix: int) requires all_digits(s, radix), radix > 0 ensures 0 <= sv(s, radix) < pow(radix, s.len()) decreases s.len()
{
    if s.len() == 0 { lemma_pow0(radix); } else {
        let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] dig(t[i]) < radix by { assert(t[i] == s[i]); }
        lemma_sv_bound(t, radix); reveal(pow);
        let (a, p, d) = (sv(t, radix), pow(radix, t.len()), dig(s.last()));
        assert(0 <= a * radix + d < radix * p) by (nonlinear_arith) requires 0 <= a <= p - 1, 0 <= d < radix;
    }
}
pub proof fn lemma_sv_push(s: Seq<u8>, b: u8, radix: int) ensures sv(s.push(b), radix) == sv(s, radix) * radix + dig(b)
{ assert(s.push(b).drop_last() =~= s); }
/// one more digit in front
pub proof fn lemma_sv_front(s: Seq<u8>, i: int, radix: int) requires 0 <= i < s.len(), radix > 0
    ensures sv(s.skip(i), radix) == dig(s[i]) * pow(radix, (s.len() - i - 1) as nat) + sv(s.skip(i + 1), radix)
{
    let t = s.skip(i); lemma_sv_split(t, 1, radix); assert(t.skip(1) =~= s.skip(i + 1));
    assert(t.take(1).drop_last() =~= Seq::empty()); assert(t.take(1).last() == s[i]); assert(sv(Seq::empty(), radix) == 0); assert(sv(t.take(1), radix) == 0 * radix + dig(s[i]));
}
/// log2 of a power-of-two radix
pub open spec fn lg(radix: int) -> nat { if radix == 2 { 1 } else if radix == 4 { 2 } else if radix == 8 { 3 } else if radix == 16 { 4 } else { 5 } }
pub proof fn lemma_radix_p2(radix: u32) requires 2 <= radix <= 36
    ensures is_p2(radix as nat) == (radix == 2 || radix == 4 || radix == 8 || radix == 16 || radix == 32),
        is_p2(radix as nat) ==> p2(lg(radix as int)) == radix && vstd::std_specs::bits::u32_trailing_zeros(radix) == lg(radix as int)
{
    reveal_with_fuel(p2, 7);
    assert(p2(1) == 2 && p2(2) == 4 && p2(3) == 8 && p2(4) == 16 && p2(5) == 32 && p2(6) == 64 && p2(0) == 1);
    if is_p2(radix as nat) {
        let k = choose|k: nat| #[trigger] p2(k) == radix as nat; if k > 5 { lemma_p2_mono(6, k); }
    } else if radix == 2 || radix == 4 || radix == 8 || radix == 16 || radix == 32 { assert(p2(lg(radix as int)) == radix); assert(false); }
    if is_p2(radix as nat) {
        vstd::std_specs::bits::axiom_u32_trailing_zeros(radix); let t = vstd::std_specs::bits::u32_trailing_zeros(radix) as u32;
        assert((radix >> t) & 1 != 0);
        assert((2u32 >> t) & 1 != 0 ==> t == 1) by (bit_vector) requires t < 32;
        assert((4u32 >> t) & 1 != 0 ==> t == 2) by (bit_vector) requires t < 32;
        assert((8u32 >> t) & 1 != 0 ==> t == 3) by (bit_vector) requires t < 32;
        assert((16u32 >> t) & 1 != 0 ==> t == 4) by (bit_vector) requires t < 32;
        assert((32u32 >> t) & 1 != 0 ==> t == 5) by (bit_vector) requires t < 32;
    }
}
pub proof fn lemma_pow_p2(radix: int, k: nat) requires radix == 2 || radix == 4 || radix == 8 || radix == 16 || radix == 32 ensures pow(radix, k) == p2(lg(radix) * k) decreases k
{
    if k == 0 { lemma_pow0(radix); assert(lg(radix) * 0 == 0); } else {
        lemma_pow_p2(radix, (k - 1) as nat); reveal(pow); let l = lg(radix); let n = l * (k - 1);
        assert(l * k == n + l) by (nonlinear_arith) requires n == l * (k - 1); lemma_p2_add(n as nat, l);
        reveal_with_fuel(p2, 6); let q = p2(n as nat); assert(p2(l) == radix); assert(radix * q == q * radix) by (nonlinear_arith);
    }
}
@if bits==64
pub assume_specification [u32::is_power_of_two] (x: u32) -> (r: bool) ensures r == is_p2(x as nat);
@endif
@if bits==16
pub assume_specification [u32::is_power_of_two] (x: u32) -> (r: bool) ensures r == is_p2(x as nat);
@endif
@file fast_divide.rs
@fn FastDivideSmall::dummy -> r
@fn FastDivideNormalized::dummy -> r
@file radix.rs
@item const MAX_RADIX
@item enum DigitCase
@item struct RadixInfo
@item type RadixInfoTable
@static RADIX_INFO_TABLE ensures forall|r: int| 2 <= r <= 36 ==> (#[trigger] RADIX_INFO_TABLE[r]).ok(r)
@mod
use crate::vp_math::*;
use crate::vp_radix::*;
use crate::vp_bits::*;
use vstd::arithmetic::power::*;
impl RadixInfo {
    /// what the table says about a radix
    pub open spec fn ok(&self, radix: int) -> bool {
        &&& self.digits_per_word >= 1
        &&& self.fast_div_radix.wf() && self.fast_div_radix.d() == radix
        &&& if is_p2(radix as nat) { self.digits_per_word == $BITSint / (lg(radix) as int) } else {
            &&& self.digits_per_word <= $BITS
            &&& self.range_per_word == pow(radix, self.digits_per_word as nat)
            &&& self.range_per_word * radix >= B()
            &&& self.fast_div_range_per_word.wf() && self.fast_div_range_per_word.d() == self.range_per_word * p2(lzs(self.range_per_word) as nat)
        }
    }
}
@fn is_radix_valid -> r
    ensures r == radix_ok(radix as int)
@fn check_radix_valid
@panics !radix_ok(radix as int)
    ensures radix_ok(radix as int)
@fn digit_from_utf8_byte -> r
    requires radix_ok(radix as int)
    ensures match r { Some(d) => d == dig(byte) && d < radix, None => !(0 <= dig(byte) < radix) }
@fn radix_info -> r
    requires radix_ok(radix as int)
    ensures r.ok(radix as int)
@fn RadixInfo::for_radix -> r
    requires radix_ok(radix as int)
    ensures r.ok(radix as int)
@start
proof { lemma_radix_p2(radix); lemma_pow0(radix as int); let l = lg(radix as int); assert($BITSint / (l as int) >= 1) by (nonlinear_arith) requires 1 <= l <= 5; }
@loop 0
    invariant radix_ok(radix as int), range_per_word == pow(radix as int, digits_per_word as nat), digits_per_word <= $BITS, range_per_word >= 1, range_per_word >= p2(digits_per_word as nat)
    ensures range_per_word * radix >= B()
    decreases $MAX - range_per_word
@loopstart 0
proof {
    let (w, d, r) = (range_per_word as int, digits_per_word as nat, radix as int);
    reveal(pow); assert(pow(r, d + 1) == r * pow(r, d)); assert(r * w == w * r) by (nonlinear_arith);
    assert(w * r >= 2 * w) by (nonlinear_arith) requires r >= 2, w >= 1; assert(w * r > w);
    lemma_p2_wb(); if d + 1 > $BITS { lemma_p2_mono($BITS, d + 1); }
}
@loopafter 0
proof { crate::div::lemma_norm_word(range_per_word); lemma_pow0(radix as int); assert(digits_per_word == 0 ==> range_per_word == 1); assert(range_per_word == 1 ==> range_per_word * radix == radix) by (nonlinear_arith); assert(digits_per_word >= 1); }
@fn generate_radix_info_table -> t
    ensures forall|r: int| 2 <= r <= 36 ==> (#[trigger] t[r]).ok(r)
@loop 0
    invariant 2 <= radix <= 37, forall|r: int| 2 <= r < radix ==> (#[trigger] table[r]).ok(r)
    decreases 37 - radix
