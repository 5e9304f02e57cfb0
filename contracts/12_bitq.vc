@file vp_bits.rs
@mod
pub proof fn lemma_one_bit(t: u32, j: nat) requires t < $BITS ensures bit((1$W << t) as int, j) == (j == t as nat)
{
    let x = 1$W << t;
    if j < $BITS { let k = j as u32; lemma_wbit(x, k); assert((((1$W << t) >> k) & 1 == 1) == (k == t)) by (bit_vector) requires k < $BITS, t < $BITS; }
    else { lemma_p2_wb(); lemma_p2_mono($BITS, j); lemma_bit_small(x as nat, j); }
}
pub open spec fn is_set(r: int, v: int, n: nat) -> bool { forall|m: nat| #[trigger] bit(r, m) == (m == n || bit(v, m)) }
pub open spec fn is_clear(r: int, v: int, n: nat) -> bool { forall|m: nat| #[trigger] bit(r, m) == (m != n && bit(v, m)) }
pub proof fn lemma_set(r: Seq<Word>, v: Seq<Word>, n: nat)
    requires forall|i: int| i >= 0 ==> #[trigger] wat(r, i) == (if i == n / $BITS { wat(v, i) | (1$W << ((n % $BITS) as u32)) } else { wat(v, i) })
    ensures is_set(val(r) as int, val(v) as int, n)
{
    let t = (n % $BITS) as u32;
    assert forall|m: nat| #[trigger] bit(val(r) as int, m) == (m == n || bit(val(v) as int, m)) by {
        let i = (m / $BITS) as int; lemma_bit_wat(r, m); lemma_bit_wat(v, m);
        assert(wat(r, i) == wat(r, i));
        lemma_wops(wat(v, i), 1$W << t, m % $BITS); lemma_one_bit(t, m % $BITS);
    }
}
pub proof fn lemma_clear(r: Seq<Word>, v: Seq<Word>, n: nat)
    requires forall|i: int| i >= 0 ==> #[trigger] wat(r, i) == (if i == n / $BITS { wat(v, i) & !(1$W << ((n % $BITS) as u32)) } else { wat(v, i) })
    ensures is_clear(val(r) as int, val(v) as int, n)
{
    let t = (n % $BITS) as u32;
    assert forall|m: nat| #[trigger] bit(val(r) as int, m) == (m != n && bit(val(v) as int, m)) by {
        let i = (m / $BITS) as int; lemma_bit_wat(r, m); lemma_bit_wat(v, m);
        assert(wat(r, i) == wat(r, i));
        lemma_wops(wat(v, i), 1$W << t, m % $BITS); lemma_one_bit(t, m % $BITS);
    }
}
/// A usize shift distance below the word size is the same shift.
pub proof fn lemma_one_shl_usize(n: usize) requires n < $BITS ensures (1$W << n) == (1$W << (n as u32)) { }
/// bit length
pub open spec fn is_bit_len(v: nat, r: nat) -> bool { v < p2(r) && (r > 0 ==> v >= p2((r - 1) as nat)) && (r == 0 ==> v == 0) }
pub open spec fn lzs(x: Word) -> int { vstd::std_specs::bits::$W_leading_zeros(x) as int }
pub proof fn lemma_lz(x: Word) ensures lzs(x) <= $BITS, x != 0 ==> lzs(x) < $BITS, is_bit_len(x as nat, ($BITS - lzs(x)) as nat)
{
    lemma_p2_wb(); assert(p2(0) == 1);
    vstd::std_specs::bits::axiom_$W_leading_zeros(x);
    let l = lzs(x) as u32;
    if x != 0 {
        let k = sub($BITSu32, l);
        if l > 0 { lemma_shr_div(x, k); assert(x >> k == 0); lemma_p2_pos(k as nat); lemma_fundamental_div_mod(x as int, p2(k as nat) as int); lemma_mod_bound(x as int, p2(k as nat) as int); let z = p2(k as nat) as int; assert(z * 0 == 0) by (nonlinear_arith); }
        let k1 = ($BITS - 1 - l) as u32;
        lemma_shr_div(x, k1); lemma_p2_pos(k1 as nat);
        assert((x >> k1) & 1 != 0);
        let y = x >> k1; assert(y & 1 != 0 ==> y >= 1) by (bit_vector);
        lemma_fundamental_div_mod(x as int, p2(k1 as nat) as int); lemma_mod_bound(x as int, p2(k1 as nat) as int);
        let (q, d) = (x as int / p2(k1 as nat) as int, p2(k1 as nat) as int);
        assert(d * q >= d) by (nonlinear_arith) requires q >= 1, d >= 1;
    }
}
@file math.rs
@fn bit_len -> r
@mono T=Word as bit_len_gw
    ensures crate::vp_bits::is_bit_len(x as nat, r as nat), r <= $BITS
@start
proof { crate::vp_bits::lemma_lz(x); }
@file bits.rs
@fn UBig::bit -> r
@rewrite `word & 1 << n` => `word.w() & 1 << n`
    requires self.wf()
    ensures r == bit(self.v() as int, n as nat)
@start
proof {
    lemma_uws(self); lemma_bit_wat(uws(self), n as nat); let (k, t) = ((n / $BITS) as int, n % $BITS);
    lemma_wbit(wat(uws(self), k), t as u32); lemma_p2_pos(t as nat); lemma_bit_small(0, t as nat); lemma_one_shl_usize(t);
}
@fn UBig::set_bit
    requires old(self).wf()
    ensures final(self).wf(), is_set(final(self).v() as int, old(self).v() as int, n as nat)
@start
proof {
    lemma_uws(self);
    if let Small(w) = self.rp() { if n < $BITS { lemma_one_shl_usize(n); lemma_set(seq![w | (1$W << (n as u32))], uws(self), n as nat); lemma_val_one(w | (1$W << (n as u32))); } }
}
@fn UBig::clear_bit
    requires old(self).wf()
    ensures final(self).wf(), is_clear(final(self).v() as int, old(self).v() as int, n as nat)
@start
proof {
    lemma_uws(self);
    if let Small(w) = self.rp() {
        if n < $BITS { lemma_one_shl_usize(n); lemma_clear(seq![w & !(1$W << (n as u32))], uws(self), n as nat); lemma_val_one(w & !(1$W << (n as u32))); }
        else { lemma_w0s(); assert forall|i: int| i >= 0 implies #[trigger] wat(seq![w], i) == (if i == n / $BITS { wat(seq![w], i) & !(1$W << ((n % $BITS) as u32)) } else { wat(seq![w], i) }) by { lemma_w0(!!(1$W << ((n % $BITS) as u32))); let z = 1$W << ((n % $BITS) as u32); assert(0 & !z == 0) by (bit_vector); } lemma_clear(seq![w], uws(self), n as nat); }
    }
}
@fn UBig::with_bit_word_slow -> r
@rewrite `buffer . extend ( ( 1 .. idx ) . map ( | _ | 0 ) )` => `crate::buffer::extend_zeros_range(&mut buffer, 1, idx)`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires n >= $BITS
    ensures r.wf(), is_set(r.v() as int, word as int, n as nat)
@before `buffer . into ( )`
proof { lemma_val_one(word); lemma_one_shl_usize(n % $BITS);
    assert forall|i: int| i >= 0 implies #[trigger] wat(buffer@, i) == (if i == n as nat / $BITS { wat(seq![word], i) | (1$W << ((n as nat % $BITS) as u32)) } else { wat(seq![word], i) }) by { lemma_w0(1$W << ((n as nat % $BITS) as u32)); }
    lemma_set(buffer@, seq![word], n as nat); }
@fn UBig::with_bit_large -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf()
    ensures r.wf(), is_set(r.v() as int, val(buffer@) as int, n as nat)
@start
let ghost b0 = buffer@;
@before `buffer . into ( )`
proof { lemma_one_shl_usize(n % $BITS);
    assert forall|i: int| i >= 0 implies #[trigger] wat(buffer@, i) == (if i == n as nat / $BITS { wat(b0, i) | (1$W << ((n as nat % $BITS) as u32)) } else { wat(b0, i) }) by { lemma_w0(1$W << ((n as nat % $BITS) as u32)); }
    lemma_set(buffer@, b0, n as nat); }
@fn UBig::without_bit_large -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf()
    ensures r.wf(), is_clear(r.v() as int, val(buffer@) as int, n as nat)
@start
let ghost b0 = buffer@;
@before `buffer . into ( )`
proof { lemma_one_shl_usize(n % $BITS);
    assert forall|i: int| i >= 0 implies #[trigger] wat(buffer@, i) == (if i == n as nat / $BITS { wat(b0, i) & !(1$W << ((n as nat % $BITS) as u32)) } else { wat(b0, i) }) by { let z = 1$W << ((n as nat % $BITS) as u32); assert(0 & !z == 0) by (bit_vector); }
    lemma_clear(buffer@, b0, n as nat); }
@fn UBig::bit_len -> r
@rewrite `math :: bit_len ( * word )` => `math::bit_len_gw(*word)`
    requires self.wf()
    ensures is_bit_len(self.v(), r as nat)
@start
proof { if let Large(b) = self.rp() { lemma_lz(b@.last()); lemma_words_bit_len(b@); } }
@mod
pub proof fn lemma_words_bit_len(s: Seq<Word>) requires s.len() > 0, s.last() != 0 ensures is_bit_len(val(s), (s.len() * $BITS - lzs(s.last())) as nat)
{
    let x = s.last(); lemma_lz(x);
    let k = (s.len() - 1) as nat; let l = ($BITS - lzs(x)) as nat;
    lemma_pw_p2(k); lemma_p2_add(k * $BITS, l); lemma_p2_add(k * $BITS, (l - 1) as nat);
    lemma_val_bound(s.drop_last()); lemma_pw_pos(k);
    let (h, p, hi, lo, u) = (x as int, pw(k) as int, p2(l) as int, p2((l - 1) as nat) as int, val(s.drop_last()) as int);
    assert(u + h * p < p * hi) by (nonlinear_arith) requires 0 <= u < p, h + 1 <= hi;
    assert(u + h * p >= p * lo) by (nonlinear_arith) requires 0 <= u, h >= lo, p > 0;
}
@file buffer.rs
@mod
/// buffer.extend((lo..hi).map(|_| 0)): hi - lo zero words appended (documented behaviour of Range, map and Buffer::extend).
#[verifier::external_body]
pub(crate) fn extend_zeros_range(buffer: &mut Buffer, lo: usize, hi: usize) requires old(buffer).wf(), lo <= hi, old(buffer)@.len() + (hi - lo) <= old(buffer).cap()
    ensures final(buffer).wf(), final(buffer).cap() == old(buffer).cap(), final(buffer)@ == old(buffer)@ + Seq::new((hi - lo) as nat, |i: int| 0 as Word)
{ buffer.extend((lo..hi).map(|_| 0)) }
@file vp_bits.rs
@mod
/// the number of trailing zero bits: the lowest set bit
pub open spec fn is_tz(v: int, k: nat) -> bool { bit(v, k) && forall|j: nat| j < k ==> !#[trigger] bit(v, j) }
pub proof fn lemma_tz(x: Word) requires x != 0 ensures 0 <= tzs(x) < $BITS, is_tz(x as int, tzs(x) as nat)
{
    vstd::std_specs::bits::axiom_$W_trailing_zeros(x);
    let t = tzs(x) as u32;
    assert((x >> t) & 1 != 0);
    assert((x >> t) & 1 != 0 ==> (x >> t) & 1 == 1) by (bit_vector);
    lemma_wbit(x, t);
    assert forall|j: nat| j < t implies !#[trigger] bit(x as int, j) by {
        let k = j as u32; lemma_wbit(x, k);
        let s = sub($BITSu32, t);
        assert(x << s == 0);
        assert((x >> k) & 1 == 0) by (bit_vector) requires x << s == 0, s == sub($BITSu32, t), k < t, t < $BITS;
    }
}
pub open spec fn tzs(x: Word) -> int { vstd::std_specs::bits::$W_trailing_zeros(x) as int }
pub proof fn lemma_words_tz(s: Seq<Word>, i: int) requires 0 <= i < s.len(), s[i] != 0, forall|j: int| 0 <= j < i ==> s[j] == 0
    ensures is_tz(val(s) as int, (i * $BITS + tzs(s[i])) as nat)
{
    lemma_tz(s[i]); let n = (i * $BITS + tzs(s[i])) as nat;
    lemma_bit_wat(s, n); assert(n / $BITS == i && n % $BITS == tzs(s[i]));
    assert forall|j: nat| j < n implies !#[trigger] bit(val(s) as int, j) by {
        lemma_bit_wat(s, j); let k = (j / $BITS) as int; assert(k <= i); lemma_p2_pos(j % $BITS); lemma_bit_small(0, j % $BITS);
    }
}
pub open spec fn is_p2(v: nat) -> bool { exists|k: nat| #[trigger] p2(k) == v }
/// the smallest power of two that is at least v
pub open spec fn is_np2(p: nat, v: nat) -> bool { is_p2(p) && v <= p && forall|k: nat| #[trigger] p2(k) >= v ==> p2(k) >= p }
pub proof fn lemma_is_p2_words(s: Seq<Word>) requires s.len() >= 1, s.last() != 0 ensures is_p2(val(s)) == ((forall|i: int| 0 <= i < s.len() - 1 ==> s[i] == 0) && is_p2(s.last() as nat))
{
    let k = (s.len() - 1) as nat; let lo = s.drop_last(); let h = s.last() as nat;
    lemma_pw_p2(k); lemma_val_bound(lo); lemma_pw_pos(k); lemma_p2_wb();
    if (forall|i: int| 0 <= i < s.len() - 1 ==> s[i] == 0) && is_p2(h) {
        lemma_val_zero(lo); let t = choose|t: nat| #[trigger] p2(t) == h; lemma_p2_add(k * $BITS, t);
        assert(h * pw(k) == pw(k) * h) by (nonlinear_arith);
        assert(p2(k * $BITS + t) == val(s));
    }
    if is_p2(val(s)) {
        let n = choose|n: nat| #[trigger] p2(n) == val(s);
        lemma_val_top(s);
        if n < k * $BITS { lemma_p2_add(n, (k * $BITS - n) as nat); lemma_p2_mono1(n, k * $BITS); }
        let t = (n - k * $BITS) as nat; lemma_p2_add(k * $BITS, t);
        let (a, b, p, u) = (p2(t) as int, h as int, pw(k) as int, val(lo) as int);
        assert(p * a == u + b * p);
        assert(a == b && u == 0) by (nonlinear_arith) requires p * a == u + b * p, 0 <= u < p, a >= 0, b >= 0;
        lemma_val_is_zero(lo);
        assert forall|i: int| 0 <= i < s.len() - 1 implies s[i] == 0 by { assert(lo[i] == 0); }
    }
}
pub proof fn lemma_p2_mono1(a: nat, b: nat) requires a < b ensures p2(a) < p2(b) { lemma_p2_add(a, (b - a) as nat); lemma_p2_pos(a); lemma_p2_ge2((b - a) as nat); let (x, y) = (p2(a) as int, p2((b - a) as nat) as int); assert(x * y >= 2 * x) by (nonlinear_arith) requires y >= 2, x >= 0; }
pub proof fn lemma_p2_ge2(a: nat) requires a > 0 ensures p2(a) >= 2 { lemma_p2_pos((a - 1) as nat); reveal_with_fuel(p2, 2); }
/// scaling by B^k and rounding up keeps "next power of two" (h is the top word, or the top word plus one when a lower word is nonzero)
pub proof fn lemma_np2_words(s: Seq<Word>, c: nat, p: nat)
    requires s.len() >= 1, s.last() != 0, c == (if forall|i: int| 0 <= i < s.len() - 1 ==> s[i] == 0 { 0nat } else { 1nat }), is_np2(p, s.last() as nat + c)
    ensures is_np2(p * pw((s.len() - 1) as nat), val(s))
{
    let k = (s.len() - 1) as nat; let lo = s.drop_last(); let h = s.last() as nat;
    lemma_pw_p2(k); lemma_val_bound(lo); lemma_pw_pos(k);
    let t = choose|t: nat| #[trigger] p2(t) == p; lemma_p2_add(k * $BITS, t);
    let (P, p_, h_, u) = (pw(k) as int, p as int, h as int, val(lo) as int);
    assert(p_ * P == P * p_) by (nonlinear_arith);
    assert(p2(k * $BITS + t) == p * pw(k));
    if c == 0 { lemma_val_zero(lo); assert(h_ * P <= p_ * P) by (nonlinear_arith) requires h_ <= p_, P > 0; }
    else {
        assert((h_ + 1) * P == h_ * P + P) by (nonlinear_arith);
        assert((h_ + 1) * P <= p_ * P) by (nonlinear_arith) requires h_ + 1 <= p_, P > 0;
        if val(lo) == 0 { lemma_val_is_zero(lo); assert forall|i: int| 0 <= i < s.len() - 1 implies s[i] == 0 by { assert(lo[i] == 0); } }
    }
    lemma_val_top(s);
    assert forall|n: nat| #[trigger] p2(n) >= val(s) implies p2(n) >= p * pw(k) by {
        if n < k * $BITS { lemma_p2_mono1(n, k * $BITS); assert(h_ * P >= P) by (nonlinear_arith) requires h_ >= 1, P > 0; }
        else {
            let t = (n - k * $BITS) as nat; lemma_p2_add(k * $BITS, t); let a = p2(t) as int;
            assert(P * a >= u + h_ * P);
            if c == 0 { assert(a >= h_) by (nonlinear_arith) requires P * a >= u + h_ * P, u >= 0, P > 0; }
            else { assert(u > 0); assert(a >= h_ + 1) by (nonlinear_arith) requires P * a >= u + h_ * P, u > 0, P > 0; }
            assert(P * a >= P * p_) by (nonlinear_arith) requires a >= p_, P > 0;
        }
    }
}
pub proof fn lemma_np2_big(v: nat) requires v > p2(($BITS - 1) as nat), v <= B() ensures is_np2(B(), v)
{
    lemma_p2_wb(); assert(is_p2(B()));
    assert forall|n: nat| #[trigger] p2(n) >= v implies p2(n) >= B() by { if n < $BITS { lemma_p2_mono(n, ($BITS - 1) as nat); } else { lemma_p2_mono($BITS, n); } }
}
@file vp_std.rs
@mod
use crate::vp_bits::{is_p2, is_np2, p2};
pub assume_specification [Word::is_power_of_two] (x: Word) -> (r: bool) ensures r == is_p2(x as nat);
/// Word::checked_next_power_of_two (documented behaviour of core): the smallest power of two at least x, None if it does not fit.
pub assume_specification [Word::checked_next_power_of_two] (x: Word) -> (r: Option<Word>) ensures match r { Some(p) => is_np2(p as nat, x as nat), None => x as nat > p2(($BITS - 1) as nat) };
/// iter_mut().skip_while(|x| **x == 0): the words from the first nonzero one on.
pub fn skip_zeros_mut(s: &mut [Word]) -> (r: &mut [Word])
    ensures r@.len() <= old(s)@.len(), r@ == old(s)@.skip(old(s)@.len() - r@.len()), r@.len() > 0 ==> r@[0] != 0,
        forall|i: int| 0 <= i < old(s)@.len() - r@.len() ==> old(s)@[i] == 0,
        final(r)@.len() == r@.len() ==> final(s)@ == old(s)@.take(old(s)@.len() - r@.len()) + final(r)@
{
    let ghost s0 = s@;
    let ghost sf = final(s)@;
    let mut k: usize = 0;
    while k < s.len() && s[k] == 0 invariant k <= s@.len(), s@ == s0, forall|i: int| 0 <= i < k ==> s0[i] == 0, sf == final(s)@ decreases s.len() - k { k += 1; }
    let r = &mut s[k..];
    proof { assert(s0.skip(k as int) =~= r@); assert(final(r)@.len() == r@.len() ==> sf =~= s0.take(k as int) + final(r)@); }
    r
}
@file bits.rs
@fn UBig::trailing_zeros_large -> r
@rewrite `words . iter ( ) . enumerate ( )` => `(0..words.len()).zip(words.iter())`
@rewrite `assert ! ( * words . last ( ) . unwrap ( ) != 0 )` => `assert!(*words.last().unwrap() != 0)`
    requires words@.len() > 0, words@.last() != 0, words@.len() <= MAXLEN()
    ensures is_tz(val(words@) as int, r as nat)
@attr #[verifier::loop_isolation(false)]
@loop 0 it
    invariant it.wf(), it.seq().len() == words@.len(), forall|j: int| 0 <= j < words@.len() ==> it.seq()[j].0 == j && *it.seq()[j].1 == words@[j],
        forall|j: int| 0 <= j < it.index() ==> words@[j] == 0,
@before `return idx`
proof { lemma_words_tz(words@, idx as int); lemma_tz(*word); }
@fn UBig::trailing_zeros -> r
    requires self.wf()
    ensures match r { Some(k) => is_tz(self.v() as int, k as nat), None => self.v() == 0 }
@start
proof { if let Small(w) = self.rp() { if w != 0 { lemma_tz(w); } } }
@fn IBig::trailing_zeros -> r
    requires self.wf()
    ensures match r { Some(k) => is_tz(self.v(), k as nat), None => self.v() == 0 }
@start
proof { let m = self.mag().v() as int; assert forall|k: nat| #[trigger] is_tz(m, k) implies is_tz(-m, k) by { lemma_tz_neg(m, k); } }
@mod
proof fn lemma_tz_neg(v: int, k: nat) requires v >= 0, is_tz(v, k) ensures is_tz(-v, k)
{
    assert forall|j: nat| j <= k implies #[trigger] bit(-v, j) == bit(v, j) by {
        lemma_p2_pos(j); let d = p2(j) as int;
        lemma_tz_mod(v, j);
        lemma_neg_fdiv(v, d);
        assert(v % d == 0);
        let q = v / d; assert((-q) % 2 == q % 2);
    }
}
/// no bit below j set: divisible by 2^j
proof fn lemma_tz_mod(v: int, j: nat) requires v >= 0, forall|i: nat| i < j ==> !bit(v, i) ensures v % (p2(j) as int) == 0 decreases j
{
    if j == 0 { assert(p2(0) == 1); assert(v % 1 == 0); }
    else {
        let i = (j - 1) as nat; lemma_tz_mod(v, i); lemma_p2_pos(i);
        let d = p2(i) as int; let q = v / d;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, d); assert(!bit(v, i)); assert(q % 2 == 0);
        assert(p2(j) == 2 * p2(i));
        let h = q / 2;
        assert(v == (2 * d) * h + 0) by (nonlinear_arith) requires v == d * q + 0, q == 2 * h;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, 2 * d, h, 0);
    }
}
@fn UBig::is_power_of_two -> r
    requires self.wf()
    ensures r == is_p2(self.v())
@fn UBig::is_power_of_two_large -> r
@rewrite `words [ .. words . len ( ) - 1 ] . iter ( ) . all ( | x | * x == 0 )` => `crate::vp_std::all_zero(&words[..words.len() - 1])`
    requires words@.len() > 0, words@.last() != 0
    ensures r == is_p2(val(words@))
@start
proof { lemma_is_p2_words(words@); let lo = words@.subrange(0, words@.len() - 1); assert forall|i: int| 0 <= i < words@.len() - 1 implies #[trigger] words@[i] == lo[i] by {} }
@fn NextPowerOfTwo for &UBig::next_power_of_two -> r
@pre self.wf()
    ensures r.wf(), is_np2(r.v(), self.v())
@fn NextPowerOfTwo for UBig::next_power_of_two -> r
@pre self.wf()
    ensures r.wf(), is_np2(r.v(), self.v())
@start
proof { if let Small(w) = self.rp() { if w as nat > p2(($BITS - 1) as nat) { lemma_np2_big(w as nat); } } }
@fn UBig::next_power_of_two_large -> r
@rewrite `let mut iter = buffer [ .. n - 1 ] . iter_mut ( ) . skip_while ( | x | * * x == 0 )` => `let vp_z = crate::vp_std::skip_zeros_mut(&mut buffer[..n - 1]); let ghost zf = final(vp_z)@; let ghost z0 = vp_z@; let mut iter = vp_z.iter_mut(); let ghost q = vstd::std_specs::iter::IteratorSpec::remaining(&iter)`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf(), buffer@.len() >= 2, buffer@.last() != 0
    ensures r.wf(), is_np2(r.v(), val(buffer@))
@attr #[verifier::loop_isolation(false)]
@rewrite `. and_then ( | x | x . checked_next_power_of_two ( ) )` => `.and_then(|x: Word| -> (vp_o: Option<Word>) ensures (match vp_o { Some(p) => is_np2(p as nat, x as nat), None => x as nat > p2(($BITS - 1) as nat) }) { x.checked_next_power_of_two() })`
@start
let ghost b0 = buffer@;
@loop 0 it
    invariant it.wf(), it.seq() == q1, forall|j: int| 0 <= j < it.index() ==> *final(it.seq()[j]) == 0,
@before `for x in iter`
let ghost q1 = vstd::std_specs::iter::IteratorSpec::remaining(&iter);
@loopafter 0
proof {
    assert(*final(q[0]) == 0);
    assert(forall|j: int| 0 <= j < q1.len() ==> q1[j] == q[j + 1]);
    assert forall|j: int| 0 <= j < zf.len() implies zf[j] == 0 by { assert(*final(q[j]) == zf[j]); if j > 0 { assert(q[j] == q1[j - 1]); } }
    assert(b0[n - 1 - z0.len()] == z0[0]);
}
@before `let last = buffer`
proof {
    assert(buffer@.len() == n);
    if carry == 0 { assert(z0.len() == 0); assert forall|i: int| 0 <= i < n - 1 implies b0[i] == 0 by { assert(b0.subrange(0, n - 1)[i] == 0); } } else { assert(z0.len() > 0); assert(b0[n - 1 - z0.len()] == z0[0]); }
    assert(forall|i: int| 0 <= i < n - 1 ==> buffer@[i] == 0);
    assert(buffer@[n - 1] == b0[n - 1]);
    assert((carry == 0) == (forall|i: int| 0 <= i < n - 1 ==> b0[i] == 0));
}
let ghost b1 = buffer@;
@before `buffer . into ( )`
proof {
    let c = carry as nat; let h = b0.last() as nat;
    if buffer@.len() == n { lemma_np2_words(b0, c, buffer@.last() as nat); lemma_val_zero(buffer@.drop_last()); }
    else {
        lemma_p2_wb(); lemma_p2_mono1(($BITS - 1) as nat, $BITS); lemma_np2_big(h + c); lemma_np2_words(b0, c, B());
        lemma_val_zero(buffer@.drop_last()); let q = pw(n as nat) as int; assert(1 * q == q) by (nonlinear_arith);
        assert(B() * pw((n - 1) as nat) == pw(n as nat));
    }
}
