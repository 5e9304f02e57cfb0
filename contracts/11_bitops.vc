@file vp_bits.rs
@mod
/// The word at position i of a word string, 0 beyond its end.
pub open spec fn wat(s: Seq<Word>, i: int) -> Word { if 0 <= i < s.len() { s[i] } else { 0 } }
pub proof fn lemma_bit_wat(s: Seq<Word>, n: nat) ensures bit(val(s) as int, n) == bit(wat(s, (n / $BITS) as int) as int, n % $BITS)
{
    lemma_bit_words(s, n); lemma_p2_pos(n % $BITS); lemma_bit_small(0, n % $BITS);
}
/// bitwise relations between integers in two's complement
pub open spec fn is_and(r: int, a: int, b: int) -> bool { forall|n: nat| #[trigger] bit(r, n) == (bit(a, n) && bit(b, n)) }
pub open spec fn is_or(r: int, a: int, b: int) -> bool { forall|n: nat| #[trigger] bit(r, n) == (bit(a, n) || bit(b, n)) }
pub open spec fn is_xor(r: int, a: int, b: int) -> bool { forall|n: nat| #[trigger] bit(r, n) == (bit(a, n) != bit(b, n)) }
pub open spec fn is_andnot(r: int, a: int, b: int) -> bool { forall|n: nat| #[trigger] bit(r, n) == (bit(a, n) && !bit(b, n)) }
pub open spec fn is_not(r: int, a: int) -> bool { forall|n: nat| #[trigger] bit(r, n) == !bit(a, n) }
pub proof fn lemma_words_and(r: Seq<Word>, a: Seq<Word>, b: Seq<Word>) requires forall|i: int| i >= 0 ==> #[trigger] wat(r, i) == wat(a, i) & wat(b, i) ensures is_and(val(r) as int, val(a) as int, val(b) as int)
{
    assert forall|n: nat| #[trigger] bit(val(r) as int, n) == (bit(val(a) as int, n) && bit(val(b) as int, n)) by {
        let k = (n / $BITS) as int; lemma_bit_wat(r, n); lemma_bit_wat(a, n); lemma_bit_wat(b, n); lemma_wops(wat(a, k), wat(b, k), n % $BITS);
    }
}
pub proof fn lemma_words_or(r: Seq<Word>, a: Seq<Word>, b: Seq<Word>) requires forall|i: int| i >= 0 ==> #[trigger] wat(r, i) == wat(a, i) | wat(b, i) ensures is_or(val(r) as int, val(a) as int, val(b) as int)
{
    assert forall|n: nat| #[trigger] bit(val(r) as int, n) == (bit(val(a) as int, n) || bit(val(b) as int, n)) by {
        let k = (n / $BITS) as int; lemma_bit_wat(r, n); lemma_bit_wat(a, n); lemma_bit_wat(b, n); lemma_wops(wat(a, k), wat(b, k), n % $BITS);
    }
}
pub proof fn lemma_words_xor(r: Seq<Word>, a: Seq<Word>, b: Seq<Word>) requires forall|i: int| i >= 0 ==> #[trigger] wat(r, i) == wat(a, i) ^ wat(b, i) ensures is_xor(val(r) as int, val(a) as int, val(b) as int)
{
    assert forall|n: nat| #[trigger] bit(val(r) as int, n) == (bit(val(a) as int, n) != bit(val(b) as int, n)) by {
        let k = (n / $BITS) as int; lemma_bit_wat(r, n); lemma_bit_wat(a, n); lemma_bit_wat(b, n); lemma_wops(wat(a, k), wat(b, k), n % $BITS);
    }
}
pub proof fn lemma_words_andnot(r: Seq<Word>, a: Seq<Word>, b: Seq<Word>) requires forall|i: int| i >= 0 ==> #[trigger] wat(r, i) == wat(a, i) & !wat(b, i) ensures is_andnot(val(r) as int, val(a) as int, val(b) as int)
{
    assert forall|n: nat| #[trigger] bit(val(r) as int, n) == (bit(val(a) as int, n) && !bit(val(b) as int, n)) by {
        let k = (n / $BITS) as int; lemma_bit_wat(r, n); lemma_bit_wat(a, n); lemma_bit_wat(b, n); lemma_wops(wat(a, k), wat(b, k), n % $BITS);
    }
}
pub proof fn lemma_w0(x: Word) ensures x & 0 == 0, 0 & x == 0, x | 0 == x, 0 | x == x, x ^ 0 == x, 0 ^ x == x, x & !0 == x, 0 & !x == 0
{
    assert(x & 0 == 0) by (bit_vector); assert(0 & x == 0) by (bit_vector); assert(x | 0 == x) by (bit_vector); assert(0 | x == x) by (bit_vector);
    assert(x ^ 0 == x) by (bit_vector); assert(0 ^ x == x) by (bit_vector); assert(x & !0 == x) by (bit_vector); assert(0 & !x == 0) by (bit_vector);
}
/// word operators with a missing word
pub proof fn lemma_w0s() ensures forall|x: Word| #[trigger] (x & 0) == 0, forall|x: Word| #[trigger] (0 & x) == 0, forall|x: Word| #[trigger] (x | 0) == x, forall|x: Word| #[trigger] (0 | x) == x,
    forall|x: Word| #[trigger] (x ^ 0) == x, forall|x: Word| #[trigger] (0 ^ x) == x, forall|x: Word| #[trigger] (x & !0) == x, forall|x: Word| #[trigger] (0 & !x) == 0
{
    assert forall|x: Word| #[trigger] (x & 0) == 0 by { lemma_w0(x); }
    assert forall|x: Word| #[trigger] (0 & x) == 0 by { lemma_w0(x); }
    assert forall|x: Word| #[trigger] (x | 0) == x by { lemma_w0(x); }
    assert forall|x: Word| #[trigger] (0 | x) == x by { lemma_w0(x); }
    assert forall|x: Word| #[trigger] (x ^ 0) == x by { lemma_w0(x); }
    assert forall|x: Word| #[trigger] (0 ^ x) == x by { lemma_w0(x); }
    assert forall|x: Word| #[trigger] (x & !0) == x by { lemma_w0(x); }
    assert forall|x: Word| #[trigger] (0 & !x) == 0 by { lemma_w0(x); }
}
@file vp_std.rs
@mod
/// Word operators on references (`&Word & Word`) are outside the verifier's dialect: the operands are read first.
/// zip stops at the shorter operand: the first min(n, len) words, the others untouched.
pub fn head_mut(s: &mut [Word], n: usize) -> (r: &mut [Word])
    ensures r@.len() == (if n <= old(s)@.len() { n as int } else { old(s)@.len() as int }), r@ == old(s)@.take(r@.len() as int),
        final(r)@.len() == r@.len() ==> final(s)@ == final(r)@ + old(s)@.skip(r@.len() as int)
{
    let m = if n <= s.len() { n } else { s.len() };
    let ghost s0 = s@;
    let ghost sf = final(s)@;
    let r = &mut s[..m];
    proof { assert(s0.take(m as int) =~= r@); assert(final(r)@.len() == r@.len() ==> sf =~= final(r)@ + s0.skip(m as int)); }
    r
}
pub trait AsW { spec fn wv(self) -> Word where Self: Sized; fn w(self) -> (r: Word) where Self: Sized ensures r == self.wv(); }
impl AsW for Word { open spec fn wv(self) -> Word { self } fn w(self) -> (r: Word) { self } }
impl<'a> AsW for &'a Word { open spec fn wv(self) -> Word { *self } fn w(self) -> (r: Word) { *self } }
@file bits.rs
@mod
/// The words of a number (one word when inline).
pub open spec fn uws(u: &UBig) -> Seq<Word> { match u.rp() { Small(w) => seq![w], Large(b) => b@ } }
proof fn lemma_uws(u: &UBig) ensures val(uws(u)) == u.v() { if let Small(w) = u.rp() { lemma_val_one(w); } }
@fn UBig::bitand_large -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf()
    ensures r.wf(), is_and(r.v() as int, val(buffer@) as int, val(rhs@) as int)
@attr #[verifier::loop_isolation(false)]
@start
let ghost b0 = buffer@;
let ghost n0 = if b0.len() <= rhs@.len() { b0.len() as int } else { rhs@.len() as int };
let ghost b1;
@loop 0 it
    invariant it.wf(), it.seq().len() == n0,
       forall|j: int| 0 <= j < n0 ==> *it.seq()[j].0 == b1[j] && *it.seq()[j].1 == rhs[j],
       forall|j: int| 0 <= j < it.index() ==> *final(it.seq()[j].0) == b1[j] & rhs[j],
@before `for ( x , y ) in`
proof { b1 = buffer@; assert(b1 =~= b0.take(n0)); }
@before `buffer . into ( )`
proof { lemma_w0s(); assert(forall|i: int| 0 <= i < n0 ==> buffer@[i] == b1[i] & rhs@[i]); lemma_words_and(buffer@, b0, rhs@); }
@mod
proof fn lemma_u2(a: &UBig, b: &UBig) requires a.wf(), b.wf() ensures ({
    let (x, y) = (uws(a)[0], uws(b)[0]);
    let (u, v) = (a.v() as int, b.v() as int);
    &&& (a.rp() is Small || b.rp() is Small ==> is_and((x & y) as int, u, v))
    &&& (a.rp() is Small && b.rp() is Small ==> is_or((x | y) as int, u, v) && is_xor((x ^ y) as int, u, v))
    &&& (a.rp() is Small ==> is_andnot((x & !y) as int, u, v)) })
{
    let (x, y) = (uws(a)[0], uws(b)[0]);
    lemma_w0s(); lemma_uws(a); lemma_uws(b);
    lemma_val_one(x & y); lemma_val_one(x | y); lemma_val_one(x ^ y); lemma_val_one(x & !y);
    let s = seq![x & y]; assert(forall|i: int| i > 0 ==> wat(s, i) == 0);
    if a.rp() is Small || b.rp() is Small { lemma_words_and(seq![x & y], uws(a), uws(b)); }
    if a.rp() is Small && b.rp() is Small { lemma_words_or(seq![x | y], uws(a), uws(b)); lemma_words_xor(seq![x ^ y], uws(a), uws(b)); }
    if a.rp() is Small { lemma_words_andnot(seq![x & !y], uws(a), uws(b)); }
}
@for $F $P $O $LEM in or,is_or,|,lemma_words_or xor,is_xor,^,lemma_words_xor
@fn UBig::bit$F_large_word -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf(), buffer@.len() >= 2
    ensures r.wf(), $P(r.v() as int, val(buffer@) as int, rhs as int)
@start
let ghost b0 = buffer@;
@before `buffer . into ( )`
proof { lemma_w0s(); lemma_val_one(rhs); $LEM(buffer@, b0, seq![rhs]); }
@fn UBig::bit$F_large -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
@rewrite `buffer . iter_mut ( ) . zip ( rhs . iter ( ) )` => `crate::vp_std::head_mut(&mut buffer, rhs.len()).iter_mut().zip(rhs.iter())`
@rewrite `buffer . extend ( & rhs [ buffer . len ( ) .. ] )` => `{ let vp_n = buffer.len(); crate::buffer::buffer_extend_ref(&mut buffer, &rhs[vp_n..]) }`
    requires buffer.wf(), rhs@.len() <= MAXLEN() + 4
    ensures r.wf(), $P(r.v() as int, val(buffer@) as int, val(rhs@) as int)
@attr #[verifier::loop_isolation(false)]
@start
let ghost b0 = buffer@;
let ghost n0 = if b0.len() <= rhs@.len() { b0.len() as int } else { rhs@.len() as int };
@loop 0 it
    invariant it.wf(), it.seq().len() == n0,
       forall|j: int| 0 <= j < n0 ==> *it.seq()[j].0 == b0[j] && *it.seq()[j].1 == rhs[j],
       forall|j: int| 0 <= j < it.index() ==> *final(it.seq()[j].0) == b0[j] $O rhs[j],
@before `if rhs . len ( ) > buffer . len ( )`
proof { assert(forall|i: int| 0 <= i < n0 ==> buffer@[i] == b0[i] $O rhs@[i]); }
@before `buffer . into ( )`
proof {
    assert forall|i: int| i >= 0 implies #[trigger] wat(buffer@, i) == wat(b0, i) $O wat(rhs@, i) by { lemma_w0(wat(b0, i)); lemma_w0(wat(rhs@, i)); if i < n0 { } else if i < b0.len() { } else if i < rhs@.len() { assert(buffer@[i] == rhs@[i]); } }
    $LEM(buffer@, b0, rhs@);
}
@endfor
@fn UBig::and_not_large_word -> r
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf(), buffer@.len() >= 2
    ensures r.wf(), is_andnot(r.v() as int, val(buffer@) as int, rhs as int)
@start
let ghost b0 = buffer@;
@before `buffer . into ( )`
proof { lemma_w0s(); lemma_val_one(rhs); lemma_words_andnot(buffer@, b0, seq![rhs]); }
@fn UBig::and_not_large -> r
@rewrite `buffer . iter_mut ( ) . zip ( rhs . iter ( ) )` => `crate::vp_std::head_mut(&mut buffer, rhs.len()).iter_mut().zip(rhs.iter())`
@rewrite `buffer . into ( )` => `UBig::from(buffer)`
    requires buffer.wf()
    ensures r.wf(), is_andnot(r.v() as int, val(buffer@) as int, val(rhs@) as int)
@attr #[verifier::loop_isolation(false)]
@start
let ghost b0 = buffer@;
let ghost n0 = if b0.len() <= rhs@.len() { b0.len() as int } else { rhs@.len() as int };
@loop 0 it
    invariant it.wf(), it.seq().len() == n0,
       forall|j: int| 0 <= j < n0 ==> *it.seq()[j].0 == b0[j] && *it.seq()[j].1 == rhs[j],
       forall|j: int| 0 <= j < it.index() ==> *final(it.seq()[j].0) == b0[j] & !rhs[j],
@before `buffer . into ( )`
proof { assert(forall|i: int| 0 <= i < n0 ==> buffer@[i] == b0[i] & !rhs@[i]); 
    assert forall|i: int| i >= 0 implies #[trigger] wat(buffer@, i) == wat(b0, i) & !wat(rhs@, i) by { lemma_w0(wat(b0, i)); lemma_w0(wat(rhs@, i)); if i < n0 { } else if i < b0.len() { assert(b0[i] & !0 == b0[i]); } }
    lemma_words_andnot(buffer@, b0, rhs@);
}
@for $TR $M $P in BitAnd,bitand,is_and BitOr,bitor,is_or BitXor,bitxor,is_xor AndNot,and_not,is_andnot
@for $S $R in UBig,UBig UBig,&UBig &UBig,UBig &UBig,&UBig
@fn $TR<$R> for $S::$M -> r
@pre self.wf() && rhs.wf()
@rewrite `word0 & word1` => `word0.w() & word1.w()`
@rewrite `word0 | word1` => `word0.w() | word1.w()`
@rewrite `word0 ^ word1` => `word0.w() ^ word1.w()`
@rewrite `word0 & ! word1` => `word0.w() & !word1.w()`
@rewrite `word0 & buffer1 . first ( ) . unwrap ( )` => `word0.w() & buffer1.first().unwrap().w()`
@rewrite `word0 & ! buffer1 . first ( ) . unwrap ( )` => `word0.w() & !buffer1.first().unwrap().w()`
@rewrite `buffer0 . first ( ) . unwrap ( ) & word1` => `buffer0.first().unwrap().w() & word1.w()`
    ensures r.wf(), $P(r.v() as int, self.v() as int, rhs.v() as int)
@start
proof { lemma_u2(&self, &rhs); }
@endfor
@endfor
@for $TR $M $P in BitAndAssign,bitand_assign,is_and BitOrAssign,bitor_assign,is_or BitXorAssign,bitxor_assign,is_xor
@for $S $R in UBig,UBig UBig,&UBig IBig,IBig IBig,&IBig
@fn $TR<$R> for $S::$M
@pre self.wf() && rhs.wf()
    ensures final(self).wf(), $P(final(self).v() as int, old(self).v() as int, rhs.v() as int)
@endfor
@endfor
@for $S in IBig &IBig
@fn Not for $S::not -> r
@pre self.wf()
    ensures r.wf(), r.v() == -self.v() - 1, is_not(r.v(), self.v())
@start
proof { assert forall|n: nat| #[trigger] bit(-self.v() - 1, n) == !bit(self.v(), n) by { lemma_bit_not(self.v(), n); } }
@endfor
@for $TR $M $P in BitAnd,bitand,is_and BitOr,bitor,is_or BitXor,bitxor,is_xor AndNot,and_not,is_andnot
@for $S $R in IBig,IBig IBig,&IBig &IBig,IBig &IBig,&IBig
@fn $TR<$R> for $S::$M -> r
@pre self.wf() && rhs.wf()
    ensures r.wf(), $P(r.v(), self.v(), rhs.v())
@endfor
@endfor
