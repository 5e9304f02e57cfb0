@file bits.rs
@mod
/// far enough out, the bits of a number are its sign
pub proof fn lemma_far_bit(v: int, n: nat) requires n >= v, n >= -v - 1 ensures bit(v, n) == (v < 0)
{
    if v >= 0 { lemma_p2_above(v as nat); lemma_p2_mono(v as nat, n); lemma_bit_small(v as nat, n); }
    else { let u = (-v - 1) as nat; lemma_p2_above(u); lemma_p2_mono(u, n); lemma_bit_small(u, n); lemma_bit_not(v, n); }
}
proof fn lemma_p2_above(n: nat) ensures p2(n) > n decreases n { if n == 0 { assert(p2(0) == 1); } else { lemma_p2_above((n - 1) as nat); assert(p2(n) == 2 * p2((n - 1) as nat)); } }
/// signs of the results of the bitwise operators
pub proof fn lemma_op_signs(r: int, a: int, b: int)
    ensures is_and(r, a, b) ==> (r < 0) == (a < 0 && b < 0), is_or(r, a, b) ==> (r < 0) == (a < 0 || b < 0), is_xor(r, a, b) ==> (r < 0) == ((a < 0) != (b < 0)), is_andnot(r, a, b) ==> (r < 0) == (a < 0 && b >= 0)
{
    let n = ((if r < 0 { -r } else { r }) + (if a < 0 { -a } else { a }) + (if b < 0 { -b } else { b })) as nat;
    lemma_far_bit(r, n); lemma_far_bit(a, n); lemma_far_bit(b, n);
    assert(bit(r, n) == (r < 0));
}
/// fewer bits, smaller number
proof fn lemma_subbits(r: nat, b: nat) requires forall|m: nat| #[trigger] bit(r as int, m) ==> bit(b as int, m) ensures r <= b decreases r
{
    if r > 0 {
        assert(p2(0) == 1);
        assert(bit(r as int, 0) ==> bit(b as int, 0));
        assert(r % 2 <= b % 2) by { assert(r as int / 1 == r && b as int / 1 == b); }
        assert forall|m: nat| #[trigger] bit((r / 2) as int, m) implies bit((b / 2) as int, m) by {
            lemma_p2_pos(m);
            assert(p2(m + 1) == 2 * p2(m));
            vstd::arithmetic::div_mod::lemma_div_denominator(r as int, 2, p2(m) as int);
            vstd::arithmetic::div_mod::lemma_div_denominator(b as int, 2, p2(m) as int);
            assert(bit(r as int, m + 1) ==> bit(b as int, m + 1));
        }
        lemma_subbits(r / 2, b / 2);
    }
}
/// the conjunction with a nonnegative number is between zero and that number
pub proof fn lemma_and_le(r: int, a: int, b: int) requires is_and(r, a, b), b >= 0 ensures 0 <= r <= b
{
    lemma_op_signs(r, a, b);
    assert forall|m: nat| #[trigger] bit(r as nat as int, m) implies bit(b as nat as int, m) by { assert(bit(r, m)); }
    lemma_subbits(r as nat, b as nat);
}
@for $T in u8 u16 u32 u64 u128 usize
@fn UBig::bitand_ref_unsigned -> r
@mono T=$T as ubig_bitand_ref_unsigned_$T
@method2fn ubig_bitand_ref_unsigned_$T UBig
@rewrite `self . bitand ( UBig :: from_unsigned ( rhs ) ) . try_to_unsigned ( )` => `crate::convert::ubig_try_to_unsigned_$T(&{ let vp_and = self.bitand(crate::convert::ubig_from_unsigned_$T(rhs)); proof { lemma_and_le(vp_and.v() as int, vp_self.v() as int, rhs as int); } vp_and })`
    requires vp_self.wf()
    ensures is_and(r as int, vp_self.v() as int, rhs as int)
@endfor
