@file convert.rs
@expand ubig_signed_conversions
@mod
/// a number whose bytes are all needed is zero only if all its bytes are
proof fn lemma_bval_zero_inv(s: Seq<u8>) requires bval(s) == 0 ensures forall|i: int| 0 <= i < s.len() ==> s[i] == 0 decreases s.len()
{
    if s.len() > 0 { lemma_bval_zero_inv(s.skip(1)); assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } } }
}
/// one more word copied in place
proof fn lemma_word_place(w: Seq<Word>, i: int, b0: Seq<u8>, b: Seq<u8>, x: Seq<u8>)
    requires 0 <= i < w.len(), b0.len() == b.len(), (i + 1) * $WBYTES <= b.len(), bval(b0.take(i * $WBYTES)) == val(w.take(i)), x.len() == $WBYTES, bval(x) == w[i],
        b.take(i * $WBYTES) =~= b0.take(i * $WBYTES), b.skip(i * $WBYTES).take($WBYTES) =~= x
    ensures bval(b.take((i + 1) * $WBYTES)) == val(w.take(i + 1))
{
    let t = w.take(i + 1); let (lo, hi) = (b.take(i * $WBYTES), b.skip(i * $WBYTES).take($WBYTES));
    assert(t.drop_last() =~= w.take(i)); assert(lo + hi =~= b.take((i + 1) * $WBYTES));
    lemma_top_bytes(t, lo, hi);
}
/// a number of more words than the type has does not fit
proof fn lemma_too_long(w: Seq<Word>, n: nat)
    requires w.len() >= 2, w.last() != 0
    ensures n <= $WBYTES || (w.len() > n / $WBYTES && n % $WBYTES == 0) ==> val(w) >= bp(n)
{
    if n > $WBYTES && (w.len() <= n / $WBYTES || n % $WBYTES != 0) { return; }
    let k = (w.len() - 1) as nat;
    assert(w =~= w.drop_last().push(w.last())); lemma_val_push(w.drop_last(), w.last()); lemma_bp_pw(k);
    let l = w.last() as nat;
    assert(l * pw(k) >= pw(k)) by (nonlinear_arith) requires l >= 1, pw(k) >= 0;
    assert(pw(k) * l == l * pw(k)) by (nonlinear_arith);
    if n <= $WBYTES { assert(k * $WBYTES >= $WBYTES) by (nonlinear_arith) requires k >= 1; } else { assert(k >= n / $WBYTES); assert(k * $WBYTES >= (n / $WBYTES) * $WBYTES) by (nonlinear_arith) requires k >= n / $WBYTES; }
    if n % $WBYTES == 0 || n <= $WBYTES { lemma_bp_mono(n, k * $WBYTES); }
}
@for $T $N in u8,1 u16,2 u32,4 u64,8 u128,16 usize,8
@fn unsigned_from_words -> r
@mono T=$T as unsigned_from_words_$T
@rewrite `T :: BYTE_SIZE` => `$N`
@rewrite `T :: BITS` => `($N * 8)`
@rewrite `T :: default ( ) . to_le_bytes ( )` => `$T_to_le_bytes(0)`
@rewrite `repr . as_mut ( )` => `&mut repr`
@rewrite `words . iter ( ) . enumerate ( )` => `(0..words.len()).zip(words.iter())`
@rewrite `w . to_le_bytes ( )` => `word_to_le_bytes(*w)`
@rewrite `T :: from_le_bytes ( repr )` => `$T_from_le_bytes(repr)`
    requires words@.len() >= 2, words@.last() != 0
    ensures match r { Ok(x) => x as nat == val(words@), Err(_) => val(words@) > $T::MAX as nat }
@start
proof { lemma_too_long(words@, $N); reveal_with_fuel(bp, 17); assert(bp($N) == $T::MAX as nat + 1); }
@loopbefore 0
proof { lemma_bval_zero_inv(bytes@); assert(bytes@.take(0).len() == 0); lemma_val_empty(words@.take(0)); assert(bval(bytes@.take(0)) == 0); }
@loop 0 it
    invariant it.wf(), it.seq().len() == words@.len(), forall|j: int| 0 <= j < words@.len() ==> it.seq()[j].0 == j && *it.seq()[j].1 == words@[j],
        bytes@.len() == $N, words@.len() * $WBYTES <= $N, bval(bytes@.take(it.index@ * $WBYTES)) == val(words@.take(it.index@)), forall|j: int| it.index@ * $WBYTES <= j < $N ==> bytes@[j] == 0
@loopstart 0
let ghost b0 = bytes@;
proof { assert(idx == it.index@); assert((idx + 1) * $WBYTES <= words@.len() * $WBYTES) by (nonlinear_arith) requires idx + 1 <= words@.len(); }
@loopend 0
proof { lemma_word_place(words@, idx as int, b0, bytes@, word_le(words@[idx as int])); }
@loopafter 0
proof { lemma_bval_trim(bytes@, (words@.len() * $WBYTES) as int); assert(words@.take(words@.len() as int) =~= words@); }
@fn UBig::try_to_unsigned -> r
@mono T=$T as ubig_try_to_unsigned_$T
@method2fn ubig_try_to_unsigned_$T UBig
@rewrite `T :: try_from ( * w )` => `word_try_into_$T(*w)`
@rewrite `unsigned_from_words ( buffer )` => `unsigned_from_words_$T(buffer)`
    requires vp_self.wf()
    ensures match r { Ok(x) => x as nat == vp_self.v(), Err(_) => vp_self.v() > $T::MAX as nat }
@fn IBig::try_to_unsigned -> r
@mono T=$T as ibig_try_to_unsigned_$T
@method2fn ibig_try_to_unsigned_$T IBig
@rewrite `self . magnitude ( ) . try_to_unsigned ( )` => `ubig_try_to_unsigned_$T(self.magnitude())`
    requires vp_self.wf()
    ensures match r { Ok(x) => x as int == vp_self.v(), Err(_) => vp_self.v() < 0 || vp_self.v() > $T::MAX as int }
@fn TryFrom < UBig > for $T::try_from -> r
@rewrite `value . try_to_unsigned ( )` => `ubig_try_to_unsigned_$T(&value)`
@pre value.wf()
    ensures match r { Ok(x) => x as nat == value.v(), Err(_) => value.v() > $T::MAX as nat }
@fn TryFrom < & UBig > for $T::try_from -> r
@rewrite `value . try_to_unsigned ( )` => `ubig_try_to_unsigned_$T(value)`
@pre value.wf()
    ensures match r { Ok(x) => x as nat == value.v(), Err(_) => value.v() > $T::MAX as nat }
@fn TryFrom < IBig > for $T::try_from -> r
@rewrite `value . try_to_unsigned ( )` => `ibig_try_to_unsigned_$T(&value)`
@pre value.wf()
    ensures match r { Ok(x) => x as int == value.v(), Err(_) => value.v() < 0 || value.v() > $T::MAX as int }
@fn TryFrom < & IBig > for $T::try_from -> r
@rewrite `value . try_to_unsigned ( )` => `ibig_try_to_unsigned_$T(value)`
@pre value.wf()
    ensures match r { Ok(x) => x as int == value.v(), Err(_) => value.v() < 0 || value.v() > $T::MAX as int }
@endfor
@for $S $T in i8,u8 i16,u16 i32,u32 i64,u64 i128,u128 isize,usize
@fn UBig::try_from_signed -> r
@mono T=$S as ubig_try_from_signed_$S
@method2fn ubig_try_from_signed_$S UBig
@rewrite `T :: Unsigned :: try_from ( x )` => `$S_try_into_$T(x)`
@rewrite `UBig :: from_unsigned ( u )` => `ubig_from_unsigned_$T(u)`
    ensures match r { Ok(y) => y.wf() && y.v() == x as int, Err(_) => x < 0 }
@fn UBig::try_to_signed -> r
@mono T=$S as ubig_try_to_signed_$S
@method2fn ubig_try_to_signed_$S UBig
@rewrite `T :: try_from ( * w ) . map_err ( | _ | OutOfBoundsError )` => `word_try_into_$S(*w)`
@rewrite `T :: Unsigned = unsigned_from_words ( buffer )` => `$T = unsigned_from_words_$T(buffer)`
@rewrite `u . try_into ( ) . map_err ( | _ | OutOfBoundsError )` => `$T_try_into_$S(u)`
    requires vp_self.wf()
    ensures match r { Ok(x) => x as int == vp_self.v(), Err(_) => vp_self.v() > $S::MAX as int }
@fn IBig::try_to_signed -> r
@mono T=$S as ibig_try_to_signed_$S
@method2fn ibig_try_to_signed_$S IBig
@rewrite `T :: Unsigned = self . magnitude ( ) . try_to_unsigned ( )` => `$T = ubig_try_to_unsigned_$T(self.magnitude())`
@rewrite `T :: try_from_sign_magnitude (` => `crate::primitive::$S_try_from_sign_magnitude(`
    requires vp_self.wf()
    ensures match r { Ok(x) => x as int == vp_self.v(), Err(_) => vp_self.v() < $S::MIN as int || vp_self.v() > $S::MAX as int }
@fn TryFrom < $S > for UBig::try_from -> r
@rewrite `UBig :: try_from_signed ( value )` => `ubig_try_from_signed_$S(value)`
    ensures match r { Ok(y) => y.wf() && y.v() == value as int, Err(_) => value < 0 }
@fn TryFrom < UBig > for $S::try_from -> r
@rewrite `value . try_to_signed ( )` => `ubig_try_to_signed_$S(&value)`
@pre value.wf()
    ensures match r { Ok(x) => x as int == value.v(), Err(_) => value.v() > $S::MAX as int }
@fn TryFrom < & UBig > for $S::try_from -> r
@rewrite `value . try_to_signed ( )` => `ubig_try_to_signed_$S(value)`
@pre value.wf()
    ensures match r { Ok(x) => x as int == value.v(), Err(_) => value.v() > $S::MAX as int }
@fn TryFrom < IBig > for $S::try_from -> r
@rewrite `value . try_to_signed ( )` => `ibig_try_to_signed_$S(&value)`
@pre value.wf()
    ensures match r { Ok(x) => x as int == value.v(), Err(_) => value.v() < $S::MIN as int || value.v() > $S::MAX as int }
@fn TryFrom < & IBig > for $S::try_from -> r
@rewrite `value . try_to_signed ( )` => `ibig_try_to_signed_$S(value)`
@pre value.wf()
    ensures match r { Ok(x) => x as int == value.v(), Err(_) => value.v() < $S::MIN as int || value.v() > $S::MAX as int }
@endfor
@fn From < bool > for UBig::from -> r
@rewrite `u8 :: from ( b ) . into ( )` => `UBig::from(u8::from(b))`
    ensures r.wf(), r.v() == (if b { 1int } else { 0 })
@fn From < bool > for IBig::from -> r
@rewrite `u8 :: from ( b ) . into ( )` => `IBig::from(u8::from(b))`
    ensures r.wf(), r.v() == (if b { 1int } else { 0 })
