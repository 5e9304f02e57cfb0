@file math.rs
@fn bit_len_word -> r
    ensures crate::vp_bits::is_bit_len(x as nat, r as nat), r <= $BITS
@start
proof { crate::vp_bits::lemma_lz(x); }
@fn ceil_log_2_word -> r
    requires x > 0
    ensures crate::vp_bits::is_bit_len((x - 1) as nat, r as nat), r <= $BITS
@fn ones_word -> r
    requires n <= $BITS
    ensures r as nat == crate::vp_bits::p2(n as nat) - 1
@start
proof {
    assert(crate::vp_bits::p2(0) == 1);
    if n > 0 { let s = ($BITS - n) as u32; crate::vp_bits::lemma_shr_div($MAX, s); crate::vp_bits::lemma_p2_add(s as nat, n as nat); crate::vp_bits::lemma_p2_wb();
        let (p, q) = (crate::vp_bits::p2(s as nat) as int, crate::vp_bits::p2(n as nat) as int);
        crate::vp_bits::lemma_p2_pos(s as nat); crate::vp_bits::lemma_p2_pos(n as nat);
        assert(p * q == q * p) by (nonlinear_arith);
        assert($MAX == (q - 1) * p + (p - 1)) by (nonlinear_arith) requires p * q == $MAX + 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse($MAX, p, q - 1, p - 1); }
}
@file fast_divide.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use vstd::arithmetic::div_mod::*;
@item struct FastDivideNormalized
@item struct FastDivideSmall
@mod
impl FastDivideNormalized {
    pub closed spec fn d(&self) -> nat { self.divisor as nat }
    /// The divisor is normalized and m is its precomputed reciprocal.
    pub closed spec fn wf(&self) -> bool { 2 * self.divisor >= B() && 1 <= B() * B() - (self.m + B()) * self.divisor <= self.divisor }
    pub proof fn lemma_wf(&self) requires self.wf() ensures 2 * self.d() >= B(), self.d() < B() {}
}
impl FastDivideSmall {
    pub closed spec fn d(&self) -> nat { self.divisor as nat }
    pub closed spec fn wf(&self) -> bool { self.divisor >= 2 && self.shift < $BITS && p2(self.shift as nat) < self.divisor <= p2(self.shift as nat + 1)
        && 1 <= self.divisor * (B() + self.m) - B() * p2(self.shift as nat + 1) <= self.divisor }
    pub proof fn lemma_wf(&self) requires self.wf() ensures 2 <= self.d() < B() {}
}
proof fn lemma_small_new(d: int, n2: int, h: int, x: int)
    requires 2 <= d < B(), n2 == 2 * h, h < d <= n2, n2 <= B(), x == (B() * (n2 - d)) / d
    ensures 0 <= x < B() - 1, 1 <= d * (B() + x + 1) - B() * n2 <= d
{
    let y = B() * (n2 - d);
    lemma_fundamental_div_mod(y, d); lemma_mod_bound(y, d);
    let r = y % d;
    assert(y >= 0) by (nonlinear_arith) requires y == B() * (n2 - d), n2 >= d;
    assert(d * (B() + x + 1) == B() * d + d * x + d) by (nonlinear_arith);
    assert(y == B() * n2 - B() * d) by (nonlinear_arith) requires y == B() * (n2 - d);
    assert(x >= 0) by (nonlinear_arith) requires d * x + r == y, r < d, y >= 0, d > 0;
    assert(y <= B() * (d - 2)) by (nonlinear_arith) requires y == B() * (n2 - d), n2 - d <= d - 2;
    assert(B() * (d - 2) == B() * d - 2 * B()) by (nonlinear_arith);
    assert(x < B() - 1) by (nonlinear_arith) requires d * x + r == y, r >= 0, y <= B() * d - 2 * B(), d < B(), d > 0;
}
@fn FastDivideSmall::new -> r
    requires divisor >= 2
    ensures r.wf(), r.d() == divisor
@before `let ( lo , _hi ) = split_double_word`
proof {
    assert(p2(0) == 1);
    assert(n > 0);
    assert(p2(n as nat) == 2 * p2((n - 1) as nat));
    lemma_p2_wb(); lemma_p2_mono(n as nat, $BITS);
    lemma_small_new(divisor as int, p2(n as nat) as int, p2((n - 1) as nat) as int, (B() * (p2(n as nat) - divisor)) / (divisor as int));
    let x = (B() * (p2(n as nat) - divisor)) / (divisor as int);
    lemma_fundamental_div_mod_converse(x, B() as int, 0, x);
}
@mod
proof fn lemma_small_div(d: int, m: int, n2: int, a: int, q: int, t: int)
    requires 2 <= d <= n2, 0 <= m, 0 <= a < B(), n2 > 0, 1 <= d * (B() + m) - B() * n2 <= d, t == (m * a) / (B() as int), q == (t + a) / n2
    ensures q * d <= a < q * d + d
{
    let b = B() as int;
    let x = (b + m) * a;
    lemma_fundamental_div_mod(m * a, b); lemma_mod_bound(m * a, b);
    assert(x == b * a + m * a) by (nonlinear_arith) requires x == (b + m) * a;
    lemma_fundamental_div_mod(t + a, n2); lemma_mod_bound(t + a, n2);
    let (r0, r1) = ((m * a) % b, (t + a) % n2);
    // x = b*(a + t) + r0 = b*(n2*q + r1) + r0
    assert(x == b * (a + t) + r0) by (nonlinear_arith) requires x == b * a + m * a, m * a == b * t + r0;
    let e = b * r1 + r0;
    let bn = b * n2;
    assert(x == bn * q + e) by (nonlinear_arith) requires x == b * (a + t) + r0, t + a == n2 * q + r1, e == b * r1 + r0, bn == b * n2;
    assert(0 <= e < bn) by (nonlinear_arith) requires e == b * r1 + r0, 0 <= r1 <= n2 - 1, 0 <= r0 < b, bn == b * n2, b > 0;
    let k = d * (b + m) - bn;
    assert(d * x == bn * a + k * a) by (nonlinear_arith) requires x == (b + m) * a, k == d * (b + m) - bn;
    let (ka, de, qd) = (k * a, d * e, q * d);
    assert(0 <= ka < bn) by (nonlinear_arith) requires ka == k * a, 1 <= k <= n2, 0 <= a < b, bn == b * n2;
    assert(d * x == bn * qd + de) by (nonlinear_arith) requires x == bn * q + e, de == d * e, qd == q * d;
    assert(0 <= de < bn * d) by (nonlinear_arith) requires de == d * e, 0 <= e < bn, d > 0;
    // bn*(a - qd) = de - ka, so -bn < bn*(a-qd) < bn*d
    let y = a - qd;
    assert(bn * y == de - ka) by (nonlinear_arith) requires y == a - qd, bn * a + ka == bn * qd + de;
    assert(y > -1) by (nonlinear_arith) requires bn * y > -bn, bn > 0;
    assert(y < d) by (nonlinear_arith) requires bn * y < bn * d, bn > 0;
}
@fn FastDivideSmall::div_rem -> r
    requires self.wf()
    ensures r.0 as nat == a as nat / self.d(), r.1 as nat == a as nat % self.d(), r.1 < self.d()
@start
proof {
    let (m, x) = (self.m as int, a as int);
    assert(m * x <= $DMAX) by (nonlinear_arith) requires 0 <= m <= $MAX, 0 <= x <= $MAX;
    assert((m * x) <= x * (B() as int)) by (nonlinear_arith) requires 0 <= m <= B(), x >= 0;
    assert(m * x >= 0) by (nonlinear_arith) requires m >= 0, x >= 0;
    let b = B() as int;
    lemma_fundamental_div_mod(m * x, b); lemma_mod_bound(m * x, b);
    let t = (m * x) / b;
    assert(0 <= t <= x) by (nonlinear_arith) requires m * x == b * t + (m * x) % b, 0 <= (m * x) % b < b, 0 <= m * x <= x * b, b > 0;
}
@before `let q = ( t + ( ( a - t ) >> 1 ) ) >> self . shift ;`
let ghost y: Word = (a - t) as Word;
proof { assert(y >> 1 == y / 2) by (bit_vector); lemma_shr_div((t + ((a - t) as Word) / 2) as Word, self.shift); let p = p2(self.shift as nat);
    lemma_p2_pos(self.shift as nat); lemma_div_denominator((t + a) as int, 2, p as int); assert(p2(self.shift as nat + 1) == 2 * p);
    lemma_small_div(self.divisor as int, self.m as int, p2(self.shift as nat + 1) as int, a as int, ((t + a) as int / (2 * p as int)), t as int);
    assert((t + a) as int / 2 == t + (a - t) as int / 2);
    lemma_p2_pos(self.shift as nat);
}
@before `( q , r )`
proof { let (qq, d) = (q as int, self.divisor as int); assert(qq * d == d * qq) by (nonlinear_arith); lemma_fundamental_div_mod_converse(a as int, d, qq, r as int); }
@mod
proof fn lemma_norm_new(d: int, q: int) requires 2 * d >= B(), 1 <= d < B(), q == (B() * B() - 1) / d
    ensures B() <= q < 2 * B(), 1 <= B() * B() - q * d <= d
{
    let b = B() as int; let x = b * b - 1;
    lemma_fundamental_div_mod(x, d); lemma_mod_bound(x, d);
    assert(q * d == d * q) by (nonlinear_arith);
    let r = x % d;
    assert(q < 2 * b) by (nonlinear_arith) requires d * q + r == b * b - 1, 0 <= r, 2 * d >= b, b > 0;
    assert(q >= b) by (nonlinear_arith) requires d * q + r == b * b - 1, r < d, d <= b - 1, b > 0, d > 0;
}
@fn FastDivideNormalized::new -> r
    requires 2 * divisor >= B()
    ensures r.wf(), r.d() == divisor
@start
proof { lemma_lz(divisor); lemma_p2_wb(); let l = lzs(divisor); if l > 0 { lemma_p2_mono(($BITS - l) as nat, ($BITS - 1) as nat); assert(p2($BITS) == 2 * p2(($BITS - 1) as nat)); }
    lemma_norm_new(divisor as int, (B() * B() - 1) / (divisor as int)); assert(B() * B() - 1 == $DMAX) by (compute);
    let q = ($DMAX as int) / (divisor as int); lemma_fundamental_div_mod_converse(q, B() as int, 1, q - B()); }
@fn FastDivideNormalized::div_rem_word -> r
    requires self.wf()
    ensures r.0 as nat == a as nat / self.d(), r.1 as nat == a as nat % self.d()
@start
proof { if a < self.divisor { lemma_fundamental_div_mod_converse(a as int, self.divisor as int, 0, a as int); } else { lemma_fundamental_div_mod_converse(a as int, self.divisor as int, 1, a - self.divisor); } }
@mod
/// Moeller, Granlund: bounds on the first approximation (see the comment in the source).
proof fn lemma_norm(d: int, m: int, ah: int, al: int, q0: int, q1: int)
    requires 2 * d >= B(), 0 <= ah < d < B(), 0 <= al < B(), 0 <= q0 < B(), 0 <= m < B(), 1 <= B() * B() - (m + B()) * d <= d, m * ah + (al + B() * ah) == q0 + B() * q1
    ensures ({ let r = al + B() * ah - (q1 + 1) * d; -d <= r && q0 + 1 - B() <= r && (r < B() - d || r < q0) })
{
    let b = B() as int;
    let a = al + b * ah;
    let r = a - (q1 + 1) * d;
    let k = b * b - (m + b) * d;
    let (mah, bah, md) = (m * ah, b * ah, m * d);
    assert(k == b * b - md - b * d) by (nonlinear_arith) requires k == b * b - (m + b) * d, md == m * d;
    assert((q1 + 1) * d == q1 * d + d) by (nonlinear_arith);
    let q1d = q1 * d;
    assert(b * q1d == mah * d + al * d + bah * d - q0 * d) by (nonlinear_arith) requires mah + (al + bah) == q0 + b * q1, q1d == q1 * d;
    assert(b * r == b * al + b * bah - b * q1d - b * d) by (nonlinear_arith) requires r == al + bah - (q1d + d);
    assert(ah * k == ah * (b * b) - mah * d - bah * d) by (nonlinear_arith) requires k == b * b - md - b * d, md == m * d, mah == m * ah, bah == b * ah;
    assert(b * bah == ah * (b * b)) by (nonlinear_arith) requires bah == b * ah;
    assert(al * (b - d) == b * al - al * d) by (nonlinear_arith);
    let (ahk, abd, q0d, bd) = (ah * k, al * (b - d), q0 * d, b * d);
    assert(b * r == ahk + abd + q0d - bd);
    assert(ahk >= 0) by (nonlinear_arith) requires ahk == ah * k, ah >= 0, k >= 0;
    assert(abd >= 0) by (nonlinear_arith) requires abd == al * (b - d), al >= 0, b - d >= 0;
    assert(q0d >= 0) by (nonlinear_arith) requires q0d == q0 * d, q0 >= 0, d >= 0;
    assert(r >= -d) by (nonlinear_arith) requires b * r >= -bd, bd == b * d, b > 0;
    assert(r > q0 - b) by (nonlinear_arith) requires b * r >= q0d - bd, q0d == q0 * d, bd == b * d, 0 < d < b, 0 <= q0 < b;
    assert(ahk < d * d) by (nonlinear_arith) requires ahk == ah * k, 0 <= ah < d, 0 < k <= d;
    assert(abd <= b * (b - d)) by (nonlinear_arith) requires abd == al * (b - d), al < b, b - d >= 0;
    assert(d * d + b * (b - d) - bd == (b - d) * (b - d)) by (nonlinear_arith) requires bd == b * d;
    assert(b * r < (b - d) * (b - d) + q0 * d);
    if r >= b - d && r >= q0 {
        assert(false) by (nonlinear_arith) requires b * r < (b - d) * (b - d) + q0 * d, r >= b - d, r >= q0, b - d >= 0, d >= 0, b == (b - d) + d;
    }
}
proof fn lemma_norm_fits(d: int, m: int, ah: int, al: int)
    requires 2 * d >= B(), 0 <= ah < d < B(), 0 <= al < B(), 0 <= m < B(), 1 <= B() * B() - (m + B()) * d <= d
    ensures 0 <= m * ah, m * ah + (al + B() * ah) <= B() * B() - 1
{
    let b = B() as int;
    assert(m * ah >= 0) by (nonlinear_arith) requires m >= 0, ah >= 0;
    assert(m * ah + b * ah <= (m + b) * d - (m + b)) by (nonlinear_arith) requires ah <= d - 1, m + b >= 0;
}
/// x == y (mod B), both words
proof fn lemma_cong(x: int, y: int, k: int) requires 0 <= x < B(), 0 <= y < B(), x - y == k * B() ensures x == y
{ assert(k == 0) by (nonlinear_arith) requires -(B() as int) < k * B() < B() as int; assert(0 * B() == 0); }
@fn FastDivideNormalized::div_rem -> r
@attr #[verifier::rlimit(60)]
    requires self.wf(), (a as nat) < self.d() * B()
    ensures r.0 as nat == a as nat / self.d(), r.1 as nat == a as nat % self.d(), r.1 < self.d(), a as nat == r.0 as nat * self.d() + r.1 as nat
@before `let ( q0 , q1 ) = split_double_word`
let ghost (d, m, ah, al) = (self.divisor as int, self.m as int, a_hi as int, a_lo as int);
proof { lemma_norm_fits(d, m, ah, al); assert(B() * B() - 1 == $DMAX) by (compute); }
@before `let q = q1 . wrapping_add ( 1 ) ;`
proof { lemma_norm(d, m, ah, al, q0 as int, q1 as int); }
let ghost rt = al + B() * ah - (q1 + 1) * d;
let ghost qw = (if q1 == $MAX { 0int } else { q1 + 1 });
@after `let r = a_lo . wrapping_sub ( q . wrapping_mul ( self . divisor ) ) ;`
proof {
    // r is rt modulo B
    assert(q as int == qw);
    let b = B() as int;
    let pm = (q as int * d) % b;
    lemma_fundamental_div_mod(q as int * d, b);
    let j = (q as int * d) / b;
    let s: int = if q1 == $MAX { 1 } else { 0 };
    assert((q1 + 1) * d == q as int * d + s * b * d) by (nonlinear_arith) requires q as int == q1 + 1 - s * b;
    let u: int = if al < pm { 1 } else { 0 };
    assert(r as int == al - pm + u * b);
    let rr: int = if rt < 0 { rt + b } else { rt };
    let z: int = if rt < 0 { 1 } else { 0 };
    assert(s * b * d == (s * d) * b) by (nonlinear_arith);
    let sd = s * d;
    assert(r as int - rr == (u + j + sd - z - ah) * b) by (nonlinear_arith)
        requires r as int == al - pm + u * b, rr == rt + z * b, rt == al + b * ah - (q as int * d + sd * b), q as int * d == b * j + pm;
    lemma_cong(r as int, rr, u + j + sd - z - ah);
}
let ghost (qa, ra) = (q, r);
@after `let ( _ , decrease ) = split_double_word ( extend_word ( q0 ) . wrapping_sub ( extend_word ( r ) ) ) ;`
proof { lemma_dwsub(q0, r, decrease); let dv = self.divisor; let x = decrease; assert(x == $MAX ==> (x & dv) == dv) by (bit_vector); assert(x == 0 ==> (x & dv) == 0) by (bit_vector); }
@before `let ( _ , increase ) =`
let ghost (qb, rb) = (q, r);
let ghost q2: int = if q0 < ra { q1 as int } else { q1 + 1 };
proof { assert((q1 + 1) * d == q1 * d + d) by (nonlinear_arith); assert(rb as int == al + B() * ah - q2 * d); assert(qb as int == (if q2 == B() { 0 } else { q2 })); }
@before `let increase = ! increase`
proof { lemma_dwsub(rb, self.divisor, increase); let dv = self.divisor; let x = increase; assert(x == $MAX ==> !x == 0) by (bit_vector); assert(x == 0 ==> !x == $MAX) by (bit_vector); assert((0$W & dv) == 0) by (bit_vector); assert(($MAX$W & dv) == dv) by (bit_vector); }
@before `( q , r )`
proof {
    let q3: int = if rb >= d { q2 + 1 } else { q2 };
    assert((q2 + 1) * d == q2 * d + d) by (nonlinear_arith);
    assert(r as int == al + B() * ah - q3 * d);
    assert(0 <= r < d);
    assert(q3 < B()) by (nonlinear_arith) requires q3 * d <= al + B() * ah, al < B(), ah + 1 <= d, d > 0;
    assert(q3 * d == d * q3) by (nonlinear_arith);
    assert(q as int == q3);
    lemma_fundamental_div_mod_converse(a as int, d, q3, r as int);
}
@mod
proof fn lemma_dwsub(x: Word, y: Word, h: Word)
    requires h as int == (if x >= y { x as int - y as int } else { x + B() * B() - y }) / (B() as int)
    ensures h == (if x < y { $MAX$W } else { 0 })
{
    let b = B() as int;
    if x < y { assert(x + B() * B() - y == b * (b - 1) + (b + x - y)) by (nonlinear_arith) requires b == B(); lemma_fundamental_div_mod_converse(x + B() * B() - y, b, b - 1, b + x - y); }
    else { lemma_fundamental_div_mod_converse(x - y, b, 0, x - y); }
}
