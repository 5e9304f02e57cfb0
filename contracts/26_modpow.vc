@file modular/pow.rs
@mod
use crate::vp_math::*;
use crate::vp_bits::*;
use crate::vp_std::*;
use crate::modular::modulo_ring::{ok, rem, ModuloRingLarge};
use crate::modular::modulo::words_ok;
use crate::modular::mul::mmem;
use crate::ubig::{lemma_val_one, lemma_large_big};
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
/// v^e modulo n
pub open spec fn pm(v: nat, e: nat, n: nat) -> nat { rem(pow(v as int, e), n) }
pub proof fn lemma_rem_mul(x: int, y: int, n: nat) requires n >= 1 ensures rem((rem(x, n) * rem(y, n)) as int, n) == rem(x * y, n), rem((rem(x, n) * y), n) == rem(x * y, n)
{ lemma_mod_bound(x, n as int); lemma_mod_bound(y, n as int); lemma_mul_mod_noop(x, y, n as int); lemma_mul_mod_noop_left(x, y, n as int); }
/// pow_helper's intermediate values: a^e1 * b^e2
spec fn zz(a: nat, b: nat, e1: nat, e2: nat, n: nat) -> nat { rem(pow(a as int, e1) * pow(b as int, e2), n) }
proof fn lemma_zz(a: nat, b: nat, e1: nat, e2: nat, n: nat) requires n >= 1
    ensures rem((zz(a, b, e1, e2, n) * zz(a, b, e1, e2, n)) as int, n) == zz(a, b, 2 * e1, 2 * e2, n), rem((zz(a, b, e1, e2, n) * b) as int, n) == zz(a, b, e1, e2 + 1, n)
{
    let (x, y) = (pow(a as int, e1), pow(b as int, e2));
    lemma_rem_mul(x * y, x * y, n); lemma_rem_mul(x * y, b as int, n);
    lemma_pow_adds(a as int, e1, e1); lemma_pow_adds(b as int, e2, e2); lemma_pow_adds(b as int, e2, 1); lemma_pow1(b as int);
    assert((x * y) * (x * y) == (x * x) * (y * y)) by (nonlinear_arith);
    assert((x * y) * b == x * (y * b)) by (nonlinear_arith);
}
proof fn lemma_zz0(a: nat, b: nat, n: nat) requires a < n ensures zz(a, b, 1, 0, n) == a
{ lemma_pow1(a as int); lemma_pow0(b as int); assert(a as int * 1 == a); lemma_small_mod(a, n); }
/// with a = v^k the product is a power of v
proof fn lemma_zz_pm(v: nat, k: nat, e1: nat, e2: nat, n: nat) requires n >= 1 ensures zz(pm(v, k, n), v, e1, e2, n) == pm(v, k * e1 + e2, n)
{
    let b = v as int; let p = pow(b, k);
    lemma_pow_mod_noop(p, e1, n as int); lemma_mod_bound(p, n as int);
    let (x, x1, y) = (pow(pm(v, k, n) as int, e1), pow(p, e1), pow(b, e2));
    assert(rem(x, n) == rem(x1, n)) by { lemma_mod_bound(x, n as int); lemma_mod_bound(x1, n as int); }
    lemma_rem_mul(x, y, n); lemma_rem_mul(x1, y, n);
    lemma_pow_multiplies(b, k, e1); lemma_pow_adds(b, k * e1, e2);
}
pub proof fn lemma_pm(v: nat, e1: nat, e2: nat, n: nat) requires n >= 1
    ensures rem((pm(v, e1, n) * pm(v, e2, n)) as int, n) == pm(v, e1 + e2, n), v < n ==> pm(v, 1, n) == v, pm(v, 0, n) == rem(1, n)
{
    lemma_rem_mul(pow(v as int, e1), pow(v as int, e2), n); lemma_pow_adds(v as int, e1, e2); lemma_pow1(v as int); lemma_pow0(v as int);
    if v < n { lemma_small_mod(v, n); }
}
/// the exponent one bit further down
proof fn lemma_step(x: nat, b: nat) ensures x / p2(b) == 2 * (x / p2(b + 1)) + (if bit(x as int, b) { 1nat } else { 0nat })
{
    let d = p2(b); lemma_p2_pos(b); assert(p2(b + 1) == 2 * d);
    lemma_div_denominator(x as int, d as int, 2); assert(d * 2 == p2(b + 1));
    lemma_fundamental_div_mod((x / d) as int, 2);
}
/// the low bits are the bits below
proof fn lemma_low_bit(x: nat, k: nat, b: nat) requires b < k ensures bit((x % p2(k)) as int, b) == bit(x as int, b)
{
    lemma_p2_pos(k); lemma_p2_pos(b);
    let h = (k - b - 1) as nat; lemma_p2_add(h + 1, b); assert(p2(h + 1) == 2 * p2(h));
    lemma_fundamental_div_mod(x as int, p2(k) as int);
    let (q, y, d, t) = ((x / p2(k)) as int, (x % p2(k)) as int, p2(b) as int, p2(h) as int);
    assert(p2(k) as int == (2 * t) * d);
    assert(x == d * (2 * (q * t)) + y) by (nonlinear_arith) requires x == ((2 * t) * d) * q + y;
    lemma_hoist_over_denominator(y, 2 * (q * t), d as nat);
    let s = q * t;
    assert(d * (2 * s) == (2 * s) * d) by (nonlinear_arith);
    assert((y / d + 2 * s) % 2 == (y / d) % 2);
}
proof fn lemma_top(x: nat, r: nat) requires is_bit_len(x, r), r >= 1 ensures x / p2((r - 1) as nat) == 1, x == p2((r - 1) as nat) + x % p2((r - 1) as nat)
{
    let d = p2((r - 1) as nat); lemma_p2_pos((r - 1) as nat); assert(p2(r) == 2 * d);
    lemma_quot(x, 1, d, (x - d) as nat);
}
@fn ModuloSmallRaw::pow_helper -> r
    requires self.wf(ring), base.wf(ring), bits <= $BITS
    ensures r.wf(ring), r.v(ring) == zz(self.v(ring), base.v(ring), p2(bits as nat), exp as nat % p2(bits as nat), ring.n())
@start
let ghost (a, b, b0, y, n) = (self.v(ring), base.v(ring), bits as nat, exp as nat % p2(bits as nat), ring.n());
proof { ring.lemma_wf(); crate::modular::modulo_ring::lemma_ok(self.x(), ring.nm(), ring.s()); lemma_zz0(a, b, n); assert(p2(0) == 1); lemma_p2_pos(b0); lemma_mod_bound(exp as int, p2(b0) as int); lemma_basic_div(y as int, p2(b0) as int); }
@loop 0
    invariant bits <= b0, b0 <= $BITS, n >= 1, n == ring.n(), y == exp as nat % p2(b0), res.wf(ring), base.wf(ring), b == base.v(ring), res.v(ring) == zz(a, b, p2((b0 - bits) as nat), y / p2(bits as nat), n)
    decreases bits
@loopstart 0
proof { let k = (bits - 1) as nat; lemma_zz(a, b, p2((b0 - bits) as nat), y / p2(bits as nat), n); lemma_zz(a, b, p2((b0 - k) as nat), 2 * (y / p2(bits as nat)), n); assert(p2((b0 - k) as nat) == 2 * p2((b0 - bits) as nat)); lemma_step(y, k); lemma_low_bit(exp as nat, b0, k); lemma_wbit(exp, k as u32); }
@tail
proof { assert(p2(0) == 1); lemma_div_basics(y as int); }
@fn ModuloSmallRaw::pow_word -> r
    requires self.wf(ring)
    ensures r.wf(ring), r.v(ring) == pm(self.v(ring), exp as nat, ring.n())
@start
proof { ring.lemma_wf(); lemma_pm(self.v(ring), 0, 0, ring.n()); lemma_lz(exp);
    if exp != 0 { let l = ($BITS - lzs(exp)) as nat; let n = ring.n(); crate::modular::modulo_ring::lemma_ok(self.x(), ring.nm(), ring.s()); lemma_top(exp as nat, l); lemma_zz_pm(self.v(ring), 1, p2((l - 1) as nat), exp as nat % p2((l - 1) as nat), n); } }
@fn ModuloSmall<'a>::pow -> r
    requires self.wf(), exp.wf()
    ensures r.wf(), r.rg() == self.rg(), r.v() == pm(self.v(), exp.v(), self.n())
@start
proof { self.rg().lemma_wf(); lemma_pm(self.v(), 0, 0, self.n()); lemma_pm(self.v(), 1, 1, self.n()); crate::modular::modulo_ring::lemma_ok(self.rw().x(), self.rg().nm(), self.rg().s());
    if let Large(b) = exp.rp() { lemma_large_big(b@); } }
@fn ModuloSmall<'a>::pow_nontrivial -> r
@rewrite `* exp >= UBig :: from_word ( 3 )` => `!matches!(exp.cmp(&UBig::from_word(3)), core::cmp::Ordering::Less)`
    requires self.wf(), exp.wf(), exp.v() >= 3
    ensures r.wf(), r.rg() == self.rg(), r.v() == pm(self.v(), exp.v(), self.n())
@start
let ghost (v, m) = (self.v(), self.n());
proof { self.rg().lemma_wf(); crate::modular::modulo_ring::lemma_ok(self.rw().x(), self.rg().nm(), self.rg().s()); }
@before `let mut n =`
proof { if exp_words@.len() == 0 { lemma_val_empty(exp_words@); } }
@before `let mut val =`
proof { assert(exp_words@.skip(n as int) =~= seq![exp_words@[n as int]]); lemma_val_one(exp_words@[n as int]); }
@loop 0
    invariant n < exp_words@.len(), self.wf(), m == self.n(), m >= 1, v == self.v(), val.wf(&self.rg()), val.v(&self.rg()) == pm(v, vv0(exp_words@.skip(n as int)), m)
    decreases n
@loopstart 0
let ghost (n0, e0) = (n as int, vv0(exp_words@.skip(n as int)));
proof { let s = exp_words@.skip(n0 - 1); lemma_val_first(s); assert(s.skip(1) =~= exp_words@.skip(n0)); let w = exp_words@[n0 - 1]; assert(s[0] == w); lemma_p2_wb(); lemma_small_mod(w as nat, B()); lemma_zz_pm(v, e0, B(), w as nat, m); let (x, y) = (e0 as int, B() as int); assert(x * y == y * x) by (nonlinear_arith); }
@tail
proof { assert(exp_words@.skip(0) =~= exp_words@); }
@mod
spec fn vv0(s: Seq<Word>) -> nat { val(s) }
@fn ModuloLarge<'a>::pow -> r
    requires self.wf(), exp.wf()
    ensures r.wf(), r.rg() == self.rg(), r.v() == pm(self.v(), exp.v(), self.n())
@start
proof { self.rg().lemma_wf(); lemma_pm(self.v(), 0, 0, self.n()); lemma_pm(self.v(), 1, 1, self.n()); crate::modular::modulo_ring::lemma_ok(val(self.ws()), self.rg().nm(), self.rg().s());
    if let Large(b) = exp.rp() { lemma_large_big(b@); } }
@fn ModuloLarge<'a>::choose_pow_window_len -> r
@rewrite `| window_size | ( 1usize << ( window_size - 1 ) ) - 1 + n / ( window_size as usize + 1 ) ;` => `|window_size: u32| -> (r: usize) requires 1 <= window_size <= 63 { proof { lemma_cost(window_size, n); } (1usize << (window_size - 1)) - 1 + n / (window_size as usize + 1) };`
@rewrite `WORD_BITS . min ( usize :: BITS )` => `u32_min(WORD_BITS, usize::BITS)`
    ensures 1 <= r, r < $BITS, r < 64
@loop 0
    invariant 1 <= window_size, window_size < $BITS, window_size < 64, forall|w: u32| 1 <= w <= 63 ==> call_requires(cost, (w,))
    decreases 64 - window_size
@mod
pub fn u32_min(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { a.min(b) }
proof fn lemma_cost(w: u32, n: usize) requires 1 <= w <= 63 ensures 1 <= (1usize << sub(w, 1)) <= 0x4000_0000_0000_0000, n as int / (w as int + 1) <= 0x8000_0000_0000_0000
{
    let s = sub(w, 1);
    assert(1 <= (1usize << s) <= 0x4000_0000_0000_0000) by (bit_vector) requires s <= 62;
    let (x, y) = (n as int, w as int + 1);
    lemma_div_is_ordered_by_denominator(x, 2, y);
}
/// the two words read at a position of exp are a slice of exp * B
proof fn lemma_two_words(ws: Seq<Word>, i: int, next: Word) -> (h: nat) requires 0 <= i < ws.len(), next == (if i == 0 { 0 as Word } else { ws[i - 1] })
    ensures (val(ws) * B()) / pw(i as nat) == next as nat + B() * (ws[i] as nat) + B() * B() * h
{
    let z = seq![0 as Word] + ws; let t = z.skip(i);
    lemma_val_first(z); assert(z.skip(1) =~= ws); lemma_val_skip_div(z, i);
    let (x, y) = (val(ws) as int, B() as int); assert(x * y == y * x) by (nonlinear_arith);
    lemma_val_first(t); lemma_val_first(t.skip(1)); assert(t[0] == next); assert(t.skip(1)[0] == ws[i]);
    let h = val(t.skip(1).skip(1));
    assert(y * (ws[i] as int + y * h) == y * ws[i] as int + y * y * h) by (nonlinear_arith);
    h
}
proof fn lemma_word_window(ws: Seq<Word>, i: int, next: Word, dw: nat, s: nat, wl: nat)
    requires 0 <= i < ws.len(), next == (if i == 0 { 0 as Word } else { ws[i - 1] }), dw == next as nat + B() * (ws[i] as nat), s + wl <= $DBITS
    ensures ((val(ws) * B()) / p2((i * $BITS + s) as nat)) % p2(wl) == (dw / p2(s)) % p2(wl)
{
    let h = lemma_two_words(ws, i, next); let x = val(ws) * B();
    lemma_pw_p2(i as nat); lemma_p2_add((i * $BITS) as nat, s); lemma_pw_pos(i as nat); lemma_p2_pos(s); lemma_p2_pos(wl); lemma_p2_wb();
    assert(x >= 0 as int) by (nonlinear_arith) requires x == val(ws) * B();
    lemma_div_denominator(x as int, pw(i as nat) as int, p2(s) as int);
    let k = ($DBITS - s - wl) as nat; lemma_p2_add(k + wl, s); lemma_p2_add(k, wl);
    let (p, q, r, hh, b2) = (p2(s) as int, p2(wl) as int, p2(k) as int, h as int, (B() * B()) as int);
    assert(b2 == (r * q) * p);
    assert(b2 * hh == p * (r * q * hh)) by (nonlinear_arith) requires b2 == (r * q) * p;
    lemma_hoist_over_denominator(dw as int, r * q * hh, p as nat);
    assert(p * (r * q * hh) == (r * q * hh) * p) by (nonlinear_arith);
    let c = dw as int / p;
    assert(r * q * hh == q * (r * hh)) by (nonlinear_arith);
    lemma_mod_multiples_vanish(r * hh, c, q);
}
/// x / (a * b) for powers of two
proof fn lemma_dd(x: nat, a: nat, b: nat) ensures x / p2(a + b) == (x / p2(a)) / p2(b), p2(a) >= 1, p2(b) >= 1, p2(a + b) == p2(a) * p2(b)
{ lemma_p2_add(a, b); lemma_p2_pos(a); lemma_p2_pos(b); lemma_div_denominator(x as int, p2(a) as int, p2(b) as int); }
/// (q * h + r) / q
proof fn lemma_shave(q: nat, h: nat, r: nat) requires q >= 1, r < q ensures (q * h + r) / q == h, (q * h + r) % q == r
{ let (a, b) = (q as int, h as int); assert(a * b == b * a) by (nonlinear_arith); lemma_quot((q * h + r) as nat, h, q, r); }
pub open spec fn wnd(e: nat, bit: nat, wl: nat, nb: nat, w: nat) -> bool {
    1 <= nb <= wl && nb <= bit + 1 && w < p2(nb) && w % 2 == 1 && e / p2((bit + 1 - nb) as nat) == (e / p2(bit + 1)) * p2(nb) + w
}
/// The window below a set bit, without its trailing zeros, is an odd slice of the exponent that ends inside it.
proof fn lemma_window(e: nat, bt: nat, wl: nat, w0: nat)
    requires 1 <= wl < $BITS, bit(e as int, bt), w0 == ((e * B()) / p2((bt + 1 + $BITS - wl) as nat)) % p2(wl)
    ensures w0 > 0, w0 < p2(wl), forall|t: nat| #[trigger] is_tz(w0 as int, t) ==> t < wl && wnd(e, bt, wl, (wl - t) as nat, w0 / p2(t))
{
    let x = e * B(); let q = (bt + 1 + $BITS - wl) as nat; let y = x / p2(q); let h = e / p2(bt + 1);
    lemma_p2_wb();
    lemma_dd(x, $BITS, bt + 1); lemma_dd(x, q, wl); lemma_div_multiples_vanish(e as int, B() as int);
    assert(e * B() == B() * e) by (nonlinear_arith);
    assert($BITS + (bt + 1) == q + wl);
    assert(y / p2(wl) == h);
    lemma_fundamental_div_mod(y as int, p2(wl) as int); lemma_mod_bound(y as int, p2(wl) as int);
    assert(y == p2(wl) * h + w0);
    // the top bit of the window is the bit of e
    let l = (wl - 1) as nat; lemma_dd(x, q, l); lemma_dd(x, $BITS, bt); assert(q + l == $BITS + bt);
    assert(y / p2(l) == e / p2(bt)); lemma_p2_pos(l); assert(p2(wl) == 2 * p2(l));
    if w0 == 0 {
        let (a, b) = (p2(l) as int, h as int); assert((2 * a) * b == a * (2 * b)) by (nonlinear_arith); lemma_shave(p2(l), 2 * h, 0);
        assert(false);
    }
    assert forall|t: nat| #[trigger] is_tz(w0 as int, t) implies t < wl && wnd(e, bt, wl, (wl - t) as nat, w0 / p2(t)) by {
        lemma_tz_facts_nat(w0, t);
        let c = w0 / p2(t); lemma_p2_pos(t);
        lemma_fundamental_div_mod(w0 as int, p2(t) as int);
        assert(w0 == p2(t) * c);
        if t >= wl { lemma_p2_mono(wl, t); let (a, b) = (p2(t) as int, c as int); assert(a * b >= a) by (nonlinear_arith) requires b >= 1, a >= 1; }
        let nb = (wl - t) as nat; lemma_p2_add(nb, t); lemma_p2_pos(nb);
        let (a, b, k, hh) = (p2(t) as int, c as int, p2(nb) as int, h as int);
        assert(b < k) by (nonlinear_arith) requires a * b < k * a, a >= 1;
        assert(y as int == a * (k * hh + b)) by (nonlinear_arith) requires y == (k * a) * hh + a * b;
        assert(k * hh >= 0) by (nonlinear_arith) requires k >= 0, hh >= 0;
        let g = (k * hh + b) as nat;
        lemma_shave(p2(t), g, 0); assert(y / p2(t) == g);
        assert(p2(nb) == 2 * p2((nb - 1) as nat)); let k2 = p2((nb - 1) as nat) as int;
        assert(k * hh == 2 * (k2 * hh)) by (nonlinear_arith) requires k == 2 * k2;
        assert(g % 2 == 1);
        lemma_dd(x, q, t);
        if nb > bt + 1 {
            // the window reaches below bit 0, where there are only zeros
            let m = ($BITS - q - t - 1) as nat; lemma_p2_add(m + 1, q + t); lemma_p2_pos(q + t);
            assert(p2(m + 1) == 2 * p2(m));
            let (u, w, z) = (e as int, p2(m) as int, p2(q + t) as int);
            assert(x as int == z * (2 * (u * w))) by (nonlinear_arith) requires x == u * ((2 * w) * z);
            assert(u * w >= 0) by (nonlinear_arith) requires u >= 0, w >= 0;
            lemma_shave(p2(q + t), (2 * (u * w)) as nat, 0);
            assert(false);
        }
        lemma_dd(x, $BITS, (bt + 1 - nb) as nat); assert(q + t == $BITS + (bt + 1 - nb));
        assert(h * p2(nb) == k * hh) by (nonlinear_arith) requires k == p2(nb), hh == h;
    }
}
proof fn lemma_tz_facts_nat(v: nat, k: nat) requires is_tz(v as int, k) ensures v % p2(k) == 0, (v / p2(k)) % 2 == 1, v > 0 { crate::gcd::lemma_tz_facts(v, k); }
/// table of odd powers: entry j (1 <= j) holds v^(2j+1)
pub(crate) open spec fn table_ok(t: Seq<Word>, k: nat, v: nat, ring: &ModuloRingLarge) -> bool {
    let n = ring.nms().len() as int;
    forall|j: int| 1 <= j < k ==> words_ok(#[trigger] slot(t, j, n), ring) && val(slot(t, j, n)) / ring.s() == pm(v, (2 * j + 1) as nat, ring.n())
}
pub open spec fn slot(t: Seq<Word>, j: int, n: int) -> Seq<Word> { t.subrange((j - 1) * n, j * n) }
proof fn lemma_slot(j: int, n: int, k: int, len: int) requires 1 <= j < k, n >= 1, len == (k - 1) * n ensures 0 <= (j - 1) * n, (j - 1) * n + n == j * n, j * n <= len, (j - 2) * n + 2 * n == j * n, forall|a: int, b: int| 1 <= a < b ==> #[trigger] (a * n) <= #[trigger] ((b - 1) * n)
{
    assert(0 <= (j - 1) * n && (j - 1) * n + n == j * n && (j - 2) * n + 2 * n == j * n && j * n <= (k - 1) * n) by (nonlinear_arith) requires 1 <= j < k, n >= 1;
    assert forall|a: int, b: int| 1 <= a < b implies #[trigger] (a * n) <= #[trigger] ((b - 1) * n) by { assert(a * n <= (b - 1) * n) by (nonlinear_arith) requires a <= b - 1, n >= 1; }
}
proof fn lemma_table(t0: Seq<Word>, c: Seq<Word>, i: int, k: int, v: nat, ring: &ModuloRingLarge)
    requires 1 <= i < k, ring.nms().len() >= 1, t0.len() == (k - 1) * ring.nms().len(), table_ok(t0, i as nat, v, ring), words_ok(c, ring), val(c) / ring.s() == pm(v, (2 * i + 1) as nat, ring.n())
    ensures table_ok(t0.take((i - 1) * ring.nms().len()) + c + t0.skip(i * ring.nms().len()), (i + 1) as nat, v, ring)
{
    let n = ring.nms().len() as int; let t1 = t0.take((i - 1) * n) + c + t0.skip(i * n);
    lemma_slot(i, n, k, t0.len() as int);
    assert forall|j: int| 1 <= j < i + 1 implies words_ok(#[trigger] slot(t1, j, n), ring) && val(slot(t1, j, n)) / ring.s() == pm(v, (2 * j + 1) as nat, ring.n()) by {
        lemma_slot(j, n, k, t0.len() as int);
        if j < i { assert((j * n) <= ((i - 1) * n)); assert(slot(t1, j, n) =~= slot(t0, j, n)); } else { assert(slot(t1, j, n) =~= c); }
    }
}
@fn ModuloLarge<'a>::pow_nontrivial -> r
@rewrite `* exp >= UBig :: from_word ( 2 )` => `!matches!(exp.cmp(&UBig::from_word(2)), core::cmp::Ordering::Less)`
@rewrite `( ( 1usize << ( window_len - 1 ) ) - 1 ) . checked_mul ( n ) . unwrap_or_else ( | | memory :: panic_out_of_memory ( ) )` => `match ((1usize << (window_len - 1)) - 1).checked_mul(n) { Some(x) => x, None => memory::panic_out_of_memory() }`
@rewrite `math :: ones :: < Word > (` => `math::ones_gw(`
    requires self.wf(), exp.wf(), exp.v() >= 2
    ensures r.wf(), r.rg() == self.rg(), r.v() == pm(self.v(), exp.v(), self.n())
@start
let ghost (v, m, e, ring) = (self.v(), self.n(), exp.v(), self.rg());
proof { ring.lemma_wf(); crate::modular::modulo_ring::lemma_ok(val(self.ws()), ring.nm(), ring.s()); }
@before `let table_words`
let ghost kk = p2((window_len - 1) as nat) as int;
proof { lemma_us(window_len); assert(n as int == ring.nms().len()); }
@before `let mut val = self . clone`
proof { lemma_pm(v, 1, 1, m); assert(table@.len() == (kk - 1) * n); }
@loop 0 it
    invariant kk == p2((window_len - 1) as nat), it.snapshot.end == kk, table@.len() == (kk - 1) * n, table@.len() <= usize::MAX, n == ring.nms().len(), n >= 2, ring.wf(), ring == self.rg(), self.wf(), v == self.v(), m == ring.n(), val.wf(), val.rg() == ring, val.v() == pm(v, 2, m), m >= 1, v < m,
        memory.cap() >= mmem(n as nat), table_ok(table@, i as nat, v, &ring)
@loopstart 0
let ghost t0 = table@;
proof { lemma_slot(i as int, n as int, kk, t0.len() as int); if i > 1 { lemma_slot(i - 1, n as int, kk, t0.len() as int); } lemma_pm(v, (2 * (i as int - 1) + 1) as nat, 2, m); lemma_pm(v, 1, 1, m); }
@before `cur . copy_from_slice`
proof { if i > 1 { assert(prev@ =~= slot(t0, i - 1, n as int)); } }
@after `cur . copy_from_slice ( self . ring ( ) . mul_normalized ( prev , val . normalized_value ( ) , & mut memory , ) ) ;`
let ghost c1 = cur@;
@loopend 0
proof {
    let (lo, hi) = ((i - 1) * n, i * n);
    assert(table@ =~= t0.take(lo) + c1 + t0.skip(hi));
    lemma_table(t0, c1, i as int, kk, v, &ring);
}
@after `let mut bit = exp . bit_len ( ) - 2 ;`
proof { lemma_init(e, exp_words@, (bit + 2) as nat); }
@loop 1
    invariant_except_break val.v() == pm(v, 2 * (e / p2((bit + 1) as nat)), m),
    invariant self.wf(), kk == p2((window_len - 1) as nat), 1 <= window_len < $BITS, table@.len() == (kk - 1) * n, table@.len() <= usize::MAX, n == ring.nms().len(), n >= 2, ring.wf(), ring == self.rg(), v == self.v(), m == ring.n(), m >= 1, v < m,
        val.wf(), val.rg() == ring, memory.cap() >= mmem(n as nat), table_ok(table@, kk as nat, v, &ring), e == crate::vp_math::val(exp_words@), bit < exp_words@.len() * $BITS
    ensures val.wf(), val.rg() == ring, val.v() == pm(v, e, m)
    decreases bit
@loopstart 1
let ghost (bt, h) = (bit as nat, e / p2((bit + 1) as nat));
proof { lemma_step(e, bt); }
@before `if cur_word & ( 1 << bit_idx )`
proof { lemma_bit_words(exp_words@, bt); lemma_wbit(cur_word, bit_idx); }
@before `let ( mut window , _ ) =`
let ghost sh = (bit_idx + 1 + $BITS - window_len) as nat;
let ghost dw = next_word as nat + B() * cur_word as nat;
proof { lemma_word_window(exp_words@, word_idx as int, next_word, dw, sh, window_len as nat); lemma_wi(bt, word_idx as int, bit_idx as int, window_len as int, sh); lemma_shr_dw_all(); }
@after `window &= math :: ones :: < Word > ( window_len ) ;`
let ghost w0 = window;
proof { lemma_low_mask((dw / p2(sh)) as nat, window_len, w0); lemma_window(e, bt, window_len as nat, w0 as nat); lemma_tz(w0); lemma_shr_div(w0, tzs(w0) as u32); }
let ghost nbg = (window_len - tzs(w0)) as nat;
@loop 2 it
    invariant it.snapshot.end == num_bits - 1, 1 <= num_bits <= $BITS, val.wf(), val.rg() == ring, n == ring.nms().len(), ring.wf(), memory.cap() >= mmem(n as nat), m == ring.n(), m >= 1, val.v() == pm(v, 2 * h * p2(it.index@ as nat), m)
@loopbefore 2
proof { assert(p2(0) == 1); assert(2 * h * 1 == 2 * h); }
@loopstart 2
proof { let k = it.index@ as nat; lemma_pm(v, 2 * h * p2(k), 2 * h * p2(k), m); assert(p2(k + 1) == 2 * p2(k)); let (a, b) = (h as int, p2(k) as int); assert(2 * a * b + 2 * a * b == 2 * a * (2 * b)) by (nonlinear_arith); }
@before `debug_assert ! ( window & 1 == 1 )`
proof {
    assert(window & 1 == 1) by (bit_vector) requires window % 2 == 1; assert(window >> 1 == window / 2) by (bit_vector);
    lemma_p2_mono(nbg, window_len as nat); assert(p2(window_len as nat) == 2 * kk); 
    assert(p2(nbg) == 2 * p2((nbg - 1) as nat)); let (a, b) = (h as int, p2((nbg - 1) as nat) as int); assert(2 * a * b == a * (2 * b)) by (nonlinear_arith);
    lemma_pm(v, h * p2(nbg), window as nat, m); lemma_pm(v, 1, 1, m);
    if window / 2 > 0 { lemma_slot((window / 2) as int, n as int, kk, table@.len() as int); }
}
@before `val . mul_normalized_in_place`
proof { if entry_idx > 0 { assert(entry@ =~= slot(table@, entry_idx as int, n as int)); } }
@before `if bit == 0`
proof { assert(val.v() == pm(v, e / p2(bit as nat), m)); assert(p2(0) == 1); lemma_div_basics(e as int); let g = e / p2(bit as nat); lemma_pm(v, g, g, m); }
@mod
proof fn lemma_us(w: u32) requires 1 <= w < 64 ensures (1usize << sub(w, 1)) as nat == p2((w - 1) as nat), (1usize << sub(w, 1)) >= 1 { crate::pow::lemma_bit_us(0, (w - 1) as u32); lemma_p2_pos((w - 1) as nat); }
proof fn lemma_init(e: nat, ws: Seq<Word>, l: nat) requires e == val(ws), e >= 2, is_bit_len(e, l) ensures l >= 2, e / p2((l - 1) as nat) == 1, l - 1 <= ws.len() * $BITS, l - 2 < ws.len() * $BITS
{
    assert(p2(0) == 1 && p2(1) == 2) by { reveal_with_fuel(p2, 3); }
    lemma_top(e, l); lemma_val_bound(ws); lemma_pw_p2(ws.len());
    if l - 1 >= ws.len() * $BITS { lemma_p2_mono(ws.len() * $BITS, (l - 1) as nat); }
}
proof fn lemma_wi(bt: nat, i: int, j: int, wl: int, s: nat) requires i == bt / $BITS, j == bt % $BITS, s == j + 1 + $BITS - wl ensures i * $BITS + s == bt + 1 + $BITS - wl, bt == i * $BITS + j { lemma_fundamental_div_mod(bt as int, $BITS); }
proof fn lemma_shr_dw(x: $DW, p: u32) requires p < $DBITS ensures (x >> p) as nat == x as nat / p2(p as nat) decreases p
{
    if p == 0 { assert(x >> 0u32 == x) by (bit_vector); lemma_div_basics(x as int); assert(p2(0) == 1); }
    else {
        let q = (p - 1) as u32; lemma_shr_dw(x, q); lemma_p2_pos(q as nat); let y = x >> q;
        assert(x >> p == y / 2) by (bit_vector) requires 0 < p < $DBITS, q == sub(p, 1), y == x >> q;
        assert(p2(p as nat) == 2 * p2(q as nat)); lemma_div_denominator(x as int, p2(q as nat) as int, 2); assert(p2(q as nat) * 2 == p2(p as nat));
    }
}
proof fn lemma_shr_dw_all() ensures forall|x: $DW, p: u32| p < $DBITS ==> (#[trigger] (x >> p)) as nat == x as nat / p2(p as nat) { assert forall|x: $DW, p: u32| p < $DBITS implies (#[trigger] (x >> p)) as nat == x as nat / p2(p as nat) by { lemma_shr_dw(x, p); } }
/// the low bits of the low word
proof fn lemma_low_mask(d: nat, wl: u32, w: Word) requires 1 <= wl < $BITS, exists|x: Word| x as nat == d % B() && w == #[trigger] (x & sub(1$W << wl, 1)) ensures w as nat == d % p2(wl as nat)
{
    let x = choose|x: Word| x as nat == d % B() && w == #[trigger] (x & sub(1$W << wl, 1)); lemma_mask_mod(x, wl); lemma_p2_wb();
    let k = ($BITS - wl) as nat; lemma_p2_add(k, wl as nat); lemma_p2_pos(wl as nat); lemma_p2_pos(k);
    let (p, q) = (p2(wl as nat) as int, p2(k) as int); assert(p * q == q * p) by (nonlinear_arith);
    lemma_mod_mod(d as int, p, q);
}
@fn Modulo<'a>::pow -> r
@rewrite `self_small . pow ( exp ) . into ( )` => `Modulo::from(self_small.pow(exp))`
@rewrite `self_large . pow ( exp ) . into ( )` => `Modulo::from(self_large.pow(exp))`
    requires self.wf(), exp.wf()
    ensures r.wf(), r.n() == self.n(), r.v() == pm(self.v(), exp.v(), self.n())
@fn Modulo<'a>::pow_signed -> r
@panics exp.v() < 0 && !invertible(self.v(), self.n())
    requires self.wf(), exp.wf()
    ensures r.wf(), r.n() == self.n(), exp.v() >= 0 ==> r.v() == pm(self.v(), exp.v() as nat, self.n()),
        // the inverse of the positive power
        exp.v() < 0 ==> rem((r.v() * pm(self.v(), (-exp.v()) as nat, self.n())) as int, self.n()) == rem(1, self.n())
@start
proof { self.lemma_wf(); if exp.v() < 0 { lemma_inv_pow(self.v(), (-exp.v()) as nat, self.n()); } }
@mod
use crate::modular::div::{invertible, inverts};
/// the power of an inverse is an inverse of the power
proof fn lemma_inv_pow(v: nat, e: nat, n: nat) requires n >= 1
    ensures forall|i: nat| #[trigger] inverts(i, v, n) ==> rem((pm(i, e, n) * pm(v, e, n)) as int, n) == rem(1, n)
{
    assert forall|i: nat| #[trigger] inverts(i, v, n) implies rem((pm(i, e, n) * pm(v, e, n)) as int, n) == rem(1, n) by {
        let (a, b) = (i as int, v as int);
        lemma_rem_mul(pow(a, e), pow(b, e), n);
        lemma_pow_distributes(a, b, e);
        lemma_pow_mod_noop(a * b, e, n as int); lemma_pow_mod_noop(1, e, n as int); lemma1_pow(e);
        lemma_mod_bound(a * b, n as int); lemma_mod_bound(1, n as int);
        assert((a * b) % (n as int) == 1int % (n as int));
    }
}
@file modular/div.rs
@mod
use crate::vp_math::*;
use crate::modular::modulo_ring::rem;
use crate::gcd::*;
use vstd::arithmetic::div_mod::*;
use core::ops::Mul;
/// i is an inverse of v modulo n
pub open spec fn inverts(i: nat, v: nat, n: nat) -> bool { rem((i * v) as int, n) == rem(1, n) }
/// v has an inverse modulo n (n = 1 included: everything is 0 there)
pub open spec fn invertible(v: nat, n: nat) -> bool { is_gcd(1, v as int, n as int) }
/// Bezout coefficients give the inverse.
proof fn lemma_inverse(v: nat, n: nat, g: nat, x: int, y: int)
    requires n >= 1, v < n, is_gcd(g, v as int, n as int), g == x * v + y * n
    ensures g == 1 ==> invertible(v, n) && inverts(rem(x, n), v, n) && inverts(rem(rem(x, n) as int, n), v, n), g != 1 ==> !invertible(v, n), 0 <= rem(x, n) < n, rem(rem(x, n) as int, n) == rem(x, n)
{
    let m = n as int; lemma_mod_bound(x, m); lemma_small_mod(rem(x, n), n);
    if g == 1 {
        lemma_mul_mod_noop_left(x, v as int, m);
        lemma_mod_multiples_vanish(-y, 1, m);
        assert(x * v == 1 + m * (-y)) by (nonlinear_arith) requires 1 == x * v + y * n, m == n;
        assert(m * (-y) + 1 == x * v);
        assert((rem(x, n) * v) as int == rem(x, n) as int * v as int);
    } else {
        // another gcd would divide and be divided by 1
        assert(cd(g, v as int, n as int) == dv(g, g as int)); lemma_mod_self_0(g as int);
        if is_gcd(1, v as int, n as int) { assert(cd(g, v as int, n as int) == dv(g, 1)); lemma_small_mod(1, g); }
    }
}
proof fn lemma_div_back(a: nat, i: nat, b: nat, n: nat) requires n >= 1, a < n, inverts(i, b, n) ensures rem((rem((a * i) as int, n) * b) as int, n) == a
{
    let m = n as int; let (x, y, z) = (a as int, i as int, b as int);
    lemma_mod_bound(x * y, m);
    lemma_mul_mod_noop_left(x * y, z, m);
    assert((x * y) * z == x * (y * z)) by (nonlinear_arith);
    lemma_mul_mod_noop_right(x, y * z, m); lemma_mul_mod_noop_right(x, 1, m); lemma_small_mod(a, n);
    lemma_mod_bound(y * z, m); lemma_mod_bound(1, m);
    assert((y * z) % m == 1int % m);
    assert(x * 1 == x);
}
@fn Modulo<'a>::inverse -> r
@rewrite `self_small . inverse ( ) . map ( Into :: into )` => `match self_small.inverse() { Some(x) => Some(Modulo::from(x)), None => None }`
@rewrite `self_large . inverse ( ) . map ( Into :: into )` => `match self_large.inverse() { Some(x) => Some(Modulo::from(x)), None => None }`
    requires self.wf()
    ensures match r { Some(i) => i.wf() && i.n() == self.n() && inverts(i.v(), self.v(), self.n()) && invertible(self.v(), self.n()), None => !invertible(self.v(), self.n()) }
@fn ModuloSmall<'a>::inverse -> r
@rewrite `let ( gcd , x , _ ) =` => `let (gcd, x, vp_y) =`
@rewrite `x . rem_euclid ( IBig :: from ( b ) ) . try_into ( ) . unwrap ( )` => `$W::try_from(x.rem_euclid(IBig::from(b))).unwrap()`
    requires self.wf()
    ensures match r { Some(i) => i.wf() && i.n() == self.n() && inverts(i.v(), self.v(), self.n()) && invertible(self.v(), self.n()), None => !invertible(self.v(), self.n()) }
@start
broadcast use crate::ubig::lemma_eq;
proof { self.rg().lemma_wf(); crate::modular::modulo_ring::lemma_ok(self.rw().x(), self.rg().nm(), self.rg().s()); }
@before `if gcd == UBig`
proof { lemma_inverse(self.v(), self.n(), gcd.v(), x.v(), vp_y.v()); }
@fn ModuloLarge<'a>::inverse -> r
@rewrite `let ( gcd , x , _ ) =` => `let (gcd, x, vp_y) =`
@rewrite `x . rem_euclid ( IBig :: from ( b ) ) . try_into ( ) . unwrap ( )` => `crate::convert::ubig_try_from_ibig(x.rem_euclid(IBig::from(b))).unwrap()`
    requires self.wf()
    ensures match r { Some(i) => i.wf() && i.n() == self.n() && inverts(i.v(), self.v(), self.n()) && invertible(self.v(), self.n()), None => !invertible(self.v(), self.n()) }
@start
broadcast use crate::ubig::lemma_eq;
proof { self.rg().lemma_wf(); crate::modular::modulo_ring::lemma_ok(val(self.ws()), self.rg().nm(), self.rg().s()); }
@before `if gcd == UBig`
proof { lemma_inverse(self.v(), self.n(), gcd.v(), x.v(), vp_y.v()); }
@for $T $V in Modulo<'a>,Modulo<'a> Modulo<'a>,&Modulo<'a> &Modulo<'a>,Modulo<'a>
@fn Div<$V> for $T::div -> r
@panics !invertible(rhs.v(), rhs.n())
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures r.wf(), r.n() == self.n(), r.n() == rhs.n(), rem((r.v() * rhs.v()) as int, r.n()) == self.v()
@endfor
@fn Div<&Modulo<'a>> for &Modulo<'a>::div -> r
@rewrite `self * inv_rhs` => `self.mul(inv_rhs)`
@panics !invertible(rhs.v(), rhs.n())
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures r.wf(), r.n() == self.n(), r.n() == rhs.n(), rem((r.v() * rhs.v()) as int, r.n()) == self.v()
@start
proof { self.lemma_wf(); rhs.lemma_wf(); assert forall|i: nat| #[trigger] inverts(i, rhs.v(), rhs.n()) && self.n() == rhs.n() implies rem((rem((self.v() * i) as int, rhs.n()) * rhs.v()) as int, rhs.n()) == self.v() by { lemma_div_back(self.v(), i, rhs.v(), rhs.n()); } }
@for $V in Modulo<'a> &Modulo<'a>
@fn DivAssign<$V> for Modulo<'a>::div_assign
@panics !invertible(rhs.v(), rhs.n())
@pre self.wf() && rhs.wf() && crate::vp_std::may_panic()
    ensures final(self).wf(), final(self).n() == old(self).n(), rhs.n() == old(self).n(), rem((final(self).v() * rhs.v()) as int, rhs.n()) == old(self).v()
@endfor
