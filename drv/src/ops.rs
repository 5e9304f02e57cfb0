//! The operations, their generators and what they must return.
use crate::fw::*;
use refnum::{N, Z};
use ibig::ops::*;
use ibig::{IBig, ModuloRing, UBig};
use std::cmp::Ordering;

fn two(g: &mut G) -> Vec<A> {
    let (a, b) = g.pair();
    vec![A::N(a), A::N(b)]
}
/// A rare long sparse number (runs of equal words over thousands of words), where unit costs allow it.
fn sparse(g: &mut G) -> N {
    let k = if W == 16 { g.below(30000) } else { match g.below(8) { 7 if g.chance(30) => (1 << 22) + g.below(1 << 21), 0 => g.below(1 << 21), 1 => (1 << g.below(21)) + g.below(130), _ => g.below(1 << 17) } };
    let b = N::one().shl(k);
    match g.below(5) {
        0 => b,
        1 => b.sub(&N::one()),
        2 => b.add(&N::one()),
        3 => { let l = g.len(4); b.add(&g.words(l)) }
        _ => b.add(&N::one().shl(g.below(k + 1))),
    }
}
fn rare(g: &mut G) -> bool {
    g.below(400) == 0
}
fn two_s(g: &mut G) -> Vec<A> {
    if !rare(g) { return two(g); }
    let a = sparse(g);
    let b = match g.below(6) { 0 => sparse(g), 1 => a.add(&N::one()), 2 => { let k = a.bit_len(); N::one().shl(k - 1) } 3 => { let l = g.len(4); a.add(&g.words(l)) } _ => { let l = g.len(4); g.words(l) } };
    if g.chance(50) { vec![A::N(a), A::N(b)] } else { vec![A::N(b), A::N(a)] }
}
fn twoz(g: &mut G) -> Vec<A> {
    let (a, b) = g.pair();
    let (s, t) = (g.chance(50), g.chance(50));
    vec![A::Z(Z::new(s, a)), A::Z(Z::new(t, b))]
}

/// All ownership variants of a binary operator, then the assigning ones.
macro_rules! all_variants {
    ($lbl:expr, $mk:ident, $mkt:ident, $a:expr, $b:expr, $op:tt, $opa:tt, $chk:expr) => {{
        let (a, b) = ($mk($a), $mk($b));
        let (at, bt) = (|| $mkt($a), || $mkt($b));
        $chk(concat!($lbl, " ref ref"), catch(|| &a $op &b));
        $chk(concat!($lbl, " val ref"), catch(|| a.clone() $op &b));
        $chk(concat!($lbl, " ref val"), catch(|| &a $op b.clone()));
        $chk(concat!($lbl, " val val"), catch(|| a.clone() $op b.clone()));
        $chk(concat!($lbl, " tight ref"), catch(|| at() $op &b));
        $chk(concat!($lbl, " ref tight"), catch(|| &a $op bt()));
        $chk(concat!($lbl, " tight tight"), catch(|| at() $op bt()));
        $chk(concat!($lbl, " val tight"), catch(|| a.clone() $op bt()));
        $chk(concat!($lbl, " tight val"), catch(|| at() $op b.clone()));
        $chk(concat!($lbl, " assign val"), catch(|| { let mut x = at(); x $opa b.clone(); x }));
        $chk(concat!($lbl, " assign ref"), catch(|| { let mut x = a.clone(); x $opa &b; x }));
    }};
}

macro_rules! all_methods {
    ($lbl:expr, $mk:ident, $mkt:ident, $a:expr, $b:expr, $m:ident, $chk:expr) => {{
        let (a, b) = ($mk($a), $mk($b));
        $chk(concat!($lbl, " ref ref"), catch(|| (&a).$m(&b)));
        $chk(concat!($lbl, " val ref"), catch(|| a.clone().$m(&b)));
        $chk(concat!($lbl, " ref val"), catch(|| (&a).$m(b.clone())));
        $chk(concat!($lbl, " val val"), catch(|| a.clone().$m(b.clone())));
        $chk(concat!($lbl, " tight tight"), catch(|| $mkt($a).$m($mkt($b))));
    }};
}

// ------------------------------------------------------------------ C01
fn add_u(a: &[A]) {
    let r = a[0].n().add(a[1].n());
    all_variants!("+", ub, ub_tight, a[0].n(), a[1].n(), +, +=, |l: &str, x| wantn::<UBig>(l, x, &r));
}
fn sub_u(a: &[A]) {
    let (x, y) = (a[0].n(), a[1].n());
    if x.lt(y) {
        all_variants!("-", ub, ub_tight, x, y, -, -=, |l: &str, x| want_panic::<UBig>(l, x));
    } else {
        let r = x.sub(y);
        all_variants!("-", ub, ub_tight, x, y, -, -=, |l: &str, x| wantn::<UBig>(l, x, &r));
    }
}
fn add_i(a: &[A]) {
    let r = a[0].z().add(a[1].z());
    all_variants!("+", ib, ib_tight, a[0].z(), a[1].z(), +, +=, |l: &str, x| want::<IBig>(l, x, &r));
}
fn sub_i(a: &[A]) {
    let r = a[0].z().sub(a[1].z());
    all_variants!("-", ib, ib_tight, a[0].z(), a[1].z(), -, -=, |l: &str, x| want::<IBig>(l, x, &r));
}
fn neg_i(a: &[A]) {
    let z = a[0].z();
    let x = ib(z);
    want("neg val", catch(|| -x.clone()), &z.neg());
    want("neg ref", catch(|| -&x), &z.neg());
    let abs = Z::nat(&z.mag);
    want("abs val", catch(|| x.clone().abs()), &abs);
    want("abs ref", catch(|| (&x).abs()), &abs);
    want("unsigned_abs val", catch(|| x.clone().unsigned_abs()), &abs);
    want("unsigned_abs ref", catch(|| (&x).unsigned_abs()), &abs);
    let s = if z.is_zero() { 0 } else if z.neg { -1 } else { 1 };
    want("signum", catch(|| x.signum()), &Z::from_i128(s));
}
fn carry_chain(g: &mut G) -> Vec<A> {
    // a + b with long carry chains: low parts complementary
    let n = 1 + g.len(g.max);
    let k = g.below(n) + 1;
    let a = g.words(n);
    let m = N::one().shl(k * WB);
    let lo = a.divrem(&m).1;
    let hi = g.below(3);
    let hi = g.words(hi);
    let b = m.sub(&lo).add(&hi.shl(k * WB));
    let b = if g.chance(30) && !b.is_zero() { b.sub(&N::one()) } else { b };
    let ones = if n > k { N::one().shl((n - k) * WB).sub(&N::one()).shl(k * WB) } else { N::zero() };
    let a = if g.chance(60) { lo.add(&ones) } else { a };
    if g.chance(50) {
        vec![A::N(a), A::N(b)]
    } else {
        vec![A::N(a.add(&b)), A::N(b)]
    }
}
fn zz(f: fn(&mut G) -> Vec<A>, g: &mut G) -> Vec<A> {
    f(g).into_iter()
        .map(|x| {
            let s = g.chance(50);
            A::Z(Z::new(s, x.n().clone()))
        })
        .collect()
}

// ------------------------------------------------------------------ C02
fn mul_gen(g: &mut G) -> Vec<A> {
    let lens: &[usize] = &[
        0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 12, 16, 23, 24, 25, 26, 27, 30, 33, 40, 47, 48, 49, 50, 51, 63, 64, 65, 73, 90, 96, 97, 100,
        120, 129, 150, 170, 191, 192, 193, 194, 195, 196, 197, 200, 210, 230, 260, 300, 385, 400, 577, 600, 640, 700,
    ];
    let t = if W == 64 { 50 } else { lens.len() };
    let p = if g.chance(70) { 35 } else { t };
    let (la, mut lb) = (g.pick(&lens[..p]), g.pick(&lens[..p]));
    match g.below(10) {
        0 | 1 => lb = la,
        2 => lb = la + g.below(3),
        3 => lb = la * (1 + g.below(5)) + g.below(2),
        4 if W == 16 => lb = (1000 + g.below(1200)).min(3000),
        5 => lb = g.below(4),
        _ => {}
    }
    if la > 200 && lb > 700 && W == 64 {
        lb = 200 + lb % 500;
    }
    let a = g.words(la.min(2000));
    let b = if la == lb && g.chance(20) { a.clone() } else { g.words(lb.min(2000)) };
    if g.chance(50) {
        vec![A::N(a), A::N(b)]
    } else {
        vec![A::N(b), A::N(a)]
    }
}
fn mul_u(a: &[A]) {
    let r = a[0].n().mul(a[1].n());
    if a[0].n().bit_len() + a[1].n().bit_len() > 20 * WB {
        let (x, y) = (ub(a[0].n()), ub(a[1].n()));
        wantn("* ref ref", catch(|| &x * &y), &r);
        wantn("*= ref", catch(|| { let mut t = ub_tight(a[0].n()); t *= &y; t }), &r);
        return;
    }
    all_variants!("*", ub, ub_tight, a[0].n(), a[1].n(), *, *=, |l: &str, x| wantn::<UBig>(l, x, &r));
}
fn mul_i(a: &[A]) {
    let r = a[0].z().mul(a[1].z());
    if a[0].n().bit_len() + a[1].n().bit_len() > 20 * WB {
        let (x, y) = (ib(a[0].z()), ib(a[1].z()));
        want("* ref ref", catch(|| &x * &y), &r);
        return;
    }
    all_variants!("*", ib, ib_tight, a[0].z(), a[1].z(), *, *=, |l: &str, x| want::<IBig>(l, x, &r));
}

// ------------------------------------------------------------------ C03 / C04
fn div_gen(g: &mut G) -> Vec<A> {
    let lens: &[usize] = &[1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8, 10, 15, 20, 30, 31, 32, 33, 34, 35, 40, 48, 63, 64, 65, 66, 80, 100, 130, 150, 200];
    let t = if g.chance(75) { 20 } else { lens.len() };
    let lb = g.pick(&lens[..t]);
    let lq = match g.below(6) {
        0 => 1,
        1 => lb,
        2 => lb + g.below(3),
        3 => g.below(lb + 1),
        _ => g.pick(&lens[..t]),
    };
    let b = g.words(lb);
    let b = if b.is_zero() { N::one() } else { b };
    // structured dividends reach the rare correction steps
    let a = match g.below(6) {
        0 => g.words(lb + lq),
        1 => {
            let q = g.words(lq);
            q.mul(&b)
        }
        2 => {
            let q = g.words(lq);
            q.mul(&b).add(&b).sub(&N::one())
        }
        3 => {
            let q = g.words(lq);
            let r = g.nat().divrem(&b).1;
            q.mul(&b).add(&r)
        }
        4 => {
            let q = g.words(lq);
            let x = q.mul(&b);
            if x.is_zero() { x } else { x.sub(&N::one()) }
        }
        _ => {
            // top words equal to the divisor's
            let x = b.shl(lq * WB);
            let y = g.words(lq);
            let z = x.add(&y);
            let e = g.words(lq.saturating_sub(1));
            if z.lt(&e) { z } else if g.chance(50) { z.sub(&e) } else { z }
        }
    };
    vec![A::N(a), A::N(b)]
}
/// Knuth's correction step: divisor 10..0xy, quotient digits near the maximum
fn div_gen2(g: &mut G) -> Vec<A> {
    let lb = 2 + g.below(6);
    let k = lb * WB;
    let top = match g.below(3) {
        0 => N::one().shl(k - 1),
        1 => N::one().shl(k).sub(&N::one().shl(k - 1 - g.below(WB))),
        _ => N::one().shl(k - 1 - g.below(WB)),
    };
    let b = top.add(&g.words(lb - 1));
    let lq = 1 + g.below(5);
    let m = N::one().shl(WB).sub(&N::one());
    let mut q = N::zero();
    for _ in 0..lq {
        let d = match g.below(4) {
            0 => m.clone(),
            1 => N::zero(),
            2 => N::one(),
            _ => g.words(1),
        };
        q = q.shl(WB).add(&d);
    }
    let r = match g.below(3) {
        0 => N::zero(),
        1 => b.sub(&N::one()),
        _ => g.words(lb).divrem(&b).1,
    };
    let (a, s) = (q.mul(&b).add(&r), g.below(WB));
    if g.chance(50) {
        vec![A::N(a), A::N(b)]
    } else {
        vec![A::N(a.shr(s)), A::N(b.shr(s).add(&N::one()))]
    }
}
fn zero_div(g: &mut G) -> Vec<A> {
    vec![A::N(g.nat()), A::N(N::zero())]
}
fn div_u(a: &[A]) {
    let (x, y) = (a[0].n(), a[1].n());
    if y.is_zero() {
        all_variants!("/", ub, ub_tight, x, y, /, /=, |l: &str, x| want_panic::<UBig>(l, x));
        all_variants!("%", ub, ub_tight, x, y, %, %=, |l: &str, x| want_panic::<UBig>(l, x));
        all_methods!("div_rem", ub, ub_tight, x, y, div_rem, |l: &str, x: Result<(UBig, UBig), String>| want_panic(l, x.map(|t| t.0)));
        all_methods!("div_euclid", ub, ub_tight, x, y, div_euclid, |l: &str, x: Result<UBig, String>| want_panic(l, x));
        all_methods!("rem_euclid", ub, ub_tight, x, y, rem_euclid, |l: &str, x: Result<UBig, String>| want_panic(l, x));
        return;
    }
    let (q, r) = x.divrem(y);
    if x.bit_len() > 60 * WB {
        let (x, y) = (ub(x), ub(y));
        want2("div_rem", catch(|| (&x).div_rem(&y)), &(Z::nat(&q), Z::nat(&r)));
        wantn("/", catch(|| &x / &y), &q);
        wantn("%", catch(|| &x % &y), &r);
        return;
    }
    all_variants!("/", ub, ub_tight, x, y, /, /=, |l: &str, x| wantn::<UBig>(l, x, &q));
    all_variants!("%", ub, ub_tight, x, y, %, %=, |l: &str, x| wantn::<UBig>(l, x, &r));
    all_methods!("div_euclid", ub, ub_tight, x, y, div_euclid, |l: &str, x: Result<UBig, String>| wantn(l, x, &q));
    all_methods!("rem_euclid", ub, ub_tight, x, y, rem_euclid, |l: &str, x: Result<UBig, String>| wantn(l, x, &r));
    let qr = (Z::nat(&q), Z::nat(&r));
    all_methods!("div_rem", ub, ub_tight, x, y, div_rem, |l: &str, x: Result<(UBig, UBig), String>| want2(l, x, &qr));
    all_methods!("div_rem_euclid", ub, ub_tight, x, y, div_rem_euclid, |l: &str, x: Result<(UBig, UBig), String>| want2(l, x, &qr));
}
fn div_i(a: &[A]) {
    let (x, y) = (a[0].z(), a[1].z());
    if y.is_zero() {
        all_variants!("/", ib, ib_tight, x, y, /, /=, |l: &str, x| want_panic::<IBig>(l, x));
        all_variants!("%", ib, ib_tight, x, y, %, %=, |l: &str, x| want_panic::<IBig>(l, x));
        all_methods!("div_rem", ib, ib_tight, x, y, div_rem, |l: &str, x: Result<(IBig, IBig), String>| want_panic(l, x.map(|t| t.0)));
        all_methods!("div_euclid", ib, ib_tight, x, y, div_euclid, |l: &str, x: Result<IBig, String>| want_panic(l, x));
        all_methods!("rem_euclid", ib, ib_tight, x, y, rem_euclid, |l: &str, x: Result<IBig, String>| want_panic(l, x));
        all_methods!("div_rem_euclid", ib, ib_tight, x, y, div_rem_euclid, |l: &str, x: Result<(IBig, IBig), String>| want_panic(l, x.map(|t| t.0)));
        return;
    }
    let t = x.divrem(y);
    let e = x.divrem_euclid(y);
    all_variants!("/", ib, ib_tight, x, y, /, /=, |l: &str, x| want::<IBig>(l, x, &t.0));
    all_variants!("%", ib, ib_tight, x, y, %, %=, |l: &str, x| want::<IBig>(l, x, &t.1));
    all_methods!("div_rem", ib, ib_tight, x, y, div_rem, |l: &str, x: Result<(IBig, IBig), String>| want2(l, x, &t));
    all_methods!("div_euclid", ib, ib_tight, x, y, div_euclid, |l: &str, x: Result<IBig, String>| want(l, x, &e.0));
    all_methods!("rem_euclid", ib, ib_tight, x, y, rem_euclid, |l: &str, x: Result<IBig, String>| want(l, x, &e.1));
    all_methods!("div_rem_euclid", ib, ib_tight, x, y, div_rem_euclid, |l: &str, x: Result<(IBig, IBig), String>| want2(l, x, &e));
}

// ------------------------------------------------------------------ C05
fn clone_ops(a: &[A]) {
    let (x, y) = (a[0].n(), a[1].n());
    wantn("clone", catch(|| ub(x).clone()), x);
    wantn("clone_from", catch(|| { let mut t = ub(y); t.clone_from(&ub(x)); t }), x);
    wantn("clone_from tight", catch(|| { let mut t = ub_tight(y); t.clone_from(&ub_tight(x)); t }), x);
    let z = Z::new(true, x.clone());
    want("clone_from IBig", catch(|| { let mut t = ib(&Z::nat(y)); t.clone_from(&ib(&z)); t }), &z);
    want_eq("eq", catch(|| ub(x) == ub_tight(y)), x == y);
    want_eq("ne", catch(|| ub(x) != ub_tight(y)), x != y);
    // construction from words with zeros on top
    let mut w = x.to_words(W);
    let pad = y.bit_len() % 70;
    w.extend(vec![0; pad]);
    wantn("from padded words", catch(|| UBig::verif_from_words(&w)), x);
    use std::hash::{Hash, Hasher};
    let h = |v: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        v(&mut s);
        s.finish()
    };
    let (p, q) = (ub(x), UBig::verif_from_words(&w));
    want_eq("hash", catch(|| h(&|s| p.hash(s)) == h(&|s| q.hash(s))), true);
    let (p, q) = (ib(&z), IBig::verif_from_parts(true, q));
    want_eq("hash IBig", catch(|| h(&|s| p.hash(s)) == h(&|s| q.hash(s)) && p == q), true);
    if strict() {
        for (l, v) in [("clone", catch(|| p.clone())), ("zero", catch(|| -IBig::from(0))), ("diff", catch(|| &p - &p)), ("default", catch(IBig::default))] {
            if let Ok(v) = v {
                if let Err(e) = v.canon() {
                    fail(format!("{l}: {e}"));
                }
            }
        }
    }
}
/// A history of in-place operations on one number.
fn history(a: &[A]) {
    let mut z = a[0].z().clone();
    let mut x = ib(&z);
    let mut g = G::new(a[1].u() as u64);
    g.max = 12;
    for step in 0..12 {
        let y = g.int();
        let k = g.shift(z.mag.bit_len());
        let c = g.below(14);
        let old = (z.clone(), c, y.clone(), k);
        let r = catch(|| match c {
            0 => { z = z.add(&y); x += ib(&y) }
            1 => { z = z.sub(&y); x -= &ib(&y) }
            2 => { z = z.mul(&y); x *= ib(&y) }
            3 => { z = z.shr(k); x >>= k }
            4 => { z = z.shl(k); x <<= k }
            5 => { z = z.neg(); x = -std::mem::take(&mut x) }
            6 => { z = z.bitop(&y, |a, b| a & b); x &= ib(&y) }
            7 => { z = z.bitop(&y, |a, b| a | b); x |= ib(&y) }
            8 => { z = z.bitop(&y, |a, b| a ^ b); x ^= &ib(&y) }
            9 if !y.is_zero() => { z = z.divrem(&y).0; x /= ib(&y) }
            10 if !y.is_zero() => { z = z.divrem(&y).1; x %= &ib(&y) }
            11 => { z = y.clone(); x.clone_from(&ib(&y)) }
            12 => { z = z.sub(&z); let t = x.clone(); x -= t }
            _ => { z = z.bitop(&z, |a, _| !a); x = !std::mem::take(&mut x) }
        });
        if r.is_err() {
            if !strict() {
                fail(format!("step {step} {old:?} panicked"));
            }
            return;
        }
        want(&format!("step {step} {old:?}"), Ok(x.clone()), &z);
        if strict() {
            if let Err(e) = Val::canon(&x) {
                fail(format!("step {step} {old:?}: {e}"));
            }
        }
        if z.mag.bit_len() > 60 * WB {
            z = z.shr(50 * WB);
            x >>= 50 * WB;
        }
    }
}
fn history_gen(g: &mut G) -> Vec<A> {
    g.max = 12;
    vec![A::Z(g.int()), A::U(g.u64() as u128)]
}

// ------------------------------------------------------------------ C06
fn cmp_u(a: &[A]) {
    let (x, y) = (a[0].n(), a[1].n());
    let o = x.cmp(y);
    let (p, q) = (ub(x), ub_tight(y));
    want_eq("cmp", catch(|| p.cmp(&q)), o);
    want_eq("partial_cmp", catch(|| p.partial_cmp(&q)), Some(o));
    want_eq("<", catch(|| p < q), o == Ordering::Less);
    want_eq("<=", catch(|| p <= q), o != Ordering::Greater);
    want_eq(">", catch(|| p > q), o == Ordering::Greater);
    want_eq(">=", catch(|| p >= q), o != Ordering::Less);
    want_eq("==", catch(|| p == q), o == Ordering::Equal);
    want_eq("!=", catch(|| p != q), o != Ordering::Equal);
    want_eq("refl", catch(|| p.cmp(&p.clone())), Ordering::Equal);
    wantn("max", catch(|| p.clone().max(q.clone())), if o == Ordering::Less { y } else { x });
}
fn cmp_i(a: &[A]) {
    let (x, y) = (a[0].z(), a[1].z());
    let o = x.cmp(y);
    let (p, q) = (ib(x), ib_tight(y));
    want_eq("cmp", catch(|| p.cmp(&q)), o);
    want_eq("partial_cmp", catch(|| p.partial_cmp(&q)), Some(o));
    want_eq("<", catch(|| p < q), o == Ordering::Less);
    want_eq("<=", catch(|| p <= q), o != Ordering::Greater);
    want_eq(">", catch(|| p > q), o == Ordering::Greater);
    want_eq(">=", catch(|| p >= q), o != Ordering::Less);
    want_eq("==", catch(|| p == q), o == Ordering::Equal);
    want_eq("refl", catch(|| p.cmp(&p.clone())), Ordering::Equal);
    want("min", catch(|| p.clone().min(q.clone())), if o == Ordering::Greater { y } else { x });
}

// ------------------------------------------------------------------ C07
fn shift_gen(g: &mut G) -> Vec<A> {
    if rare(g) {
        let n = sparse(g);
        let l = n.bit_len();
        let k = match g.below(6) { 0 => g.below(l + 2), 1 => (l / WB) * WB, 2 => l - 1, 3 => l, _ => g.below(l / WB + 1) * WB };
        let s = g.chance(60);
        return vec![A::Z(Z::new(s, n)), A::U(k as u128)];
    }
    let n = g.nat();
    let s = g.chance(60);
    let k = g.shift(n.bit_len());
    let n = if g.chance(20) { n.shl(g.below(200)) } else { n };
    let n = if g.chance(10) { n.shr(k).shl(k) } else { n };
    vec![A::Z(Z::new(s, n)), A::U(k as u128)]
}
fn shifts(a: &[A]) {
    let (z, k) = (a[0].z(), a[1].u() as usize);
    let n = &z.mag;
    let (u, i) = (ub(n), ib(z));
    let (l, r) = (n.shl(k), n.shr(k));
    wantn("u << val", catch(|| u.clone() << k), &l);
    wantn("u << tight", catch(|| ub_tight(n) << k), &l);
    wantn("u << ref", catch(|| &u << k), &l);
    wantn("u << ref ref", catch(|| &u << &k), &l);
    wantn("u << val ref", catch(|| u.clone() << &k), &l);
    wantn("u <<=", catch(|| { let mut t = u.clone(); t <<= k; t }), &l);
    wantn("u <<= ref", catch(|| { let mut t = ub_tight(n); t <<= &k; t }), &l);
    wantn("u >> val", catch(|| u.clone() >> k), &r);
    wantn("u >> tight", catch(|| ub_tight(n) >> k), &r);
    wantn("u >> ref", catch(|| &u >> k), &r);
    wantn("u >> ref ref", catch(|| &u >> &k), &r);
    wantn("u >> val ref", catch(|| u.clone() >> &k), &r);
    wantn("u >>=", catch(|| { let mut t = u.clone(); t >>= k; t }), &r);
    wantn("u >>= ref", catch(|| { let mut t = ub_tight(n); t >>= &k; t }), &r);
    let (l, r) = (z.shl(k), z.shr(k));
    want("i << val", catch(|| i.clone() << k), &l);
    want("i << ref", catch(|| &i << k), &l);
    want("i << ref ref", catch(|| &i << &k), &l);
    want("i <<=", catch(|| { let mut t = i.clone(); t <<= k; t }), &l);
    want("i >> val", catch(|| i.clone() >> k), &r);
    want("i >> tight", catch(|| ib_tight(z) >> k), &r);
    want("i >> ref", catch(|| &i >> k), &r);
    want("i >> ref ref", catch(|| &i >> &k), &r);
    want("i >> val ref", catch(|| i.clone() >> &k), &r);
    want("i >>=", catch(|| { let mut t = i.clone(); t >>= k; t }), &r);
    want("i >>= ref", catch(|| { let mut t = i.clone(); t >>= &k; t }), &r);
    for big in [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1] {
        want("i >> huge", catch(|| &i >> big), &Z::from_i128(if z.neg { -1 } else { 0 }));
        want("i >> huge val", catch(|| i.clone() >> big), &Z::from_i128(if z.neg { -1 } else { 0 }));
        wantn("u >> huge", catch(|| &u >> big), &N::zero());
        wantn("u >> huge val", catch(|| u.clone() >> big), &N::zero());
        if n.is_zero() {
            wantn("0 << huge", catch(|| &u << big), &N::zero());
        }
    }
}

// ------------------------------------------------------------------ C08
fn bits_u(a: &[A]) {
    let (x, y) = (a[0].n(), a[1].n());
    let (zx, zy) = (Z::nat(x), Z::nat(y));
    let and = zx.bitop(&zy, |a, b| a & b);
    let or = zx.bitop(&zy, |a, b| a | b);
    let xor = zx.bitop(&zy, |a, b| a ^ b);
    let an = zx.bitop(&zy, |a, b| a & !b);
    all_variants!("&", ub, ub_tight, x, y, &, &=, |l: &str, x| want::<UBig>(l, x, &and));
    all_variants!("|", ub, ub_tight, x, y, |, |=, |l: &str, x| want::<UBig>(l, x, &or));
    all_variants!("^", ub, ub_tight, x, y, ^, ^=, |l: &str, x| want::<UBig>(l, x, &xor));
    all_methods!("and_not", ub, ub_tight, x, y, and_not, |l: &str, x: Result<UBig, String>| want(l, x, &an));
}
fn bits_i(a: &[A]) {
    let (x, y) = (a[0].z(), a[1].z());
    let and = x.bitop(y, |a, b| a & b);
    let or = x.bitop(y, |a, b| a | b);
    let xor = x.bitop(y, |a, b| a ^ b);
    let an = x.bitop(y, |a, b| a & !b);
    let not = x.bitop(x, |a, _| !a);
    all_variants!("&", ib, ib_tight, x, y, &, &=, |l: &str, x| want::<IBig>(l, x, &and));
    all_variants!("|", ib, ib_tight, x, y, |, |=, |l: &str, x| want::<IBig>(l, x, &or));
    all_variants!("^", ib, ib_tight, x, y, ^, ^=, |l: &str, x| want::<IBig>(l, x, &xor));
    all_methods!("and_not", ib, ib_tight, x, y, and_not, |l: &str, x: Result<IBig, String>| want(l, x, &an));
    let p = ib(x);
    want("!val", catch(|| !p.clone()), &not);
    want("!tight", catch(|| !ib_tight(x)), &not);
    want("!ref", catch(|| !&p), &not);
}

// ------------------------------------------------------------------ C09
fn bitq(a: &[A]) {
    let (z, k) = (a[0].z(), a[1].u() as usize);
    let n = &z.mag;
    let u = ub(n);
    want_eq("bit", catch(|| u.bit(k)), n.bit(k));
    want_eq("bit huge", catch(|| u.bit(usize::MAX)), false);
    want_eq("bit_len", catch(|| u.bit_len()), n.bit_len());
    want_eq("trailing_zeros", catch(|| u.trailing_zeros()), n.trailing_zeros());
    want_eq("IBig trailing_zeros", catch(|| ib(z).trailing_zeros()), n.trailing_zeros());
    let p2 = !n.is_zero() && n.trailing_zeros() == Some(n.bit_len() - 1);
    want_eq("is_power_of_two", catch(|| u.is_power_of_two()), p2);
    let np = if n.is_zero() { N::one() } else if p2 { n.clone() } else { N::one().shl(n.bit_len()) };
    wantn("next_power_of_two val", catch(|| u.clone().next_power_of_two()), &np);
    wantn("next_power_of_two tight", catch(|| ub_tight(n).next_power_of_two()), &np);
    wantn("next_power_of_two ref", catch(|| (&u).next_power_of_two()), &np);
    let b = N::one().shl(k);
    let set = if n.bit(k) { n.clone() } else { n.add(&b) };
    let clr = if n.bit(k) { n.sub(&b) } else { n.clone() };
    wantn("set_bit", catch(|| { let mut t = u.clone(); t.set_bit(k); t }), &set);
    wantn("set_bit tight", catch(|| { let mut t = ub_tight(n); t.set_bit(k); t }), &set);
    wantn("clear_bit", catch(|| { let mut t = u.clone(); t.clear_bit(k); t }), &clr);
    wantn("clear_bit tight", catch(|| { let mut t = ub_tight(n); t.clear_bit(k); t }), &clr);
    wantn("clear_bit huge", catch(|| { let mut t = u.clone(); t.clear_bit(usize::MAX); t }), n);
}

// ------------------------------------------------------------------ C10
fn prim_gen(g: &mut G) -> Vec<A> {
    let t = g.prim();
    let m = g.max;
    g.max = 5;
    let n = if g.chance(60) { N::from_u128(g.prim()) } else { g.nat() };
    g.max = m;
    let s = g.chance(50);
    vec![A::Z(Z::new(s, n)), A::U(t)]
}
macro_rules! conv_t { ($z:expr, $t:expr, $($ty:ident)*) => { $( {
    #[allow(unused_imports)]
    use std::convert::TryFrom;
    let z: &Z = $z;
    let n = &z.mag;
    let t = $t as $ty;
    let tz = t.toz();
    // to primitive
    let fits = {
        let lo = <$ty>::MIN.toz();
        let hi = <$ty>::MAX.toz();
        z.cmp(&lo) != Ordering::Less && z.cmp(&hi) != Ordering::Greater
    };
    let l = concat!(stringify!($ty), " from big");
    let r1 = catch(|| <$ty>::try_from(&ib(z)));
    let r2 = catch(|| <$ty>::try_from(ib_tight(z)));
    for r in [r1, r2] {
        match r {
            Ok(Ok(v)) => { if !fits || v.toz() != *z { if !strict() { fail(format!("{l}: got {v} for {}", z.hex())) } } }
            Ok(Err(_)) => { if fits && !strict() { fail(format!("{l}: refused {}", z.hex())) } }
            Err(e) => { if !strict() { fail(format!("{l}: panicked {e}")) } }
        }
    }
    let zn = Z::nat(n);
    let fits = zn.cmp(&<$ty>::MAX.toz()) != Ordering::Greater;
    let r1 = catch(|| <$ty>::try_from(&ub(n)));
    let r2 = catch(|| <$ty>::try_from(ub_tight(n)));
    for r in [r1, r2] {
        match r {
            Ok(Ok(v)) => { if !fits || v.toz() != zn { if !strict() { fail(format!("{l} (UBig): got {v} for {}", zn.hex())) } } }
            Ok(Err(_)) => { if fits && !strict() { fail(format!("{l} (UBig): refused {}", zn.hex())) } }
            Err(e) => { if !strict() { fail(format!("{l} (UBig): panicked {e}")) } }
        }
    }
    // from primitive
    want(concat!("IBig from ", stringify!($ty)), catch(|| IBig::from(t)), &tz);
    #[allow(unused_comparisons)]
    match catch(|| UBig::try_from(t)) {
        Ok(Ok(v)) => { if t < 0 { if !strict() { fail(format!("UBig from negative {t}")) } } else { want(concat!("UBig from ", stringify!($ty)), Ok(v), &tz) } }
        Ok(Err(_)) => { if !(t < 0) && !strict() { fail(format!("UBig refused {t}")) } }
        Err(e) => { if !strict() { fail(format!("UBig from {t}: panicked {e}")) } }
    }
} )* } }
fn conv(a: &[A]) {
    let (z, t) = (a[0].z(), a[1].u());
    conv_t!(z, t, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    // boundary values of every type as big numbers
    let n = &z.mag;
    want("IBig from UBig", catch(|| IBig::from(ub(n))), &Z::nat(n));
    want("IBig from &UBig", catch(|| IBig::from(&ub(n))), &Z::nat(n));
    for (l, r) in [("val", catch(|| UBig::try_from(ib(z)))), ("ref", catch(|| UBig::try_from(&ib(z))))] {
        match r {
            Ok(Ok(v)) => {
                if z.neg {
                    if !strict() { fail(format!("UBig from negative IBig {l}")) }
                } else {
                    wantn("UBig from IBig", Ok(v), n)
                }
            }
            Ok(Err(_)) => { if !z.neg && !strict() { fail(format!("UBig from IBig {l} refused")) } }
            Err(e) => { if !strict() { fail(format!("UBig from IBig {l}: {e}")) } }
        }
    }
    for b in [false, true] {
        wantn("UBig from bool", catch(|| UBig::from(b)), &N::from_u128(b as u128));
        want("IBig from bool", catch(|| IBig::from(b)), &Z::from_i128(b as i128));
    }
    wantn("default", catch(UBig::default), &N::zero());
    want("default", catch(IBig::default), &Z::from_i128(0));
}

// ------------------------------------------------------------------ C11
fn bytes_gen(g: &mut G) -> Vec<A> {
    let n = g.nat();
    let n = match g.below(3) { 0 => n, 1 => n.shr(g.below(WB)), _ => n.shl(8 * g.below(9)) };
    vec![A::N(n), A::U(g.below(40) as u128)]
}
fn bytes(a: &[A]) {
    let n = a[0].n();
    let pad = a[1].u() as usize;
    let mut le: Vec<u8> = n.0.iter().flat_map(|x| x.to_le_bytes()).collect();
    while le.last() == Some(&0) {
        le.pop();
    }
    let be: Vec<u8> = le.iter().rev().copied().collect();
    want_eq("to_le_bytes", catch(|| ub(n).to_le_bytes()), le.clone());
    want_eq("to_be_bytes", catch(|| ub(n).to_be_bytes()), be.clone());
    wantn("from_le_bytes", catch(|| UBig::from_le_bytes(&le)), n);
    wantn("from_be_bytes", catch(|| UBig::from_be_bytes(&be)), n);
    let mut lp = le;
    lp.extend(vec![0; pad]);
    let mut bp = vec![0; pad];
    bp.extend(&be);
    wantn("from_le_bytes padded", catch(|| UBig::from_le_bytes(&lp)), n);
    wantn("from_be_bytes padded", catch(|| UBig::from_be_bytes(&bp)), n);
}

// ------------------------------------------------------------------ C12
fn float_gen(g: &mut G) -> Vec<A> {
    let p = if g.chance(50) { 24 } else { 53 };
    let s = g.chance(50);
    let n = match g.below(6) {
        0 => N::from_u128(g.prim()),
        1 => {
            // near a tie: mantissa with one extra bit, then a tail
            let m = N::from_u128((g.u64() as u128 & ((1 << p) - 1)) | 1 << (p - 1));
            let k = g.below(3) + 1;
            let tail = N::from_u128(g.below(1 << k) as u128);
            let sh = match g.below(4) { 0 => g.below(20), 1 => g.below(140), _ => g.below(1100) };
            let t = m.shl(k).add(&tail).shl(sh);
            match g.below(4) { 0 => t.add(&N::one()), 1 if !t.is_zero() => t.sub(&N::one()), 2 => t.add(&N::one().shl(g.below(sh + 1))), _ => t }
        }
        2 => {
            // all ones mantissa
            let k = g.below(if p == 24 { 140 } else { 1040 }) + 1;
            let t = N::one().shl(k);
            let t = t.sub(&N::one().shl(g.below(k)));
            match g.below(3) { 0 => t.add(&N::one()), 1 if !t.is_zero() => t.sub(&N::one()), _ => t }
        }
        3 => {
            // around the overflow thresholds
            let (e, p) = if p == 24 { (128, 24) } else { (1024, 53) };
            let t = N::one().shl(e).sub(&N::one().shl(e - p - 1));
            match g.below(4) { 0 => t.clone(), 1 => t.add(&N::one()), 2 => t.sub(&N::one()), _ => N::one().shl(e).sub(&N::one().shl(g.below(e))) }
        }
        4 => { let l = g.below(20); g.words(l) }
        _ => g.nat(),
    };
    vec![A::Z(Z::new(s, n))]
}
/// Nearest, ties to even. (mantissa bits incl. hidden one, largest exponent of 2^e <= x)
fn round(n: &N, p: usize, emax: usize) -> Option<(u64, usize)> {
    let l = n.bit_len();
    if l <= p {
        return Some((n.to_u128().unwrap() as u64, 0));
    }
    let k = l - p;
    let mut m = n.shr(k).to_u128().unwrap() as u64;
    let half = n.bit(k - 1);
    let sticky = n.low_bits_nonzero(k - 1);
    if half && (sticky || m & 1 == 1) {
        m += 1;
    }
    let mut e = k;
    if m == 1 << p {
        m >>= 1;
        e += 1;
    }
    if e + p > emax {
        return None;
    }
    Some((m, e))
}
fn f64_of(n: &N) -> f64 {
    match round(n, 53, 1024) {
        None => f64::INFINITY,
        Some((m, e)) => {
            if m == 0 { return 0.0; }
            let lz = m.leading_zeros() as usize;
            let top = 63 - lz;
            let frac = (m << (52 - top)) & ((1 << 52) - 1);
            f64::from_bits(((1023 + top + e) as u64) << 52 | frac)
        }
    }
}
fn f32_of(n: &N) -> f32 {
    match round(n, 24, 128) {
        None => f32::INFINITY,
        Some((m, e)) => {
            if m == 0 { return 0.0; }
            let top = 63 - m.leading_zeros() as usize;
            let frac = ((m << (23 - top)) & ((1 << 23) - 1)) as u32;
            f32::from_bits(((127 + top + e) as u32) << 23 | frac)
        }
    }
}
fn floats(a: &[A]) {
    let z = a[0].z();
    let (d, f) = (f64_of(&z.mag), f32_of(&z.mag));
    want_eq("UBig to_f64", catch(|| ub(&z.mag).to_f64().to_bits()), d.to_bits());
    want_eq("UBig to_f32", catch(|| ub(&z.mag).to_f32().to_bits()), f.to_bits());
    let (d, f) = if z.neg { (-d, -f) } else { (d, f) };
    want_eq("IBig to_f64", catch(|| ib(z).to_f64().to_bits()), d.to_bits());
    want_eq("IBig to_f32", catch(|| ib(z).to_f32().to_bits()), f.to_bits());
}

// ------------------------------------------------------------------ C13
fn parse_long_gen(g: &mut G) -> Vec<A> {
    // long texts with long runs of one digit, perhaps one bad byte
    let radix = g.pick(&[10u32, 10, 3, 36, 7, 2, 16, 33]);
    let n = if W == 16 { 300 + g.below(9000) } else { 300 + g.below(16000) };
    let dg = |g: &mut G| std::char::from_digit(g.below(radix as usize) as u32, radix).unwrap();
    let mut s = String::new();
    s.push(dg(g));
    while s.len() < n {
        let c = if g.chance(50) { '0' } else { dg(g) };
        let k = match g.below(3) { 0 => 1 + g.below(30), 1 => 1 + g.below(2000), _ => n };
        for _ in 0..k.min(n - s.len()) { s.push(c); }
    }
    if g.chance(70) {
        let pos = g.below(s.len());
        s.replace_range(pos..pos + 1, g.pick(&["/", ":", "_", "-", "+", " ", "@", "g"]));
    }
    vec![A::S(s), A::U(radix as u128)]
}
fn parse_long(a: &[A]) {
    let (s, radix) = (a[0].s(), a[1].u() as u32);
    let plus = |s: &str| -> String { s.strip_prefix('+').unwrap_or(s).to_string() };
    chk_parse("UBig::from_str_radix", catch(|| UBig::from_str_radix(s, radix)), ref_parse(&plus(s), radix).map(|n| Z::nat(&n)));
}
fn parse_gen(g: &mut G) -> Vec<A> {
    let m = g.max;
    if g.chance(80) { g.max = 12; }
    let radix = if g.chance(40) { g.pick(&[2u32, 3, 8, 10, 16, 32, 36, 7]) } else { 2 + g.below(35) as u32 };
    let n = g.nat();
    g.max = m;
    let n = if g.chance(20) {
        let k = N::from_u128(radix as u128).pow(g.below(60));
        match g.below(3) { 0 => k, 1 => k.sub(&N::one()), _ => k.add(&n) }
    } else { n };
    let mut s: String = n.to_radix(radix);
    if g.chance(30) {
        s = "0".repeat(g.below(80)) + &s;
    }
    s = s.chars().map(|c| if g.chance(40) { c.to_ascii_uppercase() } else { c }).collect();
    // damage some
    if g.chance(30) {
        let bad = match g.below(14) {
            0 => "_".to_string(),
            1 => " ".into(),
            2 => "-".into(),
            3 => "+".into(),
            4 => ".".into(),
            5 => "é".into(),
            6 => "/".into(),
            7 => ":".into(),
            8 => "@".into(),
            9 => "[".into(),
            10 => "`".into(),
            11 => "{".into(),
            _ => std::char::from_digit(g.below(36) as u32, 36).unwrap().to_string(),
        };
        let pos = g.below(s.len() + 1);
        if g.chance(50) || pos >= s.len() { s.insert_str(pos, &bad) } else { s.replace_range(pos..pos + 1, &bad) }
    }
    let pre = match g.below(12) { 0 => "+", 1 => "-", 2 => "--", 3 => "+-", 4 => "", _ => "" };
    s = format!("{pre}{s}");
    if g.chance(2) { s = g.pick(&["", "+", "-", "0", "00", "-0", "+0", "0x", "0b", "0o", "-0x", "x", "0x-1", "0X1f", "-0b101", "+0o17"]).to_string(); }
    if g.chance(20) {
        let p = g.pick(&["0x", "0b", "0o", "-0x", "+0b", "0x+", "0X"]);
        s = format!("{p}{s}");
    }
    vec![A::S(s), A::U(radix as u128)]
}
/// None: no digits; Some(Err): invalid digit
fn ref_parse(s: &str, radix: u32) -> Result<N, &'static str> {
    if s.is_empty() {
        return Err("NoDigits");
    }
    if s.chars().all(|c| c.is_ascii() && c.to_digit(36).map_or(false, |d| d < radix)) {
        Ok(N::from_radix(s, radix).norm())
    } else {
        Err("InvalidDigit")
    }
}
fn parse_err(e: ibig::error::ParseError) -> &'static str {
    match e {
        ibig::error::ParseError::NoDigits => "NoDigits",
        ibig::error::ParseError::InvalidDigit => "InvalidDigit",
    }
}
fn chk_parse<T: Val>(l: &str, got: Result<Result<T, ibig::error::ParseError>, String>, exp: Result<Z, &'static str>) {
    match (got, exp) {
        (Ok(Ok(v)), Ok(z)) => want(l, Ok(v), &z),
        (Ok(Err(e)), Err(x)) => { if parse_err(e) != x && !strict() { fail(format!("{l}: error {} expected {x}", parse_err(e))) } }
        (Ok(Ok(v)), Err(x)) => { if !strict() { fail(format!("{l}: accepted as {} expected {x}", v.toz().hex())) } }
        (Ok(Err(e)), Ok(z)) => { if !strict() { fail(format!("{l}: refused ({}) expected {}", parse_err(e), z.hex())) } }
        (Err(e), _) => { if !strict() { fail(format!("{l}: panicked {e}")) } }
    }
}
fn parse(a: &[A]) {
    let (s, radix) = (a[0].s(), a[1].u() as u32);
    let plus = |s: &str| -> String { s.strip_prefix('+').unwrap_or(s).to_string() };
    let signed = |s: &str| -> (bool, String) { match s.strip_prefix('-') { Some(t) => (true, t.to_string()), None => (false, plus(s)) } };
    let u = ref_parse(&plus(s), radix).map(|n| Z::nat(&n));
    chk_parse("UBig::from_str_radix", catch(|| UBig::from_str_radix(s, radix)), u.clone());
    let (neg, t) = signed(s);
    let i = ref_parse(&t, radix).map(|n| Z::new(neg, n));
    chk_parse("IBig::from_str_radix", catch(|| IBig::from_str_radix(s, radix)), i);
    if radix == 10 {
        chk_parse("UBig::from_str", catch(|| s.parse::<UBig>()), u);
        let i = ref_parse(&t, 10).map(|n| Z::new(neg, n));
        chk_parse("IBig::from_str", catch(|| s.parse::<IBig>()), i);
    }
    let pre = |s: &str| -> Result<N, &'static str> {
        if let Some(t) = s.strip_prefix("0b") { ref_parse(t, 2) }
        else if let Some(t) = s.strip_prefix("0o") { ref_parse(t, 8) }
        else if let Some(t) = s.strip_prefix("0x") { ref_parse(t, 16) }
        else { ref_parse(s, 10) }
    };
    chk_parse("UBig::from_str_with_radix_prefix", catch(|| UBig::from_str_with_radix_prefix(s)), pre(&plus(s)).map(|n| Z::nat(&n)));
    chk_parse("IBig::from_str_with_radix_prefix", catch(|| IBig::from_str_with_radix_prefix(s)), pre(&t).map(|n| Z::new(neg, n)));
}
fn bad_radix(a: &[A]) {
    let r = a[0].u() as u32;
    if (2..=36).contains(&r) { return; }
    want_panic("from_str_radix UBig", catch(|| UBig::from_str_radix("1", r).unwrap_or_default()));
    want_panic("from_str_radix IBig", catch(|| IBig::from_str_radix("1", r).unwrap_or_default()));
    want_panic("in_radix UBig", catch(|| { ub(&N::one()).in_radix(r); UBig::default() }));
    want_panic("in_radix IBig", catch(|| { ib(&Z::from_i128(1)).in_radix(r); UBig::default() }));
}
fn bad_radix_gen(g: &mut G) -> Vec<A> {
    vec![A::U(match g.below(4) { 0 => g.below(2) as u128, 1 => 37 + g.below(5) as u128, 2 => u32::MAX as u128, _ => g.u64() as u32 as u128 })]
}

// ------------------------------------------------------------------ C14
fn pad(neg: bool, prefix: &str, digits: &str, plus: bool, alt: bool, zero: bool, fill: char, align: char, width: usize) -> String {
    let sign = if neg { "-" } else if plus { "+" } else { "" };
    let p = if alt { prefix } else { "" };
    let len = sign.len() + p.len() + digits.len();
    if len >= width {
        return format!("{sign}{p}{digits}");
    }
    let n = width - len;
    if zero {
        return format!("{sign}{p}{}{digits}", "0".repeat(n));
    }
    let left = match align { '<' => 0, '^' => n / 2, _ => n };
    let f = |k: usize| fill.to_string().repeat(k);
    format!("{}{sign}{p}{digits}{}", f(left), f(n - left))
}
fn fmt_gen(g: &mut G) -> Vec<A> {
    let m = g.max;
    if g.chance(85) { g.max = 14; }
    let radix = if g.chance(40) { g.pick(&[2u32, 3, 8, 10, 16, 32, 36, 7, 4]) } else { 2 + g.below(35) as u32 };
    let n = g.nat();
    let n = if g.chance(30) {
        let lim = if g.chance(80) { 80 } else { 700 };
    let k = N::from_u128(radix as u128).pow(g.below(lim));
        match g.below(4) { 0 => k, 1 => k.sub(&N::one()), 2 => k.mul(&N::from_u128(1 + g.below(radix as usize) as u128)), _ => k.add(&n) }
    } else { n };
    g.max = m;
    let s = g.chance(50);
    let d = n.to_radix(radix).len();
    let w = match g.below(3) { 0 => 0, 1 => (d + g.below(8)).saturating_sub(2), _ => g.below(120) };
    vec![A::Z(Z::new(s, n)), A::U(radix as u128), A::U(w as u128)]
}
/// A sink that records how it was called and can refuse.
struct Limited { left: usize, s: String }
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left { return Err(std::fmt::Error); }
        self.left -= s.len();
        self.s.push_str(s);
        Ok(())
    }
}
fn format_op(a: &[A]) {
    use std::fmt::Write;
    let (z, radix, w) = (a[0].z(), a[1].u() as u32, a[2].u() as usize);
    let (u, i) = (ub(&z.mag), ib(z));
    let dec = z.mag.to_radix(10);
    let hex = z.mag.to_radix(16);
    let hexu = hex.to_uppercase();
    let oct = z.mag.to_radix(8);
    let bin = z.mag.to_radix(2);
    let rad = z.mag.to_radix(radix);
    let radu = rad.to_uppercase();
    macro_rules! chk { ($fmt:literal, $prefix:expr, $digits:expr, $plus:expr, $alt:expr, $zero:expr, $fill:expr, $align:expr, $w:expr, $u:expr, $i:expr) => {
        want_eq(concat!("UBig ", $fmt), catch(|| format!($fmt, $u, w = w)), pad(false, $prefix, $digits, $plus, $alt, $zero, $fill, $align, $w));
        want_eq(concat!("IBig ", $fmt), catch(|| format!($fmt, $i, w = w)), pad(z.neg, $prefix, $digits, $plus, $alt, $zero, $fill, $align, $w));
    } }
    want_eq("UBig {}", catch(|| u.to_string()), dec.clone());
    chk!("{0:w$}", "", &dec, false, false, false, ' ', '>', w, u, i);
    chk!("{0:?}{w:.0}", "", &(dec.clone() + &w.to_string()), false, false, false, ' ', '>', 0, u, i);
    chk!("{0:+w$}", "", &dec, true, false, false, ' ', '>', w, u, i);
    chk!("{0:+0w$}", "", &dec, true, false, true, ' ', '>', w, u, i);
    chk!("{0:*<w$}", "", &dec, false, false, false, '*', '<', w, u, i);
    chk!("{0:é^+w$}", "", &dec, true, false, false, 'é', '^', w, u, i);
    chk!("{0:#w$}", "", &dec, false, true, false, ' ', '>', w, u, i);
    chk!("{0:w$x}", "0x", &hex, false, false, false, ' ', '>', w, u, i);
    chk!("{0:#w$x}", "0x", &hex, false, true, false, ' ', '>', w, u, i);
    chk!("{0:#0w$X}", "0x", &hexu, false, true, true, ' ', '>', w, u, i);
    chk!("{0:<+w$X}", "0x", &hexu, true, false, false, ' ', '<', w, u, i);
    chk!("{0:w$o}", "0o", &oct, false, false, false, ' ', '>', w, u, i);
    chk!("{0:#^w$o}", "0o", &oct, false, false, false, '#', '^', w, u, i);
    chk!("{0:+#0w$o}", "0o", &oct, true, true, true, ' ', '>', w, u, i);
    chk!("{0:w$b}", "0b", &bin, false, false, false, ' ', '>', w, u, i);
    chk!("{0:#w$b}", "0b", &bin, false, true, false, ' ', '>', w, u, i);
    let (ur, ir) = (u.in_radix(radix), i.in_radix(radix));
    chk!("{0:w$}", "", &rad, false, false, false, ' ', '>', w, ur, ir);
    chk!("{0:#w$}", "", &radu, false, false, false, ' ', '>', w, ur, ir);
    chk!("{0:+#0w$}", "", &radu, true, false, true, ' ', '>', w, ur, ir);
    chk!("{0:^w$}", "", &rad, false, false, false, ' ', '^', w, ur, ir);
    // round trip
    want_eq("round trip", catch(|| IBig::from_str_radix(&i.in_radix(radix).to_string(), radix).map(|x| x == i)), Ok(true));
    want_eq("round trip #", catch(|| IBig::from_str_radix(&format!("{:#}", i.in_radix(radix)), radix).map(|x| x == i)), Ok(true));
    // a sink that fails: the error is reported, what was written is a prefix
    let full = pad(z.neg, "", &rad, false, false, false, ' ', '>', w);
    for lim in [0, full.len() / 2, full.len().saturating_sub(1), full.len()] {
        let mut l = Limited { left: lim, s: String::new() };
        let r = catch(|| write!(l, "{:w$}", i.in_radix(radix), w = w).is_ok());
        want_eq("limited sink", r, lim >= full.len());
        if !full.starts_with(&l.s) && !strict() {
            fail("limited sink: wrong text".into());
        }
    }
}

// ------------------------------------------------------------------ C15
fn gcd_gen(g: &mut G) -> Vec<A> {
    if rare(g) {
        // long runs of trailing zeros
        let (a, b, k) = (g.prim().max(1), g.prim().max(1), if W == 16 { g.below(60000) } else { g.below(300000) });
        let j = if g.chance(50) { k + g.below(70) } else { k.saturating_sub(g.below(70)) };
        let (s, t) = (g.chance(50), g.chance(50));
        return vec![A::Z(Z::new(s, N::from_u128(a).shl(k))), A::Z(Z::new(t, N::from_u128(b).shl(j)))];
    }
    let m = g.max;
    g.max = if g.chance(90) { 8 } else { 30 };
    let (a, b) = g.pair();
    let c = if g.chance(50) { g.nz() } else { N::one() };
    let (mut a, mut b) = (a.mul(&c), b.mul(&c));
    if g.chance(20) { a = a.shl(g.below(100)); }
    if g.chance(20) { b = b.shl(g.below(100)); }
    if g.chance(5) { b = a.mul(&c); }
    if g.chance(5) { a = N::zero(); }
    if g.chance(10) {
        // consecutive Fibonacci-like numbers
        let (mut x, mut y) = (N::from_u128(1 + g.below(3) as u128), N::from_u128(1 + g.below(3) as u128));
        for _ in 0..g.below(400) { let t = x.add(&y); x = y; y = t; }
        a = y; b = x;
    }
    g.max = m;
    let (s, t) = (g.chance(50), g.chance(50));
    vec![A::Z(Z::new(s, a)), A::Z(Z::new(t, b))]
}
fn gcd(a: &[A]) {
    let (x, y) = (a[0].z(), a[1].z());
    let (nx, ny) = (&x.mag, &y.mag);
    if nx.is_zero() && ny.is_zero() {
        want_panic("gcd(0,0)", catch(|| ub(nx).gcd(&ub(ny))));
        want_panic("gcd(0,0) IBig", catch(|| ib(x).gcd(&ib(y))));
        want_panic("extended_gcd(0,0)", catch(|| ub(nx).extended_gcd(&ub(ny)).0));
        want_panic("extended_gcd(0,0) IBig", catch(|| ib(x).extended_gcd(&ib(y)).0));
        return;
    }
    let g = nx.gcd(ny);
    wantn("gcd", catch(|| ub(nx).gcd(&ub(ny))), &g);
    want("gcd IBig", catch(|| ib(x).gcd(&ib(y))), &Z::nat(&g));
    let one = N::one();
    let bound = |c: &Z, m: &N| !(if m.lt(&one) { &one } else { m }).lt(&c.mag);
    match catch(|| ub(nx).extended_gcd(&ub(ny))) {
        Ok((h, p, q)) => {
            wantn("extended_gcd g", Ok(h.clone()), &g);
            let (p, q) = (p, q);
            let (zp, zq) = (iz(&p), iz(&q));
            want("extended_gcd x", Ok(p), &zp);
            want("extended_gcd y", Ok(q), &zq);
            if !strict() {
                if zp.mul(&Z::nat(nx)).add(&zq.mul(&Z::nat(ny))) != Z::nat(&g) {
                    fail(format!("extended_gcd: {}*a + {}*b is not the gcd", zp.hex(), zq.hex()));
                }
                if !bound(&zp, ny) || !bound(&zq, nx) {
                    fail(format!("extended_gcd: coefficients {} {} too large", zp.hex(), zq.hex()));
                }
            }
        }
        Err(e) => { if !strict() { fail(format!("extended_gcd panicked: {e}")) } }
    }
    match catch(|| ib(x).extended_gcd(&ib(y))) {
        Ok((h, p, q)) => {
            want("extended_gcd IBig g", Ok(h), &Z::nat(&g));
            let (zp, zq) = (iz(&p), iz(&q));
            if !strict() {
                if zp.mul(x).add(&zq.mul(y)) != Z::nat(&g) {
                    fail(format!("extended_gcd IBig: {}*a + {}*b is not the gcd", zp.hex(), zq.hex()));
                }
                if !bound(&zp, ny) || !bound(&zq, nx) {
                    fail(format!("extended_gcd IBig: coefficients {} {} too large", zp.hex(), zq.hex()));
                }
            }
        }
        Err(e) => { if !strict() { fail(format!("extended_gcd IBig panicked: {e}")) } }
    }
}

// ------------------------------------------------------------------ C16
fn pow_gen(g: &mut G) -> Vec<A> {
    let m = g.max;
    g.max = 6;
    let n = match g.below(4) { 0 => N::from_u128(g.below(12) as u128), 1 => N::one().shl(g.below(70)), _ => g.nat() };
    g.max = m;
    let lim = if n.bit_len() <= 1 { usize::MAX } else { 24000 / n.bit_len() };
    let e = match g.below(4) { 0 => g.below(9), 1 => (1usize << g.below(13)).wrapping_add_signed(g.below(3) as isize - 1), _ => g.below(200) }.min(lim);
    let e = if n.bit_len() <= 1 && g.chance(30) { usize::MAX - g.below(4) } else { e };
    let s = g.chance(50);
    vec![A::Z(Z::new(s, n)), A::U(e as u128)]
}
fn pow(a: &[A]) {
    let (z, e) = (a[0].z(), a[1].u() as usize);
    let r = if z.mag.bit_len() <= 1 { if e == 0 { N::one() } else { z.mag.clone() } } else { z.mag.pow(e) };
    wantn("UBig pow", catch(|| ub(&z.mag).pow(e)), &r);
    want("IBig pow", catch(|| ib(z).pow(e)), &Z::new(z.neg && e % 2 == 1, r));
}

// ------------------------------------------------------------------ C17 / C18
fn ring_gen(g: &mut G) -> Vec<A> {
    let m = g.max;
    g.max = if g.chance(85) { 6 } else { 50 };
    let n = match g.below(6) {
        0 => N::from_u128(1 + g.below(20) as u128),
        1 => N::one().shl(g.below(WB * 3)),
        2 => N::one().shl(WB * (1 + g.below(3))).sub(&N::from_u128(1 + g.below(5) as u128)),
        _ => g.nz(),
    };
    g.max = m;
    let mut v = vec![A::N(n.clone())];
    for _ in 0..2 {
        let x = match g.below(7) {
            0 => N::zero(),
            1 => n.clone(),
            2 => n.sub(&N::one()),
            3 => n.add(&N::one()),
            4 => { let k = 1 + g.below(4); let q = g.words(k); q.mul(&n).add(&N::from_u128(g.below(3) as u128)) }
            5 => { let k = n.0.len() / (WB / 32).max(1) + g.below(4); g.words(k) }
            _ => g.nat(),
        };
        let s = g.chance(50);
        v.push(A::Z(Z::new(s, x)));
    }
    v
}
fn mods(z: &Z, n: &N) -> N {
    z.divrem_euclid(&Z::nat(n)).1.mag
}
fn ring(a: &[A]) {
    let (n, x, y) = (a[0].n(), a[1].z(), a[2].z());
    let r = match catch(|| ModuloRing::new(&ub(n))) {
        Ok(r) => r,
        Err(e) => { if !strict() { fail(format!("ModuloRing::new panicked {e}")) } return; }
    };
    wantn("modulus", catch(|| r.modulus()), n);
    let (rx, ry) = (mods(x, n), mods(y, n));
    let (p, q) = match catch(|| (r.from(&ib(x)), r.from(ib_tight(y)))) {
        Ok(t) => t,
        Err(e) => { if !strict() { fail(format!("ring.from panicked {e}")) } return; }
    };
    wantn("from &IBig", catch(|| p.residue()), &rx);
    wantn("from IBig", catch(|| q.residue()), &ry);
    let ux = x.mag.divrem(n).1;
    wantn("from UBig", catch(|| r.from(ub(&x.mag)).residue()), &ux);
    wantn("from tight UBig", catch(|| r.from(ub_tight(&x.mag)).residue()), &ux);
    wantn("from &UBig", catch(|| r.from(&ub(&x.mag)).residue()), &ux);
    if let Some(v) = x.to_i128() {
        wantn("from i128", catch(|| r.from(v).residue()), &rx);
        if let Ok(v) = i64::try_from(v) { wantn("from i64", catch(|| r.from(v).residue()), &rx); }
        if let Ok(v) = u64::try_from(v) { wantn("from u64", catch(|| r.from(v).residue()), &rx); }
        if let Ok(v) = u8::try_from(v) { wantn("from u8", catch(|| r.from(v).residue()), &rx); }
        if let Ok(v) = i8::try_from(v) { wantn("from i8", catch(|| r.from(v).residue()), &rx); }
        if let Ok(v) = u32::try_from(v) { wantn("from u32", catch(|| r.from(v).residue()), &rx); }
        if let Ok(v) = i16::try_from(v) { wantn("from i16", catch(|| r.from(v).residue()), &rx); }
        wantn("from bool", catch(|| r.from(v != 0).residue()), &N::from_u128((v != 0) as u128).divrem(n).1);
    }
    macro_rules! var { ($l:literal, $op:tt, $opa:tt, $exp:expr) => {{
        let e: N = $exp;
        wantn(concat!($l, " rr"), catch(|| (&p $op &q).residue()), &e);
        wantn(concat!($l, " vr"), catch(|| (p.clone() $op &q).residue()), &e);
        wantn(concat!($l, " rv"), catch(|| (&p $op q.clone()).residue()), &e);
        wantn(concat!($l, " vv"), catch(|| (p.clone() $op q.clone()).residue()), &e);
        wantn(concat!($l, " assign"), catch(|| { let mut t = p.clone(); t $opa q.clone(); t.residue() }), &e);
        wantn(concat!($l, " assign ref"), catch(|| { let mut t = p.clone(); t $opa &q; t.residue() }), &e);
        want_eq(concat!($l, " == "), catch(|| (&p $op &q) == r.from(ub(&e))), true);
    }} }
    let z = |n: &N| Z::nat(n);
    var!("+", +, +=, mods(&z(&rx).add(&z(&ry)), n));
    var!("-", -, -=, mods(&z(&rx).sub(&z(&ry)), n));
    var!("*", *, *=, mods(&z(&rx).mul(&z(&ry)), n));
    wantn("neg", catch(|| (-p.clone()).residue()), &mods(&z(&rx).neg(), n));
    wantn("neg ref", catch(|| (-&p).residue()), &mods(&z(&rx).neg(), n));
    wantn("square", catch(|| (&p * &p).residue()), &mods(&z(&rx).mul(&z(&rx)), n));
    want_eq("eq", catch(|| p == q), rx == ry);
    wantn("clone_from", catch(|| { let mut t = p.clone(); t.clone_from(&q); t.residue() }), &ry);
    want_eq("Display", catch(|| format!("{p}")), format!("{} (mod {})", rx.to_radix(10), n.to_radix(10)));
    want_eq("LowerHex", catch(|| format!("{p:#x}")), format!("0x{} (mod 0x{})", rx.to_radix(16), n.to_radix(16)));
    // different rings do not mix
    let r2 = ModuloRing::new(&ub(n));
    want_panic("ring mix", catch(|| (&p + &r2.from(1u8)).residue()));
    want_panic("ring mix *", catch(|| (&p * r2.from(1u8)).residue()));
    want_panic("ring mix ==", catch(|| UBig::from((p == r2.from(1u8)) as u8)));
    want_panic("modulus 0", catch(|| ModuloRing::new(&UBig::default()).modulus()));
}
fn ring2(a: &[A]) {
    let (n, x, y) = (a[0].n(), a[1].z(), a[2].z());
    let r = match catch(|| ModuloRing::new(&ub(n))) { Ok(r) => r, Err(e) => { if !strict() { fail(format!("ModuloRing::new panicked {e}")) } return; } };
    let (rx, ry) = (mods(x, n), mods(y, n));
    let (p, q) = match catch(|| (r.from(ib(x)), r.from(ib(y)))) { Ok(t) => t, Err(e) => { if !strict() { fail(format!("ring.from panicked {e}")) } return; } };
    // inverse / division
    let one = N::one().divrem(n).1;
    let coprime = ry.gcd(n) == N::one();
    let inv = match catch(|| q.inverse()) {
        Ok(i) => i,
        Err(e) => { if !strict() { fail(format!("inverse panicked {e}")) } return; }
    };
    match &inv {
        Some(i) => {
            let ri = un(&i.residue());
            if !strict() {
                if !coprime { fail("inverse of a non-invertible".into()); }
                else if !ri.lt(n) || ri.mul(&ry).divrem(n).1 != one { fail(format!("inverse: {} is wrong", ri.hex())); }
            }
            let e = rx.mul(&ri).divrem(n).1;
            if !strict() || coprime {
                wantn("/ rr", catch(|| (&p / &q).residue()), &e);
                wantn("/ vr", catch(|| (p.clone() / &q).residue()), &e);
                wantn("/ rv", catch(|| (&p / q.clone()).residue()), &e);
                wantn("/ vv", catch(|| (p.clone() / q.clone()).residue()), &e);
                wantn("/=", catch(|| { let mut t = p.clone(); t /= q.clone(); t.residue() }), &e);
                wantn("/= ref", catch(|| { let mut t = p.clone(); t /= &q; t.residue() }), &e);
            }
        }
        None => {
            if coprime && !strict() { fail("inverse missing".into()); }
            want_panic("/ non-invertible", catch(|| (&p / &q).residue()));
            want_panic("/= non-invertible", catch(|| { let mut t = p.clone(); t /= &q; t.residue() }));
        }
    }
}
fn powm_gen(g: &mut G) -> Vec<A> {
    let mut v = ring_gen(g);
    if v[0].n().bit_len() > 30 * WB { let t = v[0].n().shr(20 * WB); v[0] = A::N(t); }
    let m = g.max;
    g.max = if W == 64 { 5 } else { 12 };
    let e = match g.below(5) { 0 => N::from_u128(g.below(20) as u128), 1 => N::one().shl(g.below(200)), 2 => N::one().shl(1 + g.below(200)).sub(&N::one()), _ => g.nat() };
    g.max = m;
    let s = g.chance(30);
    v[2] = A::Z(Z::new(s, e));
    v
}
fn powm(a: &[A]) {
    let (n, x, e) = (a[0].n(), a[1].z(), a[2].z());
    let r = match catch(|| ModuloRing::new(&ub(n))) { Ok(r) => r, Err(e) => { if !strict() { fail(format!("ModuloRing::new panicked {e}")) } return; } };
    let rx = mods(x, n);
    let p = match catch(|| r.from(ib(x))) { Ok(t) => t, Err(e) => { if !strict() { fail(format!("ring.from panicked {e}")) } return; } };
    let mut acc = N::one().divrem(n).1;
    for i in (0..e.mag.bit_len()).rev() {
        acc = acc.mul(&acc).divrem(n).1;
        if e.mag.bit(i) { acc = acc.mul(&rx).divrem(n).1; }
    }
    wantn("pow", catch(|| p.pow(&ub(&e.mag)).residue()), &acc);
    if !e.neg {
        wantn("pow_signed", catch(|| p.pow_signed(&ib(e)).residue()), &acc);
    } else if rx.gcd(n) == N::one() {
        let got = catch(|| p.pow_signed(&ib(e)).residue());
        match got {
            Ok(v) => {
                let v2 = un(&v);
                wantn("pow_signed", Ok(v), &v2);
                if !strict() && (!v2.lt(n) || v2.mul(&acc).divrem(n).1 != N::one().divrem(n).1) { fail(format!("pow_signed negative: {} is wrong", v2.hex())); }
            }
            Err(m) => { if !strict() { fail(format!("pow_signed panicked {m}")) } }
        }
    } else {
        want_panic("pow_signed non-invertible", catch(|| p.pow_signed(&ib(e)).residue()));
    }
}

// ------------------------------------------------------------------ C19
fn mixed_gen(g: &mut G) -> Vec<A> {
    let m = g.max;
    g.max = 6;
    let t = g.prim();
    let n = match g.below(4) {
        0 => N::from_u128(g.prim()),
        1 => { let tt = N::from_u128(t >> g.below(120)); g.near(&tt) }
        _ => g.nat(),
    };
    g.max = m;
    let s = g.chance(50);
    vec![A::Z(Z::new(s, n)), A::U(t), A::U(g.below(12) as u128)]
}
fn out<T: Val>(l: &str, got: Result<T, String>, exp: Option<Z>) {
    match exp {
        None => want_panic(l, got),
        Some(z) => if T::unsigned_big() && z.neg { want_panic(l, got) } else { want(l, got, &z) },
    }
}
fn out2<T: Val, U: Val>(l: &str, got: Result<(T, U), String>, exp: Option<(Z, Z)>) {
    match exp {
        None => { if !strict() && got.is_ok() { fail(format!("{l}: expected a panic")) } }
        Some(z) => if T::unsigned_big() && z.0.neg { if !strict() && got.is_ok() { fail(format!("{l}: expected a panic")) } } else { want2(l, got, &z) },
    }
}
macro_rules! mixed_common { ($big:expr, $z:expr, $t:expr, $ty:ty, $name:literal) => {{
    let (x, z, t): (_, &Z, $ty) = ($big, $z, $t);
    let tz = t.toz();
    let l = |s: &str| format!("{} {s} {}", $name, stringify!($ty));
    macro_rules! sym { ($s:literal, $op:tt, $opa:tt, $e:expr) => {{
        let e: Option<Z> = $e;
        out(&l($s), catch(|| x.clone() $op t), e.clone());
        out(&l(concat!($s, " ref")), catch(|| &x $op t), e.clone());
        out(&l(concat!($s, " refref")), catch(|| &x $op &t), e.clone());
        out(&l(concat!($s, " valref")), catch(|| x.clone() $op &t), e.clone());
        out(&l(concat!($s, "= ")), catch(|| { let mut y = x.clone(); y $opa t; y }), e.clone());
        out(&l(concat!($s, "= ref")), catch(|| { let mut y = x.clone(); y $opa &t; y }), e.clone());
    }} }
    macro_rules! rev { ($s:literal, $op:tt, $e:expr) => {{
        let e: Option<Z> = $e;
        out(&l(concat!("rev ", $s)), catch(|| t $op x.clone()), e.clone());
        out(&l(concat!("rev ", $s, " ref")), catch(|| t $op &x), e.clone());
        out(&l(concat!("rev ", $s, " refref")), catch(|| &t $op &x), e.clone());
        out(&l(concat!("rev ", $s, " refval")), catch(|| &t $op x.clone()), e);
    }} }
    macro_rules! meth { ($m:ident, $o:ident, $e:expr) => {{
        let e = $e;
        $o(&l(stringify!($m)), catch(|| x.clone().$m(t)), e.clone());
        $o(&l(concat!(stringify!($m), " ref")), catch(|| (&x).$m(t)), e.clone());
        $o(&l(concat!(stringify!($m), " refref")), catch(|| (&x).$m(&t)), e.clone());
        $o(&l(concat!(stringify!($m), " valref")), catch(|| x.clone().$m(&t)), e.clone());
    }} }
    let add = Some(z.add(&tz));
    let mul = Some(z.mul(&tz));
    let and = Some(z.bitop(&tz, |a, b| a & b));
    let or = Some(z.bitop(&tz, |a, b| a | b));
    let xor = Some(z.bitop(&tz, |a, b| a ^ b));
    sym!("+", +, +=, add.clone());
    rev!("+", +, add);
    sym!("-", -, -=, Some(z.sub(&tz)));
    sym!("*", *, *=, mul.clone());
    rev!("*", *, mul);
    sym!("&", &, &=, and.clone());
    rev!("&", &, and);
    sym!("|", |, |=, or.clone());
    rev!("|", |, or);
    sym!("^", ^, ^=, xor.clone());
    rev!("^", ^, xor);
    meth!(and_not, out, Some(z.bitop(&tz, |a, b| a & !b)));
    let tr = if tz.is_zero() { None } else { Some(z.divrem(&tz)) };
    let eu = if tz.is_zero() { None } else { Some(z.divrem_euclid(&tz)) };
    sym!("/", /, /=, tr.clone().map(|t| t.0));
    sym!("%", %, %=, tr.clone().map(|t| t.1));
    meth!(div_rem, out2, tr.clone());
    meth!(div_euclid, out, eu.clone().map(|t| t.0));
    meth!(rem_euclid, out, eu.clone().map(|t| t.1));
    meth!(div_rem_euclid, out2, eu.clone());
    let _ = &tr;
}} }
macro_rules! mixed_ibig_rev { ($x:expr, $z:expr, $t:expr, $ty:ty) => {{
    let (x, t): (IBig, $ty) = ($x, $t);
    let e = t.toz().sub($z);
    want(concat!("rev - ", stringify!($ty)), catch(|| t - x.clone()), &e);
    want(concat!("rev - ref ", stringify!($ty)), catch(|| t - &x), &e);
    want(concat!("rev - refref ", stringify!($ty)), catch(|| &t - &x), &e);
    want(concat!("rev - refval ", stringify!($ty)), catch(|| &t - x.clone()), &e);
}} }
fn mixed(a: &[A]) {
    let (z, t, k) = (a[0].z(), a[1].u(), a[2].u());
    let nz = Z::nat(&z.mag);
    macro_rules! go { ($($i:literal $ty:ident)*) => { match k { $( $i => {
        mixed_common!(ub(&z.mag), &nz, t as $ty, $ty, "UBig");
        mixed_common!(ib(z), z, t as $ty, $ty, "IBig");
        mixed_ibig_rev!(ib(z), z, t as $ty, $ty);
    } )* _ => {} } } }
    go!(0 u8 1 u16 2 u32 3 u64 4 u128 5 usize 6 i8 7 i16 8 i32 9 i64 10 i128 11 isize);
}

// ------------------------------------------------------------------ C20
fn limit_gen(g: &mut G) -> Vec<A> {
    let k = UBig::MAX_BIT_LEN;
    if W != 16 {
        let m = g.max;
        g.max = 6;
        let n = g.nat();
        g.max = m;
        return vec![A::N(n), A::N(N::one()), A::U((k as u128 + (6 * WB) as u128 + (g.u64() >> g.below(64)) as u128).min(usize::MAX as u128))];
    }
    // 16-bit words: the maximum is 65536 bits
    let lim = if g.chance(30) { 4096 } else { 70 };
    let n = 1 + g.below(lim);
    let a = g.words(n);
    let rest = (k + 3 * WB).saturating_sub(a.bit_len()).max(1);
    let b = if g.chance(60) {
        let l = (rest / WB).saturating_sub(g.below(6)) + 1;
        g.words(l.min(4096))
    } else {
        g.nat()
    };
    let s = rest.saturating_sub(g.below(40)) + g.below(20);
    if g.chance(15) {
        // the largest numbers, one step from the limit
        let m = N::one().shl(k).sub(&N::one());
        return vec![A::N(m), A::N(N::from_u128(g.below(3) as u128)), A::U(s as u128)];
    }
    vec![A::N(a), A::N(b), A::U(s as u128)]
}
fn limits(a: &[A]) {
    let (x, y, k) = (a[0].n(), a[1].n(), a[2].u() as usize);
    let max = UBig::MAX_BIT_LEN;
    let fits = |n: usize| n <= max;
    fn lim<T: Val>(l: &str, got: Result<T, String>, exp: Option<Z>) {
        match exp { None => want_panic(l, got), Some(z) => want(l, got, &z) }
    }
    if W != 16 {
        // only the refusals can be explored: an accepted size would not fit in memory
        if !x.is_zero() && !fits(x.bit_len().saturating_add(k).saturating_sub(6 * WB)) {
            want_panic("<< beyond the limit", catch(|| ub(x) << k));
            want_panic("&<< beyond the limit", catch(|| &ub(x) << k));
            want_panic("i<< beyond the limit", catch(|| ib(&Z::new(true, x.clone())) << k));
        }
        if k >= max.saturating_add(6 * WB) || k == usize::MAX {
            want_panic("set_bit beyond the limit", catch(|| { let mut t = ub(x); t.set_bit(k); t }));
        }
        return;
    }
    let ab = x.mul(y);
    let r = if fits(ab.bit_len()) { Some(Z::nat(&ab)) } else { None };
    lim("*", catch(|| ub(x) * ub(y)), r.clone());
    lim("* ref", catch(|| &ub(x) * &ub(y)), r);
    let s = x.add(y);
    let r = if fits(s.bit_len()) { Some(Z::nat(&s)) } else { None };
    lim("+", catch(|| ub(x) + ub(y)), r.clone());
    lim("+ ref", catch(|| &ub(x) + &ub(y)), r.clone());
    lim("+ val ref", catch(|| ub_tight(x) + &ub(y)), r.clone());
    let neg = |n: &N| Z::new(true, n.clone());
    lim("IBig -", catch(|| ib(&neg(x)) - ib(&Z::nat(y))), r.map(|z| z.neg()));
    let not = neg(&x.add(&N::one()));
    lim("!", catch(|| !ib(&Z::nat(x))), if fits(not.mag.bit_len()) { Some(not) } else { None });
    if !x.is_zero() {
        let ok = fits(x.bit_len().saturating_add(k));
        let l = if ok { Some(Z::nat(&x.shl(k))) } else { None };
        lim("<<", catch(|| ub(x) << k), l.clone());
        lim("<< ref", catch(|| &ub(x) << k), l.clone());
        lim("<<=", catch(|| { let mut t = ub_tight(x); t <<= k; t }), l);
    }
    let sb = if k < max { let b = N::one().shl(k); Some(Z::nat(&if x.bit(k) { x.clone() } else { x.add(&b) })) } else { None };
    lim("set_bit", catch(|| { let mut t = ub(x); t.set_bit(k); t }), sb);
    want_eq("bit", catch(|| ub(x).bit(k)), x.bit(k));
    lim("u >>", catch(|| ub(x) >> k), Some(Z::nat(&x.shr(k))));
    let p2 = if x.is_zero() { N::one() } else if x.trailing_zeros() == Some(x.bit_len() - 1) { x.clone() } else { N::one().shl(x.bit_len()) };
    lim("next_power_of_two", catch(|| ub(x).next_power_of_two()), if fits(p2.bit_len()) { Some(Z::nat(&p2)) } else { None });
    let sq = x.mul(x);
    lim("pow 2", catch(|| ub(x).pow(2)), if fits(sq.bit_len()) { Some(Z::nat(&sq)) } else { None });
    if x.bit_len() > 1 {
        let e = 3 + k % 5;
        if (x.bit_len() - 1).saturating_mul(e) < 2 * max {
            let p = x.pow(e);
            lim("pow", catch(|| ub(x).pow(e)), if fits(p.bit_len()) { Some(Z::nat(&p)) } else { None });
        }
    }
    let le: Vec<u8> = { let mut v: Vec<u8> = x.0.iter().flat_map(|t| t.to_le_bytes()).collect(); v.extend(y.0.iter().flat_map(|t| t.to_le_bytes())); v };
    let nb = N(le.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()).norm();
    let over = nb.bit_len() > max;
    let r = catch(|| UBig::from_le_bytes(&le));
    if over { want_panic("from_le_bytes", r) } else { wantn("from_le_bytes", r, &nb) }
    // zero padding past the limit
    let mut le: Vec<u8> = x.0.iter().flat_map(|t| t.to_le_bytes()).collect();
    le.resize(le.len() + k % 20000, 0);
    let over = x.bit_len() > max;
    let r = catch(|| UBig::from_le_bytes(&le));
    if over { want_panic("from_le_bytes padded", r) } else { wantn("from_le_bytes padded", r, x) }
    le.reverse();
    let r = catch(|| UBig::from_be_bytes(&le));
    if over { want_panic("from_be_bytes padded", r) } else { wantn("from_be_bytes padded", r, x) }
    if !y.is_zero() && x.bit_len() <= max && y.bit_len() <= max {
        let (q, m) = x.divrem(y);
        want2("div_rem", catch(|| ub(x).div_rem(ub(y))), &(Z::nat(&q), Z::nat(&m)));
        let z = Z::new(true, x.clone());
        want("i >>", catch(|| ib(&z) >> (k % 64)), &z.shr(k % 64));
    }
}
fn limit_parse(a: &[A]) {
    // text of numbers near the limit (16-bit words only)
    if W != 16 { return; }
    let (x, radix) = (a[0].n(), a[1].u() as u32);
    let s = x.to_radix(radix);
    let ok = x.bit_len() <= UBig::MAX_BIT_LEN;
    let r = catch(|| UBig::from_str_radix(&s, radix).unwrap());
    if ok {
        wantn("parse", r, x);
        want_eq("format", catch(|| ub(x).in_radix(radix).to_string() == s), true);
    } else {
        want_panic("parse", r)
    }
}
fn limit_parse_gen(g: &mut G) -> Vec<A> {
    let k = UBig::MAX_BIT_LEN.min(1 << 16);
    let radix = 2 + g.below(35) as u32;
    let b = N::one().shl(k);
    let n = match g.below(5) { 0 => b.clone(), 1 => b.sub(&N::one()), 2 => { let w = g.words(3); b.sub(&w) } 3 => { let w = g.words(4096); w } _ => { let k = 4000 + g.below(96); g.words(k) } };
    vec![A::N(n), A::U(radix as u128)]
}
fn limit_ring(a: &[A]) {
    let (n, x) = (a[0].n(), a[1].n());
    if W != 16 || n.is_zero() { return; }
    let r = match catch(|| ModuloRing::new(&ub(n))) { Ok(r) => r, Err(e) => { if !strict() { fail(format!("ModuloRing::new panicked {e}")) } return; } };
    wantn("ring.from", catch(|| r.from(ub(x)).residue()), &x.divrem(n).1);
}
fn limit_ring_gen(g: &mut G) -> Vec<A> {
    let l = g.pick(&[4096, 4095, 4094, 4000]);
    let m = g.pick(&[1, 2, 3, 10, 40, 100, 4096]);
    let n = g.words(m);
    vec![A::N(if n.is_zero() { N::one() } else { n }), A::N(g.words(l))]
}

fn limit_gcd(a: &[A]) {
    // 16-bit words: numbers up to the limit; the Bezout cofactors are within the documented bounds, so they fit too
    let (x, y) = (a[0].n(), a[1].n());
    if W != 16 || x.is_zero() || y.is_zero() || x.bit_len() > UBig::MAX_BIT_LEN || y.bit_len() > UBig::MAX_BIT_LEN { return; }
    let gcd = match catch(|| ub(x).gcd(&ub(y))) { Ok(g) => un(&g), Err(e) => { fail(format!("gcd panicked {e}")); return; } };
    match catch(|| ub(x).extended_gcd(&ub(y))) {
        Err(e) => fail(format!("extended_gcd panicked {e}")),
        Ok((g, s, t)) => {
            let l = iz(&s).mul(&Z::nat(x)).add(&iz(&t).mul(&Z::nat(y)));
            want_eq("Bezout", Ok(l == Z::nat(&un(&g)) && un(&g) == gcd), true);
        }
    }
    // inverse modulo y
    let inv = catch(|| { let r = ModuloRing::new(&ub(y)); let i = r.from(ub(x)).inverse().map(|i| un(&i.residue())); i });
    match inv {
        Err(e) => fail(format!("inverse panicked {e}")),
        Ok(None) => want_eq("invertible", Ok(false), gcd == N::one()),
        Ok(Some(i)) => want_eq("inverse", Ok(i.mul(x).divrem(y).1 == N::one().divrem(y).1), true),
    }
}
fn limit_gcd_gen(g: &mut G) -> Vec<A> {
    let m = N::one().shl(UBig::MAX_BIT_LEN.min(1 << 16)).sub(&N::one());
    let near = |g: &mut G| { let l = 1 + g.below(4); let w = g.words(l); m.sub(&w) };
    let x = match g.below(4) { 0 => m.clone(), _ => near(g) };
    let y = match g.below(4) { 0 => { let l = 1 + g.below(6); g.words(l) } 1 => { let l = 1 + g.below((1 << 16) / WB); let w = g.words(l); m.sub(&w) } _ => near(g) };
    if g.chance(50) { vec![A::N(x), A::N(y)] } else { vec![A::N(y), A::N(x)] }
}

// ------------------------------------------------------------------ C21
struct SeedRng { g: G, mode: u32 }
impl rand::RngCore for SeedRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        let x = self.g.u64();
        match self.mode {
            1 if self.g.chance(60) => u64::MAX,
            2 if self.g.chance(60) => 0,
            3 => if self.g.chance(30) { u64::MAX } else { x },
            _ => x,
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn rand_gen(g: &mut G) -> Vec<A> {
    let m = g.max;
    g.max = 6;
    let a = g.int();
    let w = match g.below(4) { 0 => N::from_u128(1 + g.below(6) as u128), 1 => N::one().shl(g.below(4 * WB)), 2 => g.nz().add(&N::one().shl(WB * g.below(4))), _ => g.nz() };
    g.max = m;
    vec![A::Z(a), A::N(w), A::U(g.u64() as u128)]
}
fn rand_op(a: &[A]) {
    use rand::distributions::uniform::Uniform;
    use rand::distributions::Distribution;
    use rand::Rng;
    let (lo, w) = (a[0].z(), a[1].n());
    let mut rng = SeedRng { g: G::new(a[2].u() as u64), mode: (a[2].u() % 4) as u32 };
    let hi = lo.add(&Z::nat(w));
    let incl = |v: &Z, top: &Z| v.cmp(lo) != Ordering::Less && v.cmp(top) == Ordering::Less;
    let small = w.to_u128().filter(|x| *x <= 6).map(|x| x as usize);
    let reps = if small.is_some() { 60 } else { 3 };
    let mut seen = vec![0; 16];
    for rep in 0..reps {
        if small.is_some() { rng.mode = 0 }
        macro_rules! one { ($l:literal, $e:expr, $top:expr, $base:expr, $toz:expr) => {
            match catch(|| $e) {
                Ok(v) => {
                    let z: Z = $toz(&v);
                    want($l, Ok(v), &z);
                    if !strict() && !(z.cmp($base) != Ordering::Less && z.cmp($top) == Ordering::Less) { fail(format!("{}: {} outside", $l, z.hex())); }
                    Some(z)
                }
                Err(e) => { if !strict() { fail(format!("{} panicked {e}", $l)) } None }
            }
        } }
        let z = one!("gen_range IBig", rng.gen_range(ib(lo)..ib(&hi)), &hi, lo, iz);
        if let (Some(z), Some(_)) = (z, small) {
            if incl(&z, &hi) { seen[z.sub(lo).mag.to_u128().unwrap() as usize] += 1; }
        }
        let hi1 = hi.add(&Z::from_i128(1));
        one!("gen_range= IBig", rng.gen_range(ib(lo)..=ib(&hi)), &hi1, lo, iz);
        let nl = Z::nat(&lo.mag);
        let nh = nl.add(&Z::nat(w));
        let nh1 = nh.add(&Z::from_i128(1));
        let tu = |v: &UBig| Z::nat(&un(v));
        one!("gen_range UBig", rng.gen_range(ub(&nl.mag)..ub(&nh.mag)), &nh, &nl, tu);
        let z = one!("gen_range= UBig", rng.gen_range(ub(&nl.mag)..=ub(&nh.mag)), &nh1, &nl, tu);
        if let (Some(z), Some(_)) = (z, small) {
            if z.cmp(&nl) != Ordering::Less && z.cmp(&nh1) == Ordering::Less { seen[8 + z.sub(&nl).mag.to_u128().unwrap() as usize] += 1; }
        }
        let u = Uniform::new(ub(&nl.mag), ub(&nh.mag));
        one!("Uniform UBig", u.sample(&mut rng), &nh, &nl, tu);
        let u = Uniform::new_inclusive(ib(lo), ib(&hi));
        one!("Uniform= IBig", u.sample(&mut rng), &hi1, lo, iz);
        if rep == 0 {
            one!("one value", rng.gen_range(ib(lo)..=ib(lo)), &lo.add(&Z::from_i128(1)), lo, iz);
            want_panic("empty UBig", catch(|| rng.gen_range(ub(&nl.mag)..ub(&nl.mag))));
            want_panic("empty IBig", catch(|| rng.gen_range(ib(lo)..ib(lo))));
            want_panic("reversed IBig", catch(|| rng.gen_range(ib(&hi)..ib(lo))));
            want_panic("reversed= IBig", catch(|| rng.gen_range(ib(&hi)..=ib(lo))));
            want_panic("reversed UBig", catch(|| rng.gen_range(ub(&nh.mag)..ub(&nl.mag))));
        }
    }
    if let (Some(k), false) = (small, strict()) {
        // 60 draws from at most 7 values: each must occur (probability of missing one < 0.1 %; the seed is fixed)
        if k <= 3 {
            for v in 0..k { if seen[v] == 0 { fail(format!("value {v} of {k} never drawn in 60 tries")) } }
            for v in 0..=k { if seen[8 + v] == 0 { fail(format!("inclusive: value {v} of {k} never drawn in 60 tries")) } }
        }
    }
}

// ------------------------------------------------------------------ C22
fn serde_gen(g: &mut G) -> Vec<A> {
    vec![A::Z(g.int()), A::U(g.below(4) as u128)]
}
fn serde_op(a: &[A]) {
    let (z, pad) = (a[0].z(), a[1].u() as usize);
    let n = &z.mag;
    let (u, i) = (ub(n), ib(z));
    let w64 = n.to_words(64);
    want_eq("json UBig", catch(|| serde_json::to_value(&u).unwrap()), serde_json::json!(w64));
    let sign = if z.neg { "Negative" } else { "Positive" };
    let _ = sign;
    wantn("json round trip UBig", catch(|| serde_json::from_str::<UBig>(&serde_json::to_string(&u).unwrap()).unwrap()), n);
    want("json round trip IBig", catch(|| serde_json::from_str::<IBig>(&serde_json::to_string(&i).unwrap()).unwrap()), z);
    want("json value round trip IBig", catch(|| serde_json::from_value::<IBig>(serde_json::to_value(&i).unwrap()).unwrap()), z);
    wantn("cbor round trip UBig", catch(|| serde_cbor::from_slice::<UBig>(&serde_cbor::to_vec(&u).unwrap()).unwrap()), n);
    want("cbor round trip IBig", catch(|| serde_cbor::from_slice::<IBig>(&serde_cbor::to_vec(&i).unwrap()).unwrap()), z);
    let mut w = w64.clone();
    w.extend(vec![0u64; pad]);
    wantn("json padded", catch(|| serde_json::from_value::<UBig>(serde_json::json!(w)).unwrap()), n);
    wantn("json text padded", catch(|| serde_json::from_str::<UBig>(&serde_json::to_string(&w).unwrap()).unwrap()), n);
    wantn("cbor padded", catch(|| serde_cbor::from_slice::<UBig>(&serde_cbor::to_vec(&w).unwrap()).unwrap()), n);
    if !strict() {
        let bad = catch(|| serde_json::from_str::<UBig>("[1,-2]").is_err() && serde_json::from_str::<UBig>("[1,\"x\"]").is_err() && serde_json::from_str::<UBig>("7").is_err() && serde_json::from_str::<UBig>("[18446744073709551616]").is_err());
        want_eq("json malformed", bad, true);
    }
    // -0 on the wire
    if n.is_zero() {
        if let Ok(v) = serde_json::to_value(&ib(&Z::from_i128(-1))) {
            let neg0 = serde_json::Value::Array(vec![v[0].clone(), serde_json::json!([])]);
            want("negative zero on the wire", catch(|| serde_json::from_value::<IBig>(neg0.clone()).unwrap()), z);
            want_eq("negative zero equals zero", catch(|| serde_json::from_value::<IBig>(neg0).unwrap() == IBig::from(0)), true);
        }
    }
}

// ------------------------------------------------------------------ C23
fn nt(a: &[A]) {
    use num_traits::{Num, One, Pow, Signed, Zero};
    let (x, y, e) = (a[0].z(), a[1].z(), a[2].u() as usize);
    let (u, i, j) = (ub(&x.mag), ib(x), ib(y));
    wantn("zero", catch(|| <UBig as Zero>::zero()), &N::zero());
    wantn("one", catch(|| <UBig as One>::one()), &N::one());
    want("zero", catch(|| <IBig as Zero>::zero()), &Z::from_i128(0));
    want("one", catch(|| <IBig as One>::one()), &Z::from_i128(1));
    want_eq("is_zero", catch(|| Zero::is_zero(&u)), x.is_zero());
    want_eq("is_zero", catch(|| Zero::is_zero(&i)), x.is_zero());
    want_eq("is_one", catch(|| One::is_one(&i)), *x == Z::from_i128(1));
    let p = x.mag.pow(e);
    wantn("Pow val", catch(|| Pow::pow(u.clone(), e)), &p);
    wantn("Pow ref", catch(|| Pow::pow(&u, e)), &p);
    let zp = Z::new(x.neg && e % 2 == 1, p);
    want("Pow IBig val", catch(|| Pow::pow(i.clone(), e)), &zp);
    want("Pow IBig ref", catch(|| Pow::pow(&i, e)), &zp);
    want("Signed::abs", catch(|| Signed::abs(&i)), &Z::nat(&x.mag));
    let d = if x.cmp(y) == Ordering::Greater { x.sub(y) } else { Z::from_i128(0) };
    want("Signed::abs_sub", catch(|| Signed::abs_sub(&i, &j)), &d);
    let s = if x.is_zero() { 0 } else if x.neg { -1 } else { 1 };
    want("Signed::signum", catch(|| Signed::signum(&i)), &Z::from_i128(s));
    want_eq("is_positive", catch(|| Signed::is_positive(&i)), s > 0);
    want_eq("is_negative", catch(|| Signed::is_negative(&i)), s < 0);
    let t = x.mag.to_radix(16);
    wantn("Num::from_str_radix", catch(|| <UBig as Num>::from_str_radix(&t, 16).unwrap()), &x.mag);
    let t = format!("{}{}", if x.neg { "-" } else { "" }, x.mag.to_radix(11));
    want("Num::from_str_radix", catch(|| <IBig as Num>::from_str_radix(&t, 11).unwrap()), x);
    want_eq("Num::from_str_radix invalid", catch(|| <UBig as Num>::from_str_radix("1_", 16).is_err()), true);
}
fn nt_gen(g: &mut G) -> Vec<A> {
    let m = g.max;
    g.max = 6;
    let a = g.int();
    let b = if g.chance(40) { let n = g.near(&a.mag); Z::new(g.chance(50), n) } else { g.int() };
    g.max = m;
    vec![A::Z(a), A::Z(b), A::U(g.below(12) as u128)]
}

pub fn ops(prop: &str) -> Vec<Op> {
    macro_rules! op { ($n:literal, $w:literal, $g:expr, $r:expr) => { Op { name: $n, weight: $w, gen: $g, run: $r } } }
    let base = |p: &str| -> Vec<Op> {
        match p {
            "C01" => vec![
                op!("add_u", 2, two_s, add_u), op!("add_u_chain", 3, carry_chain, add_u), op!("sub_u", 2, two_s, sub_u), op!("sub_u_chain", 3, carry_chain, sub_u),
                op!("add_i", 2, twoz, add_i), op!("sub_i", 2, twoz, sub_i), op!("add_i_chain", 2, |g| zz(carry_chain, g), add_i),
                op!("sub_i_chain", 2, |g| zz(carry_chain, g), sub_i), op!("neg_i", 1, |g| vec![A::Z(g.int())], neg_i),
            ],
            "C02" => vec![op!("mul_u", 4, mul_gen, mul_u), op!("mul_i", 1, |g| zz(mul_gen, g), mul_i), op!("mul_u_small", 2, two, mul_u)],
            "C03" => vec![op!("div_u", 3, div_gen, div_u), op!("div_u_knuth", 3, div_gen2, div_u), op!("div_u_any", 1, two, div_u), op!("div_u_zero", 1, zero_div, div_u)],
            "C04" => vec![op!("div_i", 3, |g| zz(div_gen, g), div_i), op!("div_i_knuth", 2, |g| zz(div_gen2, g), div_i), op!("div_i_any", 2, twoz, div_i), op!("div_i_zero", 1, |g| zz(zero_div, g), div_i)],
            "C06" => vec![op!("cmp_u", 1, two_s, cmp_u), op!("cmp_i", 1, twoz, cmp_i)],
            "C07" => vec![op!("shifts", 1, shift_gen, shifts)],
            "C08" => vec![op!("bits_u", 1, two_s, bits_u), op!("bits_i", 2, twoz, bits_i)],
            "C09" => vec![op!("bitq", 1, shift_gen, bitq)],
            "C10" => vec![op!("conv", 1, prim_gen, conv)],
            "C11" => vec![op!("bytes", 1, bytes_gen, bytes)],
            "C12" => vec![op!("floats", 1, float_gen, floats)],
            "C13" => vec![op!("parse", 200, parse_gen, parse), op!("parse_long", 1, parse_long_gen, parse_long), op!("bad_radix", 2, bad_radix_gen, bad_radix)],
            "C14" => vec![op!("format", 40, fmt_gen, format_op), op!("bad_radix", 1, bad_radix_gen, bad_radix)],
            "C15" => vec![op!("gcd", 1, gcd_gen, gcd)],
            "C16" => vec![op!("pow", 1, pow_gen, pow)],
            "C17" => vec![op!("ring", 1, ring_gen, ring)],
            "C18" => vec![op!("ring_div", 1, ring_gen, ring2), op!("ring_pow", 1, powm_gen, powm)],
            "C19" => vec![op!("mixed", 1, mixed_gen, mixed)],
            "C20" => vec![op!("limits", 20, limit_gen, limits), op!("limit_parse", 2, limit_parse_gen, limit_parse), op!("limit_ring", 2, limit_ring_gen, limit_ring), op!("limit_gcd", 1, limit_gcd_gen, limit_gcd)],
            "C21" => vec![op!("rand", 1, rand_gen, rand_op)],
            "C22" => vec![op!("serde", 1, serde_gen, serde_op)],
            "C23" => vec![op!("num_traits", 1, nt_gen, nt)],
            _ => vec![],
        }
    };
    if prop == "C05" {
        let mut v = vec![op!("clone", 6, two_s, clone_ops), op!("history", 6, history_gen, history)];
        for p in ["C01", "C02", "C03", "C04", "C07", "C08", "C09", "C10", "C11", "C13", "C15", "C16", "C17", "C19", "C22", "C23"] {
            v.extend(base(p).into_iter().map(|mut o| { o.weight = 1; o }));
        }
        return v;
    }
    base(prop)
}
