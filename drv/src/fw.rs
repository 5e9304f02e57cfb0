//! Case framework: arguments, generators, running one case, comparing results.
use refnum::{N, Z};
use ibig::{IBig, UBig};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const W: u32 = ibig::verif::VERIF_WORD_BITS;
pub const WB: usize = W as usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum A {
    N(N),
    Z(Z),
    U(u128),
    I(i128),
    S(String),
}

impl A {
    pub fn enc(&self) -> String {
        match self {
            A::N(n) => format!("N:{}", n.hex()),
            A::Z(z) => format!("Z:{}", z.hex()),
            A::U(u) => format!("U:{u}"),
            A::I(i) => format!("I:{i}"),
            A::S(s) => format!("S:{}", s.bytes().map(|b| format!("{b:02x}")).collect::<String>()),
        }
    }
    pub fn dec(s: &str) -> A {
        let (k, v) = s.split_once(':').unwrap();
        match k {
            "N" => A::N(N::from_hex(v)),
            "Z" => {
                let neg = v.starts_with('-');
                A::Z(Z::new(neg, N::from_hex(v.trim_start_matches('-'))))
            }
            "U" => A::U(v.parse().unwrap()),
            "I" => A::I(v.parse().unwrap()),
            "S" => A::S(
                String::from_utf8((0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect())
                    .unwrap(),
            ),
            _ => panic!("bad arg"),
        }
    }
    pub fn n(&self) -> &N {
        match self {
            A::N(n) => n,
            A::Z(z) => &z.mag,
            _ => panic!(),
        }
    }
    pub fn z(&self) -> &Z {
        match self {
            A::Z(z) => z,
            _ => panic!(),
        }
    }
    pub fn u(&self) -> u128 {
        match self {
            A::U(u) => *u,
            _ => panic!(),
        }
    }
    pub fn i(&self) -> i128 {
        match self {
            A::I(u) => *u,
            _ => panic!(),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            A::S(u) => u,
            _ => panic!(),
        }
    }
    pub fn trivial(&self) -> bool {
        match self {
            A::N(n) => n.bit_len() <= WB,
            A::Z(n) => n.mag.bit_len() <= WB,
            A::U(u) => *u < 2,
            A::I(u) => *u == 0,
            A::S(s) => s.len() < 2,
        }
    }
}

thread_local! {
    /// Check canonical representation only (C05), ignoring values.
    pub static STRICT: Cell<bool> = Cell::new(false);
    pub static ERR: RefCell<Option<String>> = RefCell::new(None);
}

pub fn fail(s: String) {
    ERR.with(|e| {
        let mut e = e.borrow_mut();
        if e.is_none() {
            *e = Some(s);
        }
    })
}

pub fn strict() -> bool {
    STRICT.with(|s| s.get())
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

// ---------------------------------------------------------------- library values
pub fn ub(n: &N) -> UBig {
    UBig::verif_from_words(&n.to_words(W))
}
pub fn ib(z: &Z) -> IBig {
    IBig::verif_from_parts(z.neg, ub(&z.mag))
}
/// Same number, in a buffer with as little spare room as the representation allows.
pub fn ub_tight(n: &N) -> UBig {
    let w = n.to_words(W);
    let len = w.len();
    if len < 5 {
        return ub(n);
    }
    let mut m = len - 3;
    while m > 2 && m + m / 8 + 2 > len {
        m -= 1;
    }
    while m + m / 8 + 2 < len {
        m += 1;
    }
    let mut x = UBig::verif_from_words(&vec![1u64; m]);
    x.clone_from(&ub(n));
    x
}
pub fn ib_tight(z: &Z) -> IBig {
    IBig::verif_from_parts(z.neg, ub_tight(&z.mag))
}
pub fn un(x: &UBig) -> N {
    N::from_words(&x.verif_words(), W)
}
pub fn iz(x: &IBig) -> Z {
    let (neg, m) = x.verif_parts();
    let mag = un(m);
    if neg && mag.is_zero() {
        return Z { neg, mag };
    }
    Z::new(neg, mag)
}

pub fn canon(x: &UBig) -> Result<(), String> {
    let (large, len, cap) = x.verif_repr();
    let w = x.verif_words();
    if large {
        if len < 2 {
            return Err(format!("large representation of length {len}"));
        }
        if *w.last().unwrap() == 0 {
            return Err("leading zero word".into());
        }
        if cap > len + len / 4 + 4 {
            return Err(format!("capacity {cap} for {len} words is not compact"));
        }
        if cap < len {
            return Err("capacity below length".into());
        }
        if len * WB > UBig::MAX_BIT_LEN {
            return Err("longer than the maximum".into());
        }
    }
    // equal to, and hashing like, the same number built directly
    use std::hash::{Hash, Hasher};
    let y = UBig::verif_from_words(&w);
    let h = |x: &UBig| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut s);
        s.finish()
    };
    if *x != y || h(x) != h(&y) {
        return Err("differs from the same number built directly".into());
    }
    Ok(())
}

/// Anything a library operation returns.
pub trait Val {
    fn toz(&self) -> Z;
    fn unsigned_big() -> bool {
        false
    }
    fn canon(&self) -> Result<(), String> {
        Ok(())
    }
}
impl Val for UBig {
    fn toz(&self) -> Z {
        Z::nat(&un(self))
    }
    fn unsigned_big() -> bool {
        true
    }
    fn canon(&self) -> Result<(), String> {
        canon(self)
    }
}
impl Val for IBig {
    fn toz(&self) -> Z {
        iz(self)
    }
    fn canon(&self) -> Result<(), String> {
        let (neg, m) = self.verif_parts();
        canon(m)?;
        if neg && un(m).is_zero() {
            return Err("negative zero".into());
        }
        let y = IBig::verif_from_parts(neg, UBig::verif_from_words(&m.verif_words()));
        if y != *self {
            return Err("IBig differs from the same number built directly".into());
        }
        Ok(())
    }
}
macro_rules! val_prim { ($($t:ty)*) => { $(impl Val for $t {
    fn toz(&self) -> Z {
        #[allow(unused_comparisons)]
        let neg = *self < 0;
        if neg { Z::from_i128(*self as i128) } else { Z::new(false, N::from_u128(*self as u128)) }
    }
})* } }
val_prim!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

/// Compare the outcome of a library computation with the expected number.
pub fn want<T: Val>(label: &str, got: Result<T, String>, exp: &Z) {
    match got {
        Ok(v) => {
            if strict() {
                if let Err(e) = v.canon() {
                    fail(format!("{label}: {e}"));
                }
            } else {
                let z = v.toz();
                if z != *exp {
                    fail(format!("{label}: got {} expected {}", z.hex(), exp.hex()));
                }
            }
        }
        Err(e) => {
            if !strict() {
                fail(format!("{label}: panicked: {e}; expected {}", exp.hex()))
            }
        }
    }
}
pub fn wantn<T: Val>(label: &str, got: Result<T, String>, exp: &N) {
    want(label, got, &Z::nat(exp))
}
pub fn want_panic<T: Val>(label: &str, got: Result<T, String>) {
    if strict() {
        return;
    }
    if let Ok(v) = got {
        fail(format!("{label}: got {} expected a panic", v.toz().hex()));
    }
}
pub fn want2<T: Val, U: Val>(label: &str, got: Result<(T, U), String>, exp: &(Z, Z)) {
    match got {
        Ok((a, b)) => {
            want(&format!("{label} (quotient)"), Ok(a), &exp.0);
            want(&format!("{label} (remainder)"), Ok(b), &exp.1);
        }
        Err(e) => {
            if !strict() {
                fail(format!("{label}: panicked: {e}"))
            }
        }
    }
}
pub fn want_eq<T: PartialEq + std::fmt::Debug>(label: &str, got: Result<T, String>, exp: T) {
    if strict() {
        return;
    }
    match got {
        Ok(v) => {
            if v != exp {
                let mut m = format!("{label}: got {v:?} expected {exp:?}");
                m.truncate(2000);
                fail(m)
            }
        }
        Err(e) => fail(format!("{label}: panicked: {e}")),
    }
}

// ---------------------------------------------------------------- generator
pub struct G {
    pub s: u64,
    pub max: usize,
}
impl G {
    pub fn new(seed: u64) -> G {
        G { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, max: 40 }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn chance(&mut self, p: u32) -> bool {
        self.below(100) < p as usize
    }
    pub fn pick<T: Copy>(&mut self, x: &[T]) -> T {
        x[self.below(x.len())]
    }
    pub fn word(&mut self) -> u64 {
        let m = if W == 64 { u64::MAX } else { (1 << W) - 1 };
        let w = match self.below(12) {
            0 => 0,
            1 => m,
            2 => m - 1,
            3 => 1,
            4 => 1 << (W - 1),
            5 => (1 << (W - 1)) - 1,
            6 => (1 << (W - 1)) + 1,
            7 => 1 << self.below(WB),
            8 => (1 << self.below(WB)) - 1,
            9 => self.u64() & self.u64() & self.u64(),
            _ => self.u64(),
        };
        w & m
    }
    /// Length in words, at most `max`.
    pub fn len(&mut self, max: usize) -> usize {
        let r = match self.below(100) {
            0..=24 => self.below(4),
            25..=59 => self.below(9),
            60..=84 => self.below(36),
            85..=94 => self.below(90),
            _ => self.below(max + 1),
        };
        r.min(max)
    }
    pub fn words(&mut self, len: usize) -> N {
        let m = if W == 64 { u64::MAX } else { (1u64 << W) - 1 };
        let mut v: Vec<u64> = match self.below(7) {
            0 | 1 => (0..len).map(|_| self.u64() & m).collect(),
            2 => vec![m; len],
            3 => (0..len).map(|_| self.word()).collect(),
            4 => {
                // runs of equal words
                let mut v = vec![];
                while v.len() < len {
                    let w = self.word();
                    let k = 1 + self.below(6);
                    for _ in 0..k {
                        if v.len() < len {
                            v.push(w);
                        }
                    }
                }
                v
            }
            5 => {
                // single bit, possibly +-1
                let k = if len == 0 { 0 } else { (len - 1) * WB + self.below(WB) };
                let b = N::one().shl(k);
                let b = match self.below(4) {
                    0 => b,
                    1 => b.add(&N::one()),
                    2 => b.sub(&N::one()),
                    _ => b.add(&N::one().shl(self.below(k + 1))),
                };
                b.to_words(W)
            }
            _ => {
                // runs of equal bits
                let mut n = N::zero();
                let total = len * WB;
                let mut pos = 0;
                let mut bit = self.chance(50);
                while pos < total {
                    let k = (1 + self.below(2 * WB + 8)).min(total - pos);
                    if bit {
                        n = n.add(&N::one().shl(pos + k).sub(&N::one().shl(pos)));
                    }
                    bit = !bit;
                    pos += k;
                    if len > 100 {
                        break;
                    }
                }
                n.to_words(W)
            }
        };
        v.truncate(len);
        if let Some(l) = v.last_mut() {
            match self.below(8) {
                0 => *l = 1,
                1 => *l = m,
                2 => *l |= 1 << (W - 1),
                3 => *l >>= self.below(WB),
                _ => {}
            }
        }
        N::from_words(&v, W)
    }
    pub fn nat(&mut self) -> N {
        let l = self.len(self.max);
        self.words(l)
    }
    pub fn nz(&mut self) -> N {
        let n = self.nat();
        if n.is_zero() {
            N::one()
        } else {
            n
        }
    }
    pub fn int(&mut self) -> Z {
        let n = self.nat();
        Z::new(self.chance(50), n)
    }
    /// A value near `x`: equal, +-1, a changed word, or a shared prefix.
    pub fn near(&mut self, x: &N) -> N {
        match self.below(6) {
            0 => x.clone(),
            1 => x.add(&N::one()),
            2 if !x.is_zero() => x.sub(&N::one()),
            3 if !x.is_zero() => {
                let mut w = x.to_words(W);
                let i = self.below(w.len());
                w[i] = self.word();
                N::from_words(&w, W)
            }
            4 => {
                let k = self.len(self.max);
                let y = self.words(k);
                let s = k * WB;
                x.shr(s).shl(s).add(&y)
            }
            _ => self.nat(),
        }
    }
    pub fn pair(&mut self) -> (N, N) {
        let a = self.nat();
        let b = if self.chance(25) { self.near(&a) } else { self.nat() };
        if self.chance(50) {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn prim(&mut self) -> u128 {
        match self.below(8) {
            0 => self.below(4) as u128,
            1 => u128::MAX >> self.below(128),
            2 => 1u128 << self.below(128),
            3 => (1u128 << self.below(128)).wrapping_sub(self.below(3) as u128),
            4 => (1u128 << self.below(128)).wrapping_add(self.below(3) as u128),
            5 => !(1u128 << self.below(128)),
            6 => self.u64() as u128 >> self.below(64),
            _ => ((self.u64() as u128) << 64 | self.u64() as u128) >> self.below(128),
        }
    }
    pub fn shift(&mut self, bits: usize) -> usize {
        match self.below(6) {
            0 => self.below(3),
            1 => WB * self.below(6),
            2 => (WB * (1 + self.below(6))).wrapping_add_signed(self.below(3) as isize - 1),
            3 => (bits + self.below(5)).saturating_sub(2),
            4 => self.below(bits + 1),
            _ => self.below(300),
        }
    }
}

pub struct Op {
    pub name: &'static str,
    pub weight: u32,
    pub gen: fn(&mut G) -> Vec<A>,
    pub run: fn(&[A]),
}

/// Run one case. None: fine.
pub fn run_case(op: &Op, args: &[A]) -> Option<String> {
    ERR.with(|e| *e.borrow_mut() = None);
    let r = catch(|| (op.run)(args));
    let e = ERR.with(|e| e.borrow_mut().take());
    if e.is_some() {
        return e;
    }
    match r {
        Ok(()) => None,
        Err(_) if strict() => None,
        Err(m) => Some(format!("panicked: {m}")),
    }
}
