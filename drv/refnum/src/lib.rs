//! Independent reference integers: little-endian u32 limbs, schoolbook algorithms.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct N(pub Vec<u32>);

impl N {
    pub fn norm(mut self) -> N {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn zero() -> N {
        N(vec![])
    }
    pub fn one() -> N {
        N(vec![1])
    }
    pub fn from_u128(mut x: u128) -> N {
        let mut v = vec![];
        while x != 0 {
            v.push(x as u32);
            x >>= 32;
        }
        N(v)
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 {
            return None;
        }
        Some(self.0.iter().rev().fold(0, |a, &x| a << 32 | x as u128))
    }
    /// words of `bits` bits each
    pub fn from_words(w: &[u64], bits: u32) -> N {
        let mut r = vec![];
        match bits {
            64 => {
                for x in w {
                    r.push(*x as u32);
                    r.push((*x >> 32) as u32);
                }
            }
            32 => {
                for x in w {
                    r.push(*x as u32);
                }
            }
            16 => {
                for c in w.chunks(2) {
                    r.push(c[0] as u32 | (c.get(1).copied().unwrap_or(0) as u32) << 16);
                }
            }
            _ => unreachable!(),
        }
        N(r).norm()
    }
    pub fn to_words(&self, bits: u32) -> Vec<u64> {
        let mut r: Vec<u64> = vec![];
        match bits {
            64 => {
                for c in self.0.chunks(2) {
                    r.push(c[0] as u64 | (c.get(1).copied().unwrap_or(0) as u64) << 32);
                }
            }
            32 => r.extend(self.0.iter().map(|x| *x as u64)),
            16 => {
                for x in &self.0 {
                    r.push((*x & 0xffff) as u64);
                    r.push((*x >> 16) as u64);
                }
            }
            _ => unreachable!(),
        }
        while r.last() == Some(&0) {
            r.pop();
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bit_len(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(x) => self.0.len() * 32 - x.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, n: usize) -> bool {
        n / 32 < self.0.len() && self.0[n / 32] >> (n % 32) & 1 != 0
    }
    pub fn trailing_zeros(&self) -> Option<usize> {
        for (i, x) in self.0.iter().enumerate() {
            if *x != 0 {
                return Some(i * 32 + x.trailing_zeros() as usize);
            }
        }
        None
    }
    pub fn cmp(&self, o: &N) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
    pub fn lt(&self, o: &N) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn add(&self, o: &N) -> N {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        N(r).norm()
    }
    pub fn sub(&self, o: &N) -> N {
        assert!(!self.lt(o));
        let mut r = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if d < 0 {
                d += 1 << 32;
                b = 1;
            }
            r.push(d as u32);
        }
        N(r).norm()
    }
    pub fn mul(&self, o: &N) -> N {
        if self.is_zero() || o.is_zero() {
            return N::zero();
        }
        let mut r = vec![0u32; self.0.len() + o.0.len()];
        for (i, x) in self.0.iter().enumerate() {
            if *x == 0 {
                continue;
            }
            let mut c = 0u64;
            let x = *x as u64;
            let row = &mut r[i..];
            for (y, t) in o.0.iter().zip(row.iter_mut()) {
                c += x * *y as u64 + *t as u64;
                *t = c as u32;
                c >>= 32;
            }
            row[o.0.len()] = c as u32;
        }
        N(r).norm()
    }
    pub fn mul_small_add(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for x in self.0.iter_mut() {
            c += *x as u64 * m as u64;
            *x = c as u32;
            c >>= 32;
        }
        if c != 0 {
            self.0.push(c as u32);
        }
    }
    pub fn divrem_small(&self, d: u32) -> (N, u32) {
        let mut q = vec![0; self.0.len()];
        let mut r = 0u64;
        for i in (0..self.0.len()).rev() {
            r = r << 32 | self.0[i] as u64;
            q[i] = (r / d as u64) as u32;
            r %= d as u64;
        }
        (N(q).norm(), r as u32)
    }
    pub fn shl(&self, n: usize) -> N {
        if self.is_zero() {
            return N::zero();
        }
        let mut r = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u64;
        for x in &self.0 {
            c |= (*x as u64) << s;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        N(r).norm()
    }
    pub fn shr(&self, n: usize) -> N {
        let k = n / 32;
        if k >= self.0.len() {
            return N::zero();
        }
        let s = n % 32;
        let mut r = vec![];
        for i in k..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0) as u64;
            r.push(((hi << 32 | self.0[i] as u64) >> s) as u32);
        }
        N(r).norm()
    }
    pub fn low_bits_nonzero(&self, n: usize) -> bool {
        match self.trailing_zeros() {
            None => false,
            Some(z) => z < n,
        }
    }
    /// Knuth D; checked by the identity a = q * d + r, r < d.
    pub fn divrem(&self, d: &N) -> (N, N) {
        assert!(!d.is_zero());
        if self.lt(d) {
            return (N::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let (q, r) = self.divrem_small(d.0[0]);
            return (q, N::from_u128(r as u128));
        }
        let s = d.0.last().unwrap().leading_zeros() as usize;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        u.resize(self.0.len() + 1, 0);
        let n = v.len();
        let m = u.len() - n;
        let mut q = vec![0u32; m];
        for j in (0..m).rev() {
            let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= 1 << 32 || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= 1 << 32 {
                    break;
                }
            }
            let mut b = 0i64;
            let mut c = 0u64;
            for i in 0..n {
                c += qh * v[i] as u64;
                let t = u[i + j] as i64 - (c as u32) as i64 - b;
                c >>= 32;
                u[i + j] = t as u32;
                b = (t < 0) as i64;
            }
            let t = u[j + n] as i64 - c as i64 - b;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    c += u[i + j] as u64 + v[i] as u64;
                    u[i + j] = c as u32;
                    c >>= 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        (N(q).norm(), N(u).norm().shr(s))
    }
    pub fn pow(&self, mut e: usize) -> N {
        let mut r = N::one();
        let mut b = self.clone();
        while e != 0 {
            if e & 1 != 0 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e != 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn gcd(&self, o: &N) -> N {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.divrem(&b).1;
            a = b;
            b = r;
        }
        a
    }
    pub fn to_radix(&self, radix: u32) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut big = radix;
        let mut k = 1;
        while (big as u64) * (radix as u64) < 1 << 32 {
            big *= radix;
            k += 1;
        }
        let mut s = vec![];
        let mut x = self.clone();
        while !x.is_zero() {
            let (q, mut r) = x.divrem_small(big);
            x = q;
            for _ in 0..k {
                s.push(std::char::from_digit(r % radix, radix).unwrap());
                r /= radix;
            }
        }
        while s.last() == Some(&'0') {
            s.pop();
        }
        s.iter().rev().collect()
    }
    pub fn from_radix(s: &str, radix: u32) -> N {
        let mut r = N::zero();
        let (mut m, mut a) = (1u32, 0u32);
        for c in s.chars() {
            let d = c.to_digit(radix).unwrap();
            a = a * radix + d;
            m *= radix;
            if m as u64 * radix as u64 >= 1 << 32 {
                r.mul_small_add(m, a);
                m = 1;
                a = 0;
            }
        }
        if m > 1 {
            r.mul_small_add(m, a);
        }
        r
    }
    pub fn hex(&self) -> String {
        match self.0.split_last() {
            None => "0".to_string(),
            Some((t, r)) => {
                let mut s = format!("{t:x}");
                for x in r.iter().rev() {
                    s.push_str(&format!("{x:08x}"));
                }
                s
            }
        }
    }
    /// the inverse of `hex`
    pub fn from_hex(s: &str) -> N {
        let b = s.as_bytes();
        N(b.rchunks(8).map(|c| u32::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()).norm()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Z {
    pub neg: bool,
    pub mag: N,
}

impl Z {
    pub fn new(neg: bool, mag: N) -> Z {
        Z { neg: neg && !mag.is_zero(), mag }
    }
    pub fn nat(n: &N) -> Z {
        Z::new(false, n.clone())
    }
    pub fn from_i128(x: i128) -> Z {
        Z::new(x < 0, N::from_u128(x.unsigned_abs()))
    }
    pub fn neg(&self) -> Z {
        Z::new(!self.neg, self.mag.clone())
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    pub fn add(&self, o: &Z) -> Z {
        if self.neg == o.neg {
            return Z::new(self.neg, self.mag.add(&o.mag));
        }
        if self.mag.lt(&o.mag) {
            Z::new(o.neg, o.mag.sub(&self.mag))
        } else {
            Z::new(self.neg, self.mag.sub(&o.mag))
        }
    }
    pub fn sub(&self, o: &Z) -> Z {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Z) -> Z {
        Z::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
    pub fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
    /// truncating
    pub fn divrem(&self, o: &Z) -> (Z, Z) {
        let (q, r) = self.mag.divrem(&o.mag);
        (Z::new(self.neg != o.neg, q), Z::new(self.neg, r))
    }
    pub fn divrem_euclid(&self, o: &Z) -> (Z, Z) {
        let (q, r) = self.divrem(o);
        if r.neg {
            let one = Z::from_i128(1);
            if o.neg {
                (q.add(&one), r.add(&o.neg()))
            } else {
                (q.sub(&one), r.add(o))
            }
        } else {
            (q, r)
        }
    }
    /// floor(self / 2^n)
    pub fn shr(&self, n: usize) -> Z {
        let q = self.mag.shr(n);
        if self.neg && self.mag.low_bits_nonzero(n) {
            Z::new(true, q.add(&N::one()))
        } else {
            Z::new(self.neg, q)
        }
    }
    pub fn shl(&self, n: usize) -> Z {
        Z::new(self.neg, self.mag.shl(n))
    }
    /// two's complement limbs, `len` of them
    fn twos(&self, len: usize) -> Vec<u32> {
        let mut v = self.mag.0.clone();
        v.resize(len, 0);
        if self.neg {
            let mut c = 1u64;
            for x in v.iter_mut() {
                c += !*x as u64;
                *x = c as u32;
                c >>= 32;
            }
        }
        v
    }
    pub fn bitop(&self, o: &Z, f: impl Fn(u32, u32) -> u32) -> Z {
        let len = self.mag.0.len().max(o.mag.0.len()) + 1;
        let (a, b) = (self.twos(len), o.twos(len));
        let mut r: Vec<u32> = a.iter().zip(b.iter()).map(|(x, y)| f(*x, *y)).collect();
        let neg = r[len - 1] >> 31 != 0;
        if neg {
            let mut c = 1u64;
            for x in r.iter_mut() {
                c += !*x as u64;
                *x = c as u32;
                c >>= 32;
            }
        }
        Z::new(neg, N(r).norm())
    }
    pub fn to_i128(&self) -> Option<i128> {
        let m = self.mag.to_u128()?;
        if self.neg {
            if m > 1 << 127 {
                None
            } else {
                Some((m as i128).wrapping_neg())
            }
        } else {
            i128::try_from(m).ok()
        }
    }
    pub fn hex(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.hex())
    }
}
