From bb25dbb39855a35603150bd28c8dcd2b9a11fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 1/6] fix: UBig::clear_bit past the top of a one-word number
 lost the value

---
 src/bits.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bits.rs b/src/bits.rs
index defa629..f3e18d1 100644
--- a/src/bits.rs
+++ b/src/bits.rs
@@ -100,8 +100,10 @@ impl UBig {
     pub fn clear_bit(&mut self, n: usize) {
         match mem::take(self).into_repr() {
             Small(word) => {
-                if n < WORD_BITS_USIZE {
-                    *self = UBig::from_word(word & !(1 << n))
+                *self = if n < WORD_BITS_USIZE {
+                    UBig::from_word(word & !(1 << n))
+                } else {
+                    UBig::from_word(word)
                 }
             }
             Large(buffer) => *self = UBig::without_bit_large(buffer, n),
-- 
2.43.0


From b68e5514d265b489e7153514a30e405fd7a831ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:02 +0000
Subject: [PATCH 2/6] fix: num_traits::Signed::abs_sub must be zero when self
 <= other

---
 src/num_traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_traits.rs b/src/num_traits.rs
index cec7076..0c9c808 100644
--- a/src/num_traits.rs
+++ b/src/num_traits.rs
@@ -88,7 +88,11 @@ impl num_traits::Signed for IBig {
 
     #[inline]
     fn abs_sub(&self, other: &Self) -> Self {
-        Abs::abs(self - other)
+        if self <= other {
+            IBig::from(0u8)
+        } else {
+            self - other
+        }
     }
 
     #[inline]
-- 
2.43.0


From 31fbfc777b02ac6cfa9ef798443f3c5fff90d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 3/6] Add verification hooks guarded by cfg(ibig_verif)

---
 src/lib.rs   |  4 ++++
 src/verif.rs | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 65 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index cca568e..068d350 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,3 +105,7 @@ pub mod rand;
 
 #[cfg(feature = "serde")]
 mod serde;
+
+#[cfg(ibig_verif)]
+#[doc(hidden)]
+pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..7fae7f4
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,61 @@
+//! Hooks for external verification: access to the representation.
+//!
+//! Only compiled with `--cfg ibig_verif`.
+
+use crate::{
+    arch::word::Word,
+    buffer::Buffer,
+    ibig::IBig,
+    primitive::WORD_BITS,
+    sign::Sign,
+    ubig::{Repr, UBig},
+};
+use alloc::vec::Vec;
+
+/// Number of bits in a machine word of this build.
+pub const VERIF_WORD_BITS: u32 = WORD_BITS;
+
+impl UBig {
+    /// Little-endian words, each extended to u64.
+    pub fn verif_words(&self) -> Vec<u64> {
+        match self.repr() {
+            Repr::Small(0) => Vec::new(),
+            Repr::Small(w) => [u64::from(*w)].to_vec(),
+            Repr::Large(buffer) => buffer.iter().map(|w| u64::from(*w)).collect(),
+        }
+    }
+
+    /// (is large, length of the buffer, capacity of the buffer).
+    pub fn verif_repr(&self) -> (bool, usize, usize) {
+        match self.repr() {
+            Repr::Small(_) => (false, 1, 1),
+            Repr::Large(buffer) => (true, buffer.len(), buffer.capacity()),
+        }
+    }
+
+    /// Construct from little-endian words.
+    pub fn verif_from_words(words: &[u64]) -> UBig {
+        let mut buffer = Buffer::allocate(words.len());
+        for w in words {
+            buffer.push(*w as Word);
+        }
+        UBig::from(buffer)
+    }
+}
+
+impl IBig {
+    /// (is negative, magnitude).
+    pub fn verif_parts(&self) -> (bool, &UBig) {
+        (self.sign() == Sign::Negative, self.magnitude())
+    }
+
+    /// Construct from sign and magnitude.
+    pub fn verif_from_parts(negative: bool, magnitude: UBig) -> IBig {
+        let sign = if negative {
+            Sign::Negative
+        } else {
+            Sign::Positive
+        };
+        IBig::from_sign_magnitude(sign, magnitude)
+    }
+}
-- 
2.43.0


From b7fd359f03af8f5a9b9a84261995953e2570e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:29 +0000
Subject: [PATCH 4/6] fix: ModuloRing::from must accept every UBig (no 'number
 too large' near the limit)

---
 src/modular/convert.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/modular/convert.rs b/src/modular/convert.rs
index d709966..62afec5 100644
--- a/src/modular/convert.rs
+++ b/src/modular/convert.rs
@@ -10,13 +10,14 @@ use crate::{
         modulo::{Modulo, ModuloLarge, ModuloRepr, ModuloSmall, ModuloSmallRaw},
         modulo_ring::{ModuloRing, ModuloRingLarge, ModuloRingRepr, ModuloRingSmall},
     },
-    primitive::extend_word,
+    primitive::{extend_word, split_double_word},
     shift,
     sign::Sign::*,
     ubig::{Repr, UBig},
 };
 use alloc::vec::Vec;
 use core::iter;
+use static_assertions::const_assert;
 
 impl ModuloRing {
     /// The ring modulus.
@@ -197,13 +198,21 @@ impl<'a> ModuloSmall<'a> {
 }
 
 impl<'a> ModuloLarge<'a> {
-    pub(crate) fn from_ubig(mut x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
-        x <<= ring.shift() as usize;
+    pub(crate) fn from_ubig(x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
         let modulus = ring.normalized_modulus();
         let mut vec = Vec::with_capacity(modulus.len());
         match x.into_repr() {
-            Repr::Small(word) => vec.push(word),
+            Repr::Small(word) => {
+                let (lo, hi) = split_double_word(extend_word(word) << ring.shift());
+                vec.extend(&[lo, hi]);
+            }
             Repr::Large(mut words) => {
+                // The shifted value may be longer than `UBig::MAX_LEN`, but it fits in a buffer.
+                const_assert!(Buffer::MAX_CAPACITY - UBig::MAX_LEN >= 1);
+                let carry = shift::shl_in_place(&mut words, ring.shift());
+                if carry != 0 {
+                    words.push_may_reallocate(carry);
+                }
                 if words.len() < modulus.len() {
                     vec.extend(&*words);
                 } else {
-- 
2.43.0


From efa8880ba0b58babb7da5468dfd61b43cf601a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:32 +0000
Subject: [PATCH 5/6] fix: extended_gcd does not panic on numbers near the size
 limit

Adding u and v to the cofactors before halving or subtracting could exceed the
maximum size although the results are within it.
---
 src/gcd.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/gcd.rs b/src/gcd.rs
index 7b097d0..db4f89e 100644
--- a/src/gcd.rs
+++ b/src/gcd.rs
@@ -137,14 +137,16 @@ impl UBig {
             // b is odd
             while &a & 1u8 == 0u8 {
                 // a is even
+                a >>= 1usize;
                 if &ax & 1u8 != 0u8 || &ay & 1u8 != 0u8 {
-                    ax += &v;
-                    ay += &u;
+                    // (ax + v) / 2 and (ay + u) / 2, computed so that nothing exceeds u or v:
+                    // the sums could be too large.
+                    ax = &v - ((&v - ax) >> 1usize);
+                    ay = &u - ((&u - ay) >> 1usize);
+                } else {
+                    ax >>= 1usize;
+                    ay >>= 1usize;
                 }
-                // Now ax, ay are even.
-                a >>= 1usize;
-                ax >>= 1usize;
-                ay >>= 1usize;
                 // Again ax <= v, bx <= u.
             }
             // Both a and b are odd.
@@ -155,11 +157,14 @@ impl UBig {
             }
             a -= &b;
             if ax < bx {
-                ax += &v;
-                ay += &u;
+                // ax + v - bx and ay + u - by, computed so that nothing exceeds u or v.
+                // ay <= by because ay + u - by <= u (see below).
+                ax = &v - (&bx - ax);
+                ay = &u - (&by - ay);
+            } else {
+                ax -= &bx;
+                ay -= &by;
             }
-            ax -= &bx;
-            ay -= &by;
             // ax >= 0 in both cases
             // ax <= v in both cases
             // ax * u - ay * v = a
-- 
2.43.0


From 4b074f002e548e83968912e13e05b6bd0d6e4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:32 +0000
Subject: [PATCH 6/6] fix: superfluous zero bytes do not count towards the size
 limit

from_le_bytes and from_be_bytes panicked on zero-padded inputs longer than the
maximum size even when the number itself fits.
---
 src/convert.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/convert.rs b/src/convert.rs
index 41c986b..adeaf6e 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -27,6 +27,24 @@ impl Default for IBig {
     }
 }
 
+/// Remove the superfluous zero bytes: they must not count towards the size limit.
+fn trim_le_bytes(bytes: &[u8]) -> &[u8] {
+    let mut len = bytes.len();
+    while len != 0 && bytes[len - 1] == 0 {
+        len -= 1;
+    }
+    &bytes[..len]
+}
+
+/// Remove the superfluous zero bytes: they must not count towards the size limit.
+fn trim_be_bytes(bytes: &[u8]) -> &[u8] {
+    let mut start = 0;
+    while start != bytes.len() && bytes[start] == 0 {
+        start += 1;
+    }
+    &bytes[start..]
+}
+
 impl UBig {
     /// Construct from little-endian bytes.
     ///
@@ -38,6 +56,7 @@ impl UBig {
     /// ```
     #[inline]
     pub fn from_le_bytes(bytes: &[u8]) -> UBig {
+        let bytes = trim_le_bytes(bytes);
         if bytes.len() <= WORD_BYTES {
             // fast path
             UBig::from_word(primitive::word_from_le_bytes_partial(bytes))
@@ -69,6 +88,7 @@ impl UBig {
     /// ```
     #[inline]
     pub fn from_be_bytes(bytes: &[u8]) -> UBig {
+        let bytes = trim_be_bytes(bytes);
         if bytes.len() <= WORD_BYTES {
             // fast path
             UBig::from_word(primitive::word_from_be_bytes_partial(bytes))
-- 
2.43.0

