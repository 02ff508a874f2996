From bccf61c64d9d0a971befb131fea842634ea16b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 1/5] fix: UBig::clear_bit of a bit above a one-word value no
 longer zeroes the value

---
 src/bits.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bits.rs b/src/bits.rs
index defa629..f3e18d1 100644
--- a/src/bits.rs
+++ b/src/bits.rs
@@ -100,8 +100,10 @@ impl UBig {
     pub fn clear_bit(&mut self, n: usize) {
         match mem::take(self).into_repr() {
             Small(word) => {
-                if n < WORD_BITS_USIZE {
-                    *self = UBig::from_word(word & !(1 << n))
+                *self = if n < WORD_BITS_USIZE {
+                    UBig::from_word(word & !(1 << n))
+                } else {
+                    UBig::from_word(word)
                 }
             }
             Large(buffer) => *self = UBig::without_bit_large(buffer, n),
-- 
2.43.0


From 1adb8512c1c1fb8c7f0ab4b9aabb4996480585ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 2/5] fix: Signed::abs_sub of IBig is zero when self <= other,
 as num-traits specifies

---
 src/num_traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_traits.rs b/src/num_traits.rs
index cec7076..0c9c808 100644
--- a/src/num_traits.rs
+++ b/src/num_traits.rs
@@ -88,7 +88,11 @@ impl num_traits::Signed for IBig {
 
     #[inline]
     fn abs_sub(&self, other: &Self) -> Self {
-        Abs::abs(self - other)
+        if self <= other {
+            IBig::from(0u8)
+        } else {
+            self - other
+        }
     }
 
     #[inline]
-- 
2.43.0


From e2cfe12107e3c2b54c767588ced445f6ce4f2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:38 +0000
Subject: [PATCH 3/5] fix: ModuloRing::from accepts every UBig up to the
 maximum length

---
 src/modular/convert.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modular/convert.rs b/src/modular/convert.rs
index d709966..ee17685 100644
--- a/src/modular/convert.rs
+++ b/src/modular/convert.rs
@@ -10,7 +10,7 @@ use crate::{
         modulo::{Modulo, ModuloLarge, ModuloRepr, ModuloSmall, ModuloSmallRaw},
         modulo_ring::{ModuloRing, ModuloRingLarge, ModuloRingRepr, ModuloRingSmall},
     },
-    primitive::extend_word,
+    primitive::{extend_word, split_double_word},
     shift,
     sign::Sign::*,
     ubig::{Repr, UBig},
@@ -197,13 +197,21 @@ impl<'a> ModuloSmall<'a> {
 }
 
 impl<'a> ModuloLarge<'a> {
-    pub(crate) fn from_ubig(mut x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
-        x <<= ring.shift() as usize;
+    pub(crate) fn from_ubig(x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
         let modulus = ring.normalized_modulus();
         let mut vec = Vec::with_capacity(modulus.len());
         match x.into_repr() {
-            Repr::Small(word) => vec.push(word),
+            Repr::Small(word) => {
+                let (lo, hi) = split_double_word(extend_word(word) << ring.shift());
+                vec.push(lo);
+                vec.push(hi);
+            }
             Repr::Large(mut words) => {
+                // `x << shift` may be too large for a `UBig`.
+                let carry = shift::shl_in_place(&mut words, ring.shift());
+                if carry != 0 {
+                    words.push_may_reallocate(carry);
+                }
                 if words.len() < modulus.len() {
                     vec.extend(&*words);
                 } else {
-- 
2.43.0


From f62549089e6a26fcfb98537fb50db430a2111d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:56 +0000
Subject: [PATCH 4/5] fix: extended_gcd no longer fails on operands near the
 maximum length

---
 src/gcd.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/gcd.rs b/src/gcd.rs
index 7b097d0..a4a653f 100644
--- a/src/gcd.rs
+++ b/src/gcd.rs
@@ -132,19 +132,27 @@ impl UBig {
             mem::swap(&mut ay, &mut by);
         }
 
+        let u_half = &u >> 1usize;
+        let v_half = &v >> 1usize;
+
         // Binary algorithm.
         while a != UBig::from_word(0) {
             // b is odd
             while &a & 1u8 == 0u8 {
                 // a is even
-                if &ax & 1u8 != 0u8 || &ay & 1u8 != 0u8 {
-                    ax += &v;
-                    ay += &u;
-                }
-                // Now ax, ay are even.
+                let ax_odd = &ax & 1u8;
+                let ay_odd = &ay & 1u8;
                 a >>= 1usize;
                 ax >>= 1usize;
                 ay >>= 1usize;
+                if ax_odd != 0u8 || ay_odd != 0u8 {
+                    // ax + v, ay + u were even, but they may be too large for a `UBig`.
+                    // ax = (ax + v) / 2, ay = (ay + u) / 2
+                    ax += &v_half;
+                    ax += ax_odd;
+                    ay += &u_half;
+                    ay += ay_odd;
+                }
                 // Again ax <= v, bx <= u.
             }
             // Both a and b are odd.
@@ -155,11 +163,13 @@ impl UBig {
             }
             a -= &b;
             if ax < bx {
-                ax += &v;
-                ay += &u;
+                // ax + v, ay + u may be too large for a `UBig`.
+                ax += &v - &bx;
+                ay += &u - &by;
+            } else {
+                ax -= &bx;
+                ay -= &by;
             }
-            ax -= &bx;
-            ay -= &by;
             // ax >= 0 in both cases
             // ax <= v in both cases
             // ax * u - ay * v = a
-- 
2.43.0


From 035f286c3ca9a36fbf50fae92c4c2aeaa29dbb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:33 +0000
Subject: [PATCH 5/5] fix: deserialize untrusted length hints without panicking
 or over-allocating

The size hint of a sequence comes from the data: bincode passes on the
length prefix. A wrong hint made deserialization panic (unwrap, assert,
"number too large"), and a large one allocated that much memory before
reading anything. Read the words one by one and use the hint only to
preallocate a bounded amount.
---
 src/serde.rs | 41 ++++++++++-------------------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 5c65e0a..02ac491 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -1,5 +1,4 @@
 use crate::{arch::word::Word, buffer::Buffer, ibig::IBig, primitive::WORD_BITS_USIZE, ubig::UBig};
-use alloc::vec::Vec;
 use core::fmt::{self, Formatter};
 use serde::{
     de::{Deserialize, Deserializer, SeqAccess, Visitor},
@@ -10,6 +9,9 @@ use static_assertions::const_assert;
 const_assert!(64 % WORD_BITS_USIZE == 0);
 const WORDS_PER_U64: usize = 64 / WORD_BITS_USIZE;
 
+/// Do not allocate space for more 64-bit words than this before having read them.
+const MAX_PREALLOCATED_LEN_64: usize = 1024;
+
 impl Serialize for UBig {
     #[allow(clippy::useless_conversion)]
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
@@ -42,37 +44,14 @@ impl<'de> Visitor<'de> for UBigVisitor {
     }
 
     fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<UBig, A::Error> {
-        match seq.size_hint() {
-            Some(0) => {
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from_word(0))
-            }
-            Some(1) => {
-                let word_64: u64 = seq.next_element()?.unwrap();
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from(word_64))
-            }
-            Some(num_words_64) => {
-                let mut buffer = Buffer::allocate(len_64_to_max_len(num_words_64));
-                for _ in 0..num_words_64 {
-                    let word_64: u64 = seq.next_element()?.unwrap();
-                    push_word_64(&mut buffer, word_64);
-                }
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(buffer.into())
-            }
-            None => {
-                let mut words_64 = Vec::new();
-                while let Some(word_64) = seq.next_element()? {
-                    words_64.push(word_64);
-                }
-                let mut buffer = Buffer::allocate(len_64_to_max_len(words_64.len()));
-                for word_64 in words_64 {
-                    push_word_64(&mut buffer, word_64);
-                }
-                Ok(buffer.into())
-            }
+        // The hint may come from untrusted data: it can be wrong and arbitrarily large.
+        let num_words_64 = seq.size_hint().unwrap_or(0).min(MAX_PREALLOCATED_LEN_64);
+        let mut buffer = Buffer::allocate(len_64_to_max_len(num_words_64));
+        while let Some(word_64) = seq.next_element()? {
+            buffer.ensure_capacity(buffer.len() + WORDS_PER_U64);
+            push_word_64(&mut buffer, word_64);
         }
+        Ok(buffer.into())
     }
 }
 
-- 
2.43.0

