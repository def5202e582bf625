From 1743b7d22bce6081618402a5e6ce0b61ab36df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:22 +0000
Subject: [PATCH 1/7] fix: dividing a constant by a signal computed the
 reciprocal quotient

CNum /= with a constant dividend returned other / self instead of
self / other (and panicked on a constant zero dividend).
---
 src/circuit/num.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/circuit/num.rs b/src/circuit/num.rs
index 7793fbd..ab9f68d 100644
--- a/src/circuit/num.rs
+++ b/src/circuit/num.rs
@@ -495,11 +495,8 @@ impl<'l, 'a, CS: ConstraintSystem> MulAssign<&'l CNum<'a, CS>> for CNum<'a, CS>
 impl<'l, 'a, CS: ConstraintSystem> DivAssign<&'l CNum<'a, CS>> for CNum<'a, CS> {
     #[inline]
     fn div_assign(&mut self, other: &'l CNum<'a, CS>) {
-        match (self.as_const(), other.as_const()) {
-            (Some(a), _) => {
-                *self = other / a;
-            }
-            (_, Some(b)) => *self /= b,
+        match other.as_const() {
+            Some(b) => *self /= b,
             _ => {
                 let value = match (self.get_value(), other.get_value()) {
                     (Some(a), Some(b)) => Some(a / b),
-- 
2.43.0


From 1eb2790411dda379bae5505b78f1a2d32e95754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:22 +0000
Subject: [PATCH 2/7] fix: SizedVec deserialization accepted any number of
 elements

---
 src/core/sizedvec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/sizedvec.rs b/src/core/sizedvec.rs
index fdb2204..2804bfa 100644
--- a/src/core/sizedvec.rs
+++ b/src/core/sizedvec.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{Deserialize, Deserializer, Error},
     ser::{Serialize, Serializer},
 };
 use typenum::Unsigned;
@@ -33,7 +33,11 @@ impl<T: Serialize, L: Unsigned> Serialize for SizedVec<T, L> {
 
 impl<'de, T: Deserialize<'de>, L: Unsigned> Deserialize<'de> for SizedVec<T, L> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SizedVec<T, L>, D::Error> {
-        Vec::<T>::deserialize(deserializer).map(|v| SizedVec::<T, L>(v, PhantomData))
+        let v = Vec::<T>::deserialize(deserializer)?;
+        if v.len() != L::USIZE {
+            return Err(D::Error::custom("Wrong length of SizedVec"));
+        }
+        Ok(SizedVec::<T, L>(v, PhantomData))
     }
 }
 
-- 
2.43.0


From 45d99810b78df560ca87080d1138f2f7aa03b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:22 +0000
Subject: [PATCH 3/7] fix: conversion of i32::MIN and i64::MIN to Num
 overflowed

---
 src/native/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/num.rs b/src/native/num.rs
index e58594a..e783ec5 100644
--- a/src/native/num.rs
+++ b/src/native/num.rs
@@ -287,7 +287,7 @@ impl<T: Field> From<BigInt> for Num<T> {
 impl<T: Field> From<i64> for Num<T> {
     fn from(n: i64) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
@@ -307,7 +307,7 @@ impl<T: Field> From<u32> for Num<T> {
 impl<T: Field> From<i32> for Num<T> {
     fn from(n: i32) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
-- 
2.43.0


From 1f4de605aeba2022eeaca8ab4e1b9e2f7a23f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:22 +0000
Subject: [PATCH 4/7] fix: bn256 G2 point data outside the prime order subgroup
 was accepted

The twist has a nontrivial cofactor; the bls12-381 conversion already
checks subgroup membership.
---
 src/helpers/groth16/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 78d1f4c..a82290c 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -134,7 +134,12 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
         );
-        unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) }
+        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
+        assert!(
+            res.mul(bn256::Fr::char()).is_zero(),
+            "point should be in subgroup"
+        );
+        res
     }
 }
 
-- 
2.43.0


From 15b5b68450a46169c58537f18cb69b207bd05d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:22 +0000
Subject: [PATCH 5/7] fix: TruncatedVerifyingKey::read accepted a truncated key

A partial trailing point, or a read error, was taken for the end of the list.
---
 src/helpers/groth16/verifier.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 35e7b61..05cd32c 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -161,7 +161,25 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
 
         let mut ic = vec![];
 
-        while reader.read_exact(g1_repr.as_mut()).is_ok() {
+        loop {
+            // the list ends where the input ends; a partial point or a failing
+            // reader is an error
+            let len = g1_repr.as_ref().len();
+            let mut filled = 0;
+            while filled < len {
+                match reader.read(&mut g1_repr.as_mut()[filled..]) {
+                    Ok(0) => break,
+                    Ok(n) => filled += n,
+                    Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+                    Err(e) => return Err(e),
+                }
+            }
+            if filled == 0 {
+                break;
+            }
+            if filled < len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             let g1 = g1_repr
                 .into_affine()
                 .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-- 
2.43.0


From 76f765610eaffead56f726697b8b724bf0c7a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:00 +0000
Subject: [PATCH 6/7] fix: reading a SizedVec signal with an unassigned or
 variable component panicked

---
 src/core/signal.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.rs b/src/core/signal.rs
index d1af1cd..c935191 100644
--- a/src/core/signal.rs
+++ b/src/core/signal.rs
@@ -53,7 +53,10 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     type Value = SizedVec<T::Value, L>;
 
     fn get_value(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.get_value()).collect()
+        self.iter()
+            .map(|v| v.get_value())
+            .collect::<Option<Vec<_>>>()
+            .map(|v| v.into_iter().collect())
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
@@ -72,7 +75,10 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     }
 
     fn as_const(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.as_const()).collect()
+        self.iter()
+            .map(|v| v.as_const())
+            .collect::<Option<Vec<_>>>()
+            .map(|v| v.into_iter().collect())
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-- 
2.43.0


From 2464c68eaacb3759fe307c946de65824d973b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:54 +0000
Subject: [PATCH 7/7] hook: position the seeded generator (cfg fawkes_verif)

---
 src/core/seedbox.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/seedbox.rs b/src/core/seedbox.rs
index 473dcb0..3368ac2 100644
--- a/src/core/seedbox.rs
+++ b/src/core/seedbox.rs
@@ -36,6 +36,15 @@ impl SeedboxBlake2 {
     }
 }
 
+#[cfg(fawkes_verif)]
+impl SeedboxBlake2 {
+    /// Verification hook: continue as if the first `blocks` blocks had been consumed.
+    pub fn verif_skip_blocks(&mut self, blocks: u64) {
+        self.n_iter = blocks;
+        self.n_limb = 8;
+    }
+}
+
 impl Rng for SeedboxBlake2 {
     fn next_u32(&mut self) -> u32 {
         if self.n_limb == 8 {
-- 
2.43.0

