From 51ffb73a0b5cf8b0e090261e2725c8165351e18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 1/3] fix: implement the pallas CachedSpec for
 P128Pow5T3Compact so the long+test configuration compiles

HashSpec<F> is P128Pow5T3Compact<F> only with the short feature; without it the
alias is P128Pow5T3<F>, so the impl for HashSpec<Fp> overlapped the one for
P128Pow5T3<Fp> (E0119) and the crate did not build with --no-default-features
--features test.
---
 poseidon-base/src/primitives/pasta/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/poseidon-base/src/primitives/pasta/mod.rs b/poseidon-base/src/primitives/pasta/mod.rs
index bc7fd69..54de53a 100644
--- a/poseidon-base/src/primitives/pasta/mod.rs
+++ b/poseidon-base/src/primitives/pasta/mod.rs
@@ -1,4 +1,3 @@
-use crate::hash::HashSpec;
 use halo2curves::{group::ff::PrimeField, pasta};
 use once_cell::sync::Lazy;
 pub use pasta::pallas;
@@ -22,13 +21,7 @@ impl P128Pow5T3Constants for Fp {
     }
 }
 
-impl CachedSpec<Fp, 3, 2> for HashSpec<Fp> {
-    #[cfg(not(feature = "short"))]
-    fn cached_round_constants() -> &'static [[Fp; 3]] {
-        &fp::ROUND_CONSTANTS
-    }
-
-    #[cfg(feature = "short")]
+impl CachedSpec<Fp, 3, 2> for P128Pow5T3Compact<Fp> {
     fn cached_round_constants() -> &'static [[Fp; 3]] {
         static ROUND_CONSTANTS: Lazy<Vec<[Fp; 3]>> = Lazy::new(|| P128Pow5T3Compact::constants().0);
         &ROUND_CONSTANTS
-- 
2.43.0


From 4b4b50730cdb75551ccb360976d01ce0c54d7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 2/3] fix: keep controls aligned when a stream follows constant
 inputs in the hash table

---
 poseidon-circuit/src/hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index 0f6cae6..da68330 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -306,6 +306,8 @@ impl<F: PrimeField> PoseidonHashTable<F> {
         .collect();
 
         assert_eq!(new_inps.len(), ctrl_series.len());
+        // constant inputs may have left controls shorter than inputs
+        self.controls.resize(self.inputs.len(), 0);
         self.inputs.append(&mut new_inps);
         self.controls.append(&mut ctrl_series);
         assert_eq!(self.inputs.len(), self.controls.len());
-- 
2.43.0


From 284f337bf48f6dc08c821e23f5f21c352baf91dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 3/3] fix: refuse tables larger than the reservation in
 parallel loading too

---
 poseidon-circuit/src/hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index da68330..6f1c63f 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -780,6 +780,8 @@ where
             )?;
             let data = self.data;
 
+            assert!(self.calcs >= data.inputs.len() && self.calcs >= data.controls.len());
+
             let inputs_i = data
                 .inputs
                 .iter()
-- 
2.43.0

