From fdfea77643091be49d186aea4e44fe19ac8a020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 1/5] fix: mark prover density per variable, not per term

The generator sums the coefficients of each variable in a linear combination
and omits variables whose sum is zero from the A and B queries. The prover
marked a variable as dense as soon as one of its terms had a nonzero
coefficient, so proof creation failed (or used the wrong query elements) for
circuits with terms that cancel.
---
 groth16/src/prover.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index c61c2a0..baad488 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -1,4 +1,5 @@
 use rand_core::RngCore;
+use std::collections::BTreeMap;
 use std::ops::{AddAssign, MulAssign};
 use std::sync::Arc;
 
@@ -18,13 +19,19 @@ use bellman::multicore::Worker;
 
 fn eval<S: PrimeField>(
     lc: &LinearCombination<S>,
-    mut input_density: Option<&mut DensityTracker>,
-    mut aux_density: Option<&mut DensityTracker>,
+    input_density: Option<&mut DensityTracker>,
+    aux_density: Option<&mut DensityTracker>,
     input_assignment: &[S],
     aux_assignment: &[S],
 ) -> S {
     let mut acc = S::ZERO;
 
+    // The generator omits queries for variables whose terms in the linear
+    // combination cancel out, so the density has to be determined from the
+    // total coefficient of each variable.
+    let mut input_coeffs = BTreeMap::new();
+    let mut aux_coeffs = BTreeMap::new();
+
     for &(index, coeff) in lc.as_ref() {
         let mut tmp;
 
@@ -32,14 +39,14 @@ fn eval<S: PrimeField>(
             match index.get_unchecked() {
                 Index::Input(i) => {
                     tmp = input_assignment[i];
-                    if let Some(ref mut v) = input_density {
-                        v.inc(i);
+                    if input_density.is_some() {
+                        *input_coeffs.entry(i).or_insert(S::ZERO) += coeff;
                     }
                 }
                 Index::Aux(i) => {
                     tmp = aux_assignment[i];
-                    if let Some(ref mut v) = aux_density {
-                        v.inc(i);
+                    if aux_density.is_some() {
+                        *aux_coeffs.entry(i).or_insert(S::ZERO) += coeff;
                     }
                 }
             }
@@ -51,6 +58,18 @@ fn eval<S: PrimeField>(
         }
     }
 
+    let mark = |density: Option<&mut DensityTracker>, coeffs: BTreeMap<usize, S>| {
+        if let Some(density) = density {
+            for (i, coeff) in coeffs {
+                if !coeff.is_zero_vartime() {
+                    density.inc(i);
+                }
+            }
+        }
+    };
+    mark(input_density, input_coeffs);
+    mark(aux_density, aux_coeffs);
+
     acc
 }
 
-- 
2.43.0


From b64e8b5660768789cccc980c046f499f2933b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 2/5] fix: do not abort when a Waiter is dropped before its
 computation finishes

---
 src/multicore.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index acd2cd6..574c4c0 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -61,13 +61,15 @@ mod implementation {
                         current_num_threads(),
                         WORKER_SPAWN_COUNTER.load(Ordering::SeqCst));
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The waiter may have been dropped without waiting for the result.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             } else {
                 rayon::spawn(move || {
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The waiter may have been dropped without waiting for the result.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             }
-- 
2.43.0


From 678e19ac22c9b902c1ef37e73cbadfd80d443db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 3/5] fix: never pass a chunk size of zero in Worker::scope
 without multicore

---
 src/multicore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index 574c4c0..2397a70 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -170,7 +170,8 @@ mod implementation {
         where
             F: FnOnce(&DummyScope, usize) -> R,
         {
-            f(&DummyScope, elements)
+            // As with multicore, never hand out a chunk size of zero.
+            f(&DummyScope, elements.max(1))
         }
     }
 
-- 
2.43.0


From f8c520b53faf13e38d1a46f4b89eeb2db1739630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 4/5] fix: reject the point at infinity when reading a
 verifying key

The elements alpha, beta, gamma and delta are documented to never be the point
at infinity, and every other reader (proofs, parameters, the ic query) rejects
it.
---
 groth16/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/groth16/src/lib.rs b/groth16/src/lib.rs
index 5114bf2..ee95c1d 100644
--- a/groth16/src/lib.rs
+++ b/groth16/src/lib.rs
@@ -187,6 +187,20 @@ impl<E: Engine> VerifyingKey<E> {
         let delta_g1 = read_g1(&mut reader)?;
         let delta_g2 = read_g2(&mut reader)?;
 
+        if bool::from(
+            alpha_g1.is_identity()
+                | beta_g1.is_identity()
+                | beta_g2.is_identity()
+                | gamma_g2.is_identity()
+                | delta_g1.is_identity()
+                | delta_g2.is_identity(),
+        ) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "point at infinity",
+            ));
+        }
+
         let ic_len = reader.read_u32::<BigEndian>()? as usize;
 
         let mut ic = vec![];
-- 
2.43.0


From fd2c8e0f79438e4fd20f6ccf6218a886af83dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 5/5] fix: UInt32::addmany folds constant words even when their
 values are unknown

When every bit of the operands was constant but an operand's value was not
known (Maj or Ch of constants and an unassigned word, say), key generation
allocated a result while the prover returned a constant: the two synthesised
different circuits.
---
 src/gadgets/uint32.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/gadgets/uint32.rs b/src/gadgets/uint32.rs
index af4d634..6ef2413 100644
--- a/src/gadgets/uint32.rs
+++ b/src/gadgets/uint32.rs
@@ -330,6 +330,11 @@ impl UInt32 {
 
         let mut all_constants = true;
 
+        // The sum of the constant bits. When every bit is constant this is the
+        // value of the sum, which may be known even if the value of an operand
+        // is not (a Maj whose inputs include two equal constants, say).
+        let mut constant_value = 0u64;
+
         // Iterate over the operands
         for op in operands {
             // Accumulate the value
@@ -349,10 +354,13 @@ impl UInt32 {
             // Iterate over each bit of the operand and add the operand to
             // the linear combination
             let mut coeff = Scalar::ONE;
-            for bit in &op.bits {
+            for (i, bit) in op.bits.iter().enumerate() {
                 lc = lc + &bit.lc(CS::one(), coeff);
 
-                all_constants &= bit.is_constant();
+                match bit {
+                    Boolean::Constant(bit) => constant_value += u64::from(*bit) << i,
+                    _ => all_constants = false,
+                }
 
                 coeff = coeff.double();
             }
@@ -361,11 +369,11 @@ impl UInt32 {
         // The value of the actual result is modulo 2^32
         let modular_value = result_value.map(|v| v as u32);
 
-        if let (true, Some(result)) = (all_constants, modular_value) {
+        if all_constants {
             // We can just return a constant, rather than
             // unpacking the result into allocated bits.
 
-            return Ok(UInt32::constant(result));
+            return Ok(UInt32::constant(constant_value as u32));
         }
 
         // Storage area for the resulting bits
-- 
2.43.0

