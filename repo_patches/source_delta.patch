From 52ba11e32da0255ca9e1eaf9eee7a574aad90ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 1/4] fix: keep panicking and abandoned computations from
 aborting the process

Worker::compute unwrapped the send of its result, which fails when the
Waiter was dropped (create_proof does so when it returns early with
computations in flight); the panic in a rayon::spawn task aborts the
process.  A panicking closure had the same effect, and where the panic was
contained, left WORKER_SPAWN_COUNTER incremented for good.  Hand the panic
to the waiter instead, and ignore a missing receiver.
---
 src/multicore.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index acd2cd6..a196ffe 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -4,7 +4,9 @@
 
 #[cfg(feature = "multicore")]
 mod implementation {
+    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
     use std::sync::atomic::{AtomicUsize, Ordering};
+    use std::thread;
 
     use crossbeam_channel::{bounded, Receiver};
     use lazy_static::lazy_static;
@@ -46,6 +48,16 @@ mod implementation {
             // executed.
             let previous_count = WORKER_SPAWN_COUNTER.fetch_add(1, Ordering::SeqCst);
 
+            // A panic in the closure is handed to whoever waits for the result,
+            // so that it neither takes down the process nor leaks the slot
+            // counted above. The receiving end is gone if the `Waiter` was
+            // dropped; the result is not needed then.
+            let run = move || {
+                let res = catch_unwind(AssertUnwindSafe(f));
+                WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
+                let _ = sender.send(res);
+            };
+
             // If the number of spawns requested has exceeded the number
             // of cores available for processing by some factor (the
             // default being 4), instead of requesting that we spawn a new
@@ -60,16 +72,10 @@ mod implementation {
                         thread_index,
                         current_num_threads(),
                         WORKER_SPAWN_COUNTER.load(Ordering::SeqCst));
-                    let res = f();
-                    sender.send(res).unwrap();
-                    WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
+                    run();
                 });
             } else {
-                rayon::spawn(move || {
-                    let res = f();
-                    sender.send(res).unwrap();
-                    WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
-                });
+                rayon::spawn(run);
             }
 
             Waiter { receiver }
@@ -92,11 +98,13 @@ mod implementation {
     }
 
     pub struct Waiter<T> {
-        receiver: Receiver<T>,
+        receiver: Receiver<thread::Result<T>>,
     }
 
     impl<T> Waiter<T> {
         /// Consumes this waiter and blocks until the result is ready.
+        ///
+        /// Panics if the computation panicked, with the same payload.
         pub fn wait(self) -> T {
             // This will be Some if this thread is in the global thread pool.
             if rayon::current_thread_index().is_some() {
@@ -105,13 +113,16 @@ mod implementation {
                 error!("{}", msg);
                 panic!("{}", msg);
             }
-            self.receiver.recv().unwrap()
+            match self.receiver.recv().unwrap() {
+                Ok(val) => val,
+                Err(payload) => resume_unwind(payload),
+            }
         }
 
         /// One-off sending.
         pub fn done(val: T) -> Self {
             let (sender, receiver) = bounded(1);
-            sender.send(val).unwrap();
+            sender.send(Ok(val)).unwrap();
 
             Waiter { receiver }
         }
-- 
2.43.0


From 6f613bf5fd2bb5fd4fd1f69e05ed5f4a812d1d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 2/4] fix: count query density by net coefficients when proving

Parameter generation omits a variable from a query when its polynomial is
zero, which includes a variable whose terms cancel within the linear
combination. The prover marked it as dense nevertheless and ran out of
bases, or used the bases of the wrong variables.
---
 groth16/src/prover.rs | 60 +++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index c61c2a0..e1ac3ee 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -18,8 +18,8 @@ use bellman::multicore::Worker;
 
 fn eval<S: PrimeField>(
     lc: &LinearCombination<S>,
-    mut input_density: Option<&mut DensityTracker>,
-    mut aux_density: Option<&mut DensityTracker>,
+    input_density: Option<&mut DensityTracker>,
+    aux_density: Option<&mut DensityTracker>,
     input_assignment: &[S],
     aux_assignment: &[S],
 ) -> S {
@@ -30,18 +30,8 @@ fn eval<S: PrimeField>(
 
         if !coeff.is_zero_vartime() {
             match index.get_unchecked() {
-                Index::Input(i) => {
-                    tmp = input_assignment[i];
-                    if let Some(ref mut v) = input_density {
-                        v.inc(i);
-                    }
-                }
-                Index::Aux(i) => {
-                    tmp = aux_assignment[i];
-                    if let Some(ref mut v) = aux_density {
-                        v.inc(i);
-                    }
-                }
+                Index::Input(i) => tmp = input_assignment[i],
+                Index::Aux(i) => tmp = aux_assignment[i],
             }
 
             if coeff != S::ONE {
@@ -51,9 +41,51 @@ fn eval<S: PrimeField>(
         }
     }
 
+    if let Some(density) = input_density {
+        track_density(lc, density, |index| match index {
+            Index::Input(i) => Some(i),
+            Index::Aux(_) => None,
+        });
+    }
+    if let Some(density) = aux_density {
+        track_density(lc, density, |index| match index {
+            Index::Input(_) => None,
+            Index::Aux(i) => Some(i),
+        });
+    }
+
     acc
 }
 
+/// Marks the variables selected by `select` that have a non-zero coefficient in
+/// `lc`.
+///
+/// The parameters contain no query element for a variable whose polynomial is
+/// zero, so a variable whose terms cancel each other out must not be counted.
+fn track_density<S: PrimeField>(
+    lc: &LinearCombination<S>,
+    density: &mut DensityTracker,
+    select: impl Fn(Index) -> Option<usize>,
+) {
+    let mut terms: Vec<(usize, S)> = lc
+        .as_ref()
+        .iter()
+        .filter_map(|&(index, coeff)| select(index.get_unchecked()).map(|i| (i, coeff)))
+        .collect();
+    terms.sort_unstable_by_key(|&(i, _)| i);
+
+    let mut terms = terms.into_iter().peekable();
+    while let Some((i, mut coeff)) = terms.next() {
+        while let Some(&(_, other)) = terms.peek().filter(|&&(j, _)| j == i) {
+            coeff += other;
+            terms.next();
+        }
+        if !coeff.is_zero_vartime() {
+            density.inc(i);
+        }
+    }
+}
+
 struct ProvingAssignment<S: PrimeField> {
     // Density of queries
     a_aux_density: DensityTracker,
-- 
2.43.0


From 54ef3b08db9e5e179f4c6587492ca9a6679847a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 3/4] fix: never pass a zero chunk size to Worker::scope
 closures

Without the multicore feature, scope() over no elements passed a chunk size
of zero, on which slice::chunks panics; the multicore one passes one.
---
 src/multicore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index a196ffe..e81620a 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -179,7 +179,8 @@ mod implementation {
         where
             F: FnOnce(&DummyScope, usize) -> R,
         {
-            f(&DummyScope, elements)
+            // Callers split slices by the chunk size, which must not be zero.
+            f(&DummyScope, elements.max(1))
         }
     }
 
-- 
2.43.0


From da29c8d25cad59c76db4ebb7fd0c5b9c48087551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 4/4] fix: UInt32::addmany enforces the same constraints
 without a witness

Whether the sum of constant bits is returned as a constant depended on
the value of the operands being known. Operands that are derived from
unknown values but consist of constants only (Maj(0, 0, x), say) made
the circuit allocate and constrain bits during parameter generation that
it does not have when proving.
---
 src/gadgets/uint32.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/gadgets/uint32.rs b/src/gadgets/uint32.rs
index af4d634..a19eb08 100644
--- a/src/gadgets/uint32.rs
+++ b/src/gadgets/uint32.rs
@@ -330,6 +330,11 @@ impl UInt32 {
 
         let mut all_constants = true;
 
+        // The sum of the bits that are constants. Operands can consist of
+        // constants without their value being known (if they were derived
+        // from unknown values), and what we enforce cannot depend on that.
+        let mut constant_value = 0u64;
+
         // Iterate over the operands
         for op in operands {
             // Accumulate the value
@@ -349,11 +354,15 @@ impl UInt32 {
             // Iterate over each bit of the operand and add the operand to
             // the linear combination
             let mut coeff = Scalar::ONE;
-            for bit in &op.bits {
+            for (i, bit) in op.bits.iter().enumerate() {
                 lc = lc + &bit.lc(CS::one(), coeff);
 
                 all_constants &= bit.is_constant();
 
+                if let Boolean::Constant(true) = bit {
+                    constant_value += 1 << i;
+                }
+
                 coeff = coeff.double();
             }
         }
@@ -361,11 +370,11 @@ impl UInt32 {
         // The value of the actual result is modulo 2^32
         let modular_value = result_value.map(|v| v as u32);
 
-        if let (true, Some(result)) = (all_constants, modular_value) {
+        if all_constants {
             // We can just return a constant, rather than
             // unpacking the result into allocated bits.
 
-            return Ok(UInt32::constant(result));
+            return Ok(UInt32::constant(constant_value as u32));
         }
 
         // Storage area for the resulting bits
-- 
2.43.0

