From 3be274fe53d18f648b99addaf3424cb46949c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 1/8] fix: saturate the root's upper bound instead of
 overflowing on negative root values

---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 53f424d..8db3bed 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -227,7 +227,7 @@ where
             best: None,
             inbound: None,
             value_bot: isize::MIN,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
         input
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index d6c496d..c1dcfce 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -252,7 +252,7 @@ where
             depth: root_depth,
             value_bot: isize::MIN,
             theta: isize::MAX,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
 
-- 
2.43.0


From f53cee30faa9f67d437648cd13f98eaa6894f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 2/8] fix: keep one upper bound slot per thread in
 with_nb_threads

---
 src/solver/barrier.rs  | 1 +
 src/solver/parallel.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index ce95131..7826537 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -190,6 +190,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
         self
     }
 
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index c5a68f4..f50836e 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -173,6 +173,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
         self
     }
 
-- 
2.43.0


From eb4cbd7c0fd728990cd3e4db06098a0e911e3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 3/8] fix: keep the exact terminal nodes in the frontier cutset

---
 src/mdd/with_all.rs     | 6 ++++++
 src/mdd/with_barrier.rs | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 8db3bed..af5efb0 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -481,6 +481,12 @@ where
             for id in self.next_l.values().copied() {
                 self.nodes[id.0].value_bot = 0;
                 self.nodes[id.0].flags.set_marked(true);
+                // an exact terminal node has no inexact successor: it must
+                // belong to the frontier itself or its solution would be lost
+                if self.cutset_type == CutsetType::Frontier && self.nodes[id.0].flags.is_exact() {
+                    self.nodes[id.0].flags.set_cutset(true);
+                    self.cutset.push(id);
+                }
                 visit.push(id);
             }
 
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index c1dcfce..e9f1f11 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -544,6 +544,7 @@ where
                 self.nodes[node_id.0].flags.set_cutset(true);
             } else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {
                 self.nodes[node_id.0].flags.set_cutset(true);
+                self.cutset.push(*node_id);
             }
         }
 
-- 
2.43.0


From e5186e13165d0d8eb4b317b5cd8699867f75d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 4/8] fix: derive a valid upper bound when the resolution is
 interrupted

---
 src/solver/barrier.rs  | 16 ++++++++++------
 src/solver/parallel.rs | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 7826537..b1bc199 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -335,6 +335,11 @@ where
             critical.lowest_active_layer += 1;
         }
 
+        // Has someone else been told to stop ? (the fringe has been cleared by then)
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -342,12 +347,10 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -356,9 +359,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
+            let open_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = ongoing_ub.max(open_ub).max(critical.best_lb);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index f50836e..40308aa 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -305,6 +305,11 @@ where
     {
         let mut critical = shared.critical.lock();
 
+        // Has someone else been told to stop ? (the fringe has been cleared by then)
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -312,12 +317,10 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -326,9 +329,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
+            let open_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = ongoing_ub.max(open_ub).max(critical.best_lb);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
-- 
2.43.0


From 734703a7095ec586ccd2f717c9650c89dd4e6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 5/8] fix: compute the gap of infeasible, zero and mixed-sign
 bounds

---
 src/xputils.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/xputils.rs b/src/xputils.rs
index 36cf991..7ffc363 100644
--- a/src/xputils.rs
+++ b/src/xputils.rs
@@ -169,12 +169,13 @@ where
 }
 
 fn gap(lb: isize, ub: isize) -> f32 {
-    let aub = ub.abs();
-    let alb = lb.abs();
-    let u = aub.max(alb);
-    let l = aub.min(alb);
+    let u = lb.unsigned_abs().max(ub.unsigned_abs());
 
-    (u - l) as f32 / u as f32
+    if u == 0 {
+        0.0
+    } else {
+        (ub as f64 - lb as f64).abs() as f32 / u as f32
+    }
 }
 
 pub fn resolution_header() {
-- 
2.43.0


From f2381efeb21ff64cd445d0e19e664ea801bab8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:45 +0000
Subject: [PATCH 6/8] fix: tell a diagram whose last layer is empty from an
 exact one

---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index af5efb0..5547743 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -250,7 +250,7 @@ where
             }
 
             if curr_l.is_empty() {
-                return;
+                break; // the flags and bounds below must be set for this diagram too
             }
 
             match input.comp_type {
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index e9f1f11..143ea2f 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -271,7 +271,7 @@ where
             }
 
             if curr_l.is_empty() {
-                return;
+                break; // the flags and bounds below must be set for this diagram too
             }
 
             if depth > root_depth && !self.barriers[depth].read().is_empty() {
-- 
2.43.0


From 45ac5ecf8161a5d03a9424a072ea770af0e9b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:01 +0000
Subject: [PATCH 7/8] fix: use one thread when zero are asked for

---
 src/solver/barrier.rs  | 2 ++
 src/solver/parallel.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index b1bc199..86920b6 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -154,6 +154,7 @@ where
         cutset_type: CutsetType,
         nb_threads: usize,
     ) -> Self {
+        let nb_threads = nb_threads.max(1); // without any thread, nothing would be solved
         let mut barriers = vec![];
         for _ in 0..=problem.nb_variables() {
             barriers.push(RwLock::new(Default::default()));
@@ -189,6 +190,7 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
+        let nb_threads = nb_threads.max(1);
         self.nb_threads = nb_threads;
         self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
         self
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 40308aa..019c756 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -146,6 +146,7 @@ where
         fringe: &'a mut F,
         nb_threads: usize,
     ) -> Self {
+        let nb_threads = nb_threads.max(1); // without any thread, nothing would be solved
         ParallelSolver {
             shared: Shared {
                 problem,
@@ -172,6 +173,7 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
+        let nb_threads = nb_threads.max(1);
         self.nb_threads = nb_threads;
         self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
         self
-- 
2.43.0


From 45c81fbcef2b6e737d8bb98bf1e116b3fb6fbc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:01 +0000
Subject: [PATCH 8/8] fix: let a panic in a worker reach the caller instead of
 leaving the others waiting

---
 src/solver/barrier.rs  | 10 ++++++++++
 src/solver/mod.rs      | 10 ++++++++++
 src/solver/parallel.rs | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 86920b6..3b533c0 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -3,6 +3,7 @@ use std::{sync::Arc, hash::Hash};
 use parking_lot::{Condvar, Mutex, RwLock};
 use rustc_hash::FxHashMap;
 
+use super::OnPanic;
 use crate::{
     CompilationInput, CompilationType, Decision, DecisionDiagram, Frontier, InterruptibleSolver,
     Problem, Relaxation, ResolutionStatus, Solver, StateRanking, SubProblem, WidthHeuristic, NoDupFrontier, Barrier, BarrierInfo, CutsetType,
@@ -311,6 +312,13 @@ where
         shared.monitor.notify_all();
     }
 
+    /// Tells all threads to stop: one of them panicked and will never finish
+    /// processing its node, the others must not wait for it.
+    fn stop_workers(shared: &Shared<P, R, O, W>) {
+        shared.critical.lock().interrupted = true;
+        shared.monitor.notify_all();
+    }
+
     /// Consults the shared state to fetch a workload. Depending on the current
     /// state, the workload can either be:
     ///
@@ -447,6 +455,7 @@ where
             for i in 0..self.nb_threads {
                 let shared = &self.shared;
                 s.spawn(move || {
+                    let _guard = OnPanic(|| Self::stop_workers(shared));
                     let mut mdd = Barrier::<P::State>::new(shared.barriers.clone(), shared.cutset_type);
                     loop {
                         match Self::get_workload(shared, i, || false) {
@@ -495,6 +504,7 @@ where
             for i in 0..self.nb_threads {
                 let shared = &self.shared;
                 s.spawn(move || {
+                    let _guard = OnPanic(|| Self::stop_workers(shared));
                     let mut mdd = Barrier::<P::State>::new(shared.barriers.clone(), shared.cutset_type);
                     loop {
                         match Self::get_workload(shared, i, callback) {
diff --git a/src/solver/mod.rs b/src/solver/mod.rs
index b8f79d8..bf29952 100644
--- a/src/solver/mod.rs
+++ b/src/solver/mod.rs
@@ -3,3 +3,13 @@ mod barrier;
 
 pub use parallel::*;
 pub use barrier::*;
+
+/// Calls the function it holds when it goes out of scope because of a panic
+struct OnPanic<F: Fn()>(F);
+impl<F: Fn()> Drop for OnPanic<F> {
+    fn drop(&mut self) {
+        if std::thread::panicking() {
+            (self.0)()
+        }
+    }
+}
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 019c756..1662228 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -2,6 +2,7 @@ use std::{sync::Arc, hash::Hash};
 
 use parking_lot::{Condvar, Mutex};
 
+use super::OnPanic;
 use crate::{
     CompilationInput, CompilationType, Decision, DecisionDiagram, Frontier, InterruptibleSolver,
     Problem, Relaxation, ResolutionStatus, Solver, StateRanking, SubProblem, WidthHeuristic, All, CutsetType,
@@ -288,6 +289,13 @@ where
         shared.monitor.notify_all();
     }
 
+    /// Tells all threads to stop: one of them panicked and will never finish
+    /// processing its node, the others must not wait for it.
+    fn stop_workers(shared: &Shared<P, R, O, W, F>) {
+        shared.critical.lock().interrupted = true;
+        shared.monitor.notify_all();
+    }
+
     /// Consults the shared state to fetch a workload. Depending on the current
     /// state, the workload can either be:
     ///
@@ -389,6 +397,7 @@ where
             for i in 0..self.nb_threads {
                 let shared = &self.shared;
                 s.spawn(move || {
+                    let _guard = OnPanic(|| Self::stop_workers(shared));
                     let mut mdd = All::<P::State>::new(shared.cutset_type);
                     loop {
                         match Self::get_workload(shared, i, || false) {
@@ -437,6 +446,7 @@ where
             for i in 0..self.nb_threads {
                 let shared = &self.shared;
                 s.spawn(move || {
+                    let _guard = OnPanic(|| Self::stop_workers(shared));
                     let mut mdd = All::<P::State>::new(shared.cutset_type);
                     loop {
                         match Self::get_workload(shared, i, callback) {
-- 
2.43.0

