From 44f8965854c4edbdd45f92f4563f1603b7a298be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 1/9] fix: do not overflow when a subproblem with an unbounded
 ub has a negative value

---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 53f424d..8db3bed 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -227,7 +227,7 @@ where
             best: None,
             inbound: None,
             value_bot: isize::MIN,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
         input
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index d6c496d..c1dcfce 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -252,7 +252,7 @@ where
             depth: root_depth,
             value_bot: isize::MIN,
             theta: isize::MAX,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
 
-- 
2.43.0


From a7b7c85a87d408fcbac2921bd07a7e57af84b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 2/9] fix: with_nb_threads sizes the per-thread upper bounds
 along with the thread count

---
 src/solver/barrier.rs  | 1 +
 src/solver/parallel.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index ce95131..badc9bc 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -190,6 +190,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index c5a68f4..c117485 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -173,6 +173,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.lock().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
-- 
2.43.0


From c59f1ff7ebc487b17eb4bebe6c2bad867f83b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 3/9] fix: a restricted dd that runs out of nodes after
 dropping some is not exact

---
 src/mdd/with_all.rs     | 1 +
 src/mdd/with_barrier.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 8db3bed..6e10c78 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -250,6 +250,7 @@ where
             }
 
             if curr_l.is_empty() {
+                self.exact = self._is_exact(input.comp_type);
                 return;
             }
 
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index c1dcfce..2faca9b 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -271,6 +271,7 @@ where
             }
 
             if curr_l.is_empty() {
+                self.exact = self._is_exact(input.comp_type);
                 return;
             }
 
-- 
2.43.0


From 0e81d7a3cdabe108c0e067ed02469fdb36d6d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:09 +0000
Subject: [PATCH 4/9] fix: frontier cutsets cover the solutions which end in an
 exact terminal node

---
 src/mdd/with_all.rs     | 6 ++++++
 src/mdd/with_barrier.rs | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 6e10c78..775c033 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -483,6 +483,12 @@ where
                 self.nodes[id.0].value_bot = 0;
                 self.nodes[id.0].flags.set_marked(true);
                 visit.push(id);
+
+                // an exact terminal node has no inexact child, it must be covered by itself
+                if self.cutset_type == CutsetType::Frontier && self.nodes[id.0].flags.is_exact() {
+                    self.nodes[id.0].flags.set_cutset(true);
+                    self.cutset.push(id);
+                }
             }
 
             while !visit.is_empty() {
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index 2faca9b..1310309 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -545,6 +545,10 @@ where
                 self.nodes[node_id.0].flags.set_cutset(true);
             } else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {
                 self.nodes[node_id.0].flags.set_cutset(true);
+                // an exact terminal node has no inexact child, it must be covered by itself
+                if !self.exact {
+                    self.cutset.push(*node_id);
+                }
             }
         }
 
-- 
2.43.0


From 6899b68710181f772b6ca8b94f5821b240355425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 5/9] fix: the upper bound reported after an interruption
 covers every open node

---
 src/solver/barrier.rs  | 18 ++++++++++--------
 src/solver/parallel.rs | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index badc9bc..23fdb8f 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -335,6 +335,11 @@ where
             critical.lowest_active_layer += 1;
         }
 
+        // Did someone else stop the search ? (then the fringe was cleared: empty does not mean done)
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -342,12 +347,9 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
-
-            critical.best_ub = if critical.ongoing > 0 {
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -356,10 +358,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
-
+            let open_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = critical.best_lb.max(ongoing_ub).max(open_ub);
             critical.fringe.clear();
             return WorkLoad::Interruption;
         }
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index c117485..cce8535 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -305,6 +305,11 @@ where
     {
         let mut critical = shared.critical.lock();
 
+        // Did someone else stop the search ? (then the fringe was cleared: empty does not mean done)
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -312,12 +317,9 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
-
-            critical.best_ub = if critical.ongoing > 0 {
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -326,10 +328,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
-
+            let open_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = critical.best_lb.max(ongoing_ub).max(open_ub);
             critical.fringe.clear();
             return WorkLoad::Interruption;
         }
-- 
2.43.0


From ad82f6aeb692f49de54167ae610217d7a7205606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 6/9] observation hooks, only compiled with --cfg vp_hooks

---
 src/frontier/no_dup.rs |  9 +++++++++
 src/hooks.rs           | 38 ++++++++++++++++++++++++++++++++++++++
 src/lib.rs             |  5 +++++
 src/solver/barrier.rs  |  3 +++
 src/solver/parallel.rs |  3 +++
 5 files changed, 58 insertions(+)
 create mode 100644 src/hooks.rs

diff --git a/src/frontier/no_dup.rs b/src/frontier/no_dup.rs
index 2d87e3e..9d705af 100644
--- a/src/frontier/no_dup.rs
+++ b/src/frontier/no_dup.rs
@@ -66,6 +66,9 @@ where
     /// increased. As always, in the event where the newly pushed node has a
     /// longer longest path than the pre-existing node, that one will be kept.
     fn push(&mut self, mut node: SubProblem<O::State>) {
+        #[cfg(vp_hooks)]
+        crate::hooks::push(&node);
+
         let state = Arc::clone(&node.state);
 
         let action = match self.states.entry(state) {
@@ -140,12 +143,18 @@ where
         let node = self.nodes[id.0].clone();
         self.states.remove(&node.state);
 
+        #[cfg(vp_hooks)]
+        crate::hooks::pop(&node);
+
         Some(node)
     }
 
     /// Clears the content of the heap to reset it to a state equivalent to
     /// a fresh instantiation of the heap.
     fn clear(&mut self) {
+        #[cfg(vp_hooks)]
+        crate::hooks::clear();
+
         self.states.clear();
         self.nodes.clear();
         self.pos.clear();
diff --git a/src/hooks.rs b/src/hooks.rs
new file mode 100644
index 0000000..be0c0c1
--- /dev/null
+++ b/src/hooks.rs
@@ -0,0 +1,38 @@
+//! Observation points for external checking tools. This module and its call
+//! sites only exist when the crate is compiled with `--cfg vp_hooks`.
+use std::sync::RwLock;
+
+use crate::{Decision, SubProblem};
+
+/// What is observed
+pub enum Event<'a> {
+    /// A thread of a solver starts compiling diagrams for this subproblem
+    Start { path: &'a [Decision], value: isize, ub: isize },
+    /// A subproblem is pushed onto a duplicate-free frontier
+    Push { path: &'a [Decision], value: isize, ub: isize },
+    /// A subproblem is popped from a duplicate-free frontier
+    Pop { path: &'a [Decision], value: isize, ub: isize },
+    /// A duplicate-free frontier is cleared
+    Clear,
+}
+/// The function which gets told about the events (if any)
+pub static OBSERVER: RwLock<Option<fn(&Event)>> = RwLock::new(None);
+
+fn emit(event: Event) {
+    let observer = OBSERVER.read().map(|o| *o).unwrap_or(None);
+    if let Some(observer) = observer {
+        observer(&event);
+    }
+}
+pub fn start<T>(n: &SubProblem<T>) {
+    emit(Event::Start { path: &n.path, value: n.value, ub: n.ub });
+}
+pub fn push<T>(n: &SubProblem<T>) {
+    emit(Event::Push { path: &n.path, value: n.value, ub: n.ub });
+}
+pub fn pop<T>(n: &SubProblem<T>) {
+    emit(Event::Pop { path: &n.path, value: n.value, ub: n.ub });
+}
+pub fn clear() {
+    emit(Event::Clear);
+}
diff --git a/src/lib.rs b/src/lib.rs
index 6ff3ca4..3378a79 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // vp_hooks, see hooks.rs
+
 pub mod prelude;
 
 pub mod frontier;
@@ -14,5 +16,8 @@ pub use solver::*;
 
 pub use utils::*;
 
+#[cfg(vp_hooks)]
+pub mod hooks;
+
 // ony useful for the xp about examples
 pub mod xputils;
diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 23fdb8f..9c0caa8 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -234,6 +234,9 @@ where
             return explored_dd;
         }
 
+        #[cfg(vp_hooks)]
+        crate::hooks::start(&node);
+
         let width = shared.width_heu.max_width(&node.state);
         let mut compilation = CompilationInput {
             comp_type: CompilationType::Restricted,
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index cce8535..104b76b 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -215,6 +215,9 @@ where
             return explored_dd;
         }
 
+        #[cfg(vp_hooks)]
+        crate::hooks::start(&node);
+
         let width = shared.width_heu.max_width(&node.state);
         let mut compilation = CompilationInput {
             comp_type: CompilationType::Restricted,
-- 
2.43.0


From 9fcf7389d113eba1f32e1951665c406bbdd53dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 7/9] fix: the gap of extreme or zero bounds neither overflows
 nor is undefined

---
 src/xputils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xputils.rs b/src/xputils.rs
index 36cf991..8d4a8ea 100644
--- a/src/xputils.rs
+++ b/src/xputils.rs
@@ -169,11 +169,15 @@ where
 }
 
 fn gap(lb: isize, ub: isize) -> f32 {
-    let aub = ub.abs();
-    let alb = lb.abs();
+    // the bounds may be the extreme integers (no solution, no bound) or both be zero
+    let aub = ub.unsigned_abs();
+    let alb = lb.unsigned_abs();
     let u = aub.max(alb);
     let l = aub.min(alb);
 
+    if u == l {
+        return 0.0;
+    }
     (u - l) as f32 / u as f32
 }
 
-- 
2.43.0


From f5e688c7ed28b318de5724be537d7d56bb5e248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:33 +0000
Subject: [PATCH 8/9] fix: a solver can be run again after an interrupted run

The interrupted flag, the frontier, the layer counters and the thresholds of
the interrupted run were kept: the next run stopped at once, maximize()
returned without the optimum.
---
 src/solver/barrier.rs  | 6 ++++++
 src/solver/parallel.rs | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 9c0caa8..422cb55 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -200,6 +200,12 @@ where
     fn initialize(&self) {
         let root = self.root_node();
         let mut critical = self.shared.critical.lock();
+        // forget an earlier run which was interrupted: its thresholds stand for subproblems it dropped
+        critical.interrupted = false;
+        critical.fringe.clear();
+        critical.open_by_layer.iter_mut().for_each(|o| *o = 0);
+        critical.lowest_active_layer = 0;
+        self.shared.barriers.iter().for_each(|b| b.write().clear());
         critical.fringe.push(root);
         critical.open_by_layer[0] += 1;
     }
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 104b76b..0d59488 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -182,7 +182,11 @@ where
     /// can pick it up and the processing can be bootstrapped.
     fn initialize(&self) {
         let root = self.root_node();
-        self.shared.critical.lock().fringe.push(root);
+        let mut critical = self.shared.critical.lock();
+        // forget an earlier run which was interrupted
+        critical.interrupted = false;
+        critical.fringe.clear();
+        critical.fringe.push(root);
     }
 
     fn root_node(&self) -> SubProblem<P::State> {
-- 
2.43.0


From 4381dcae166e642c8254298f97327b938cb5b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:43 +0000
Subject: [PATCH 9/9] fix: update the thresholds of the barrier atomically

Two threads could both decide to store a threshold for the same state, the
lower one overwriting the higher one (or an unexplored one overwriting an
explored one), after which a dominated subproblem was expanded again.
---
 src/mdd/with_barrier.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index 1310309..02106eb 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -622,7 +622,9 @@ where
             return;
         }
 
-        let update = self.barriers[depth].read().get(&state).map_or(true, |info| {
+        // check and insert under the same lock: other threads update the thresholds too
+        let mut barrier = self.barriers[depth].write();
+        let update = barrier.get(&state).map_or(true, |info| {
             if theta > info.theta || (theta == info.theta && !info.explored && explored) {
                 true
             } else {
@@ -631,7 +633,7 @@ where
         });
 
         if update {
-            self.barriers[depth].write().insert(state, BarrierInfo { theta, explored });
+            barrier.insert(state, BarrierInfo { theta, explored });
         }
     }
 }
-- 
2.43.0

