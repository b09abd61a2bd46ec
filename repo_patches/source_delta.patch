From 25a79d61b5336081f175054ee028f5032c28f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 01/20] verif: guarded include hooks (cfg regalloc2_verif) for
 contract harnesses

---
 src/cfg.rs                 | 8 ++++++++
 src/checker.rs             | 8 ++++++++
 src/domtree.rs             | 8 ++++++++
 src/fastalloc/lru.rs       | 8 ++++++++
 src/fastalloc/mod.rs       | 8 ++++++++
 src/fastalloc/vregset.rs   | 8 ++++++++
 src/indexset.rs            | 8 ++++++++
 src/ion/data_structures.rs | 8 ++++++++
 src/ion/mod.rs             | 8 ++++++++
 src/ion/redundant_moves.rs | 8 ++++++++
 src/ion/reg_traversal.rs   | 8 ++++++++
 src/lib.rs                 | 9 +++++++++
 src/moves.rs               | 8 ++++++++
 src/postorder.rs           | 8 ++++++++
 src/ssa.rs                 | 8 ++++++++
 15 files changed, 121 insertions(+)

diff --git a/src/cfg.rs b/src/cfg.rs
index 5b125f7..b8d05e0 100644
--- a/src/cfg.rs
+++ b/src/cfg.rs
@@ -153,3 +153,11 @@ impl CFGInfo {
         domtree::dominates(&self.domtree[..], a, b)
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/cfg.rs"));
+}
diff --git a/src/checker.rs b/src/checker.rs
index 58719e6..41f24c9 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -1009,3 +1009,11 @@ impl<'a, F: Function> Checker<'a, F> {
         result
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/checker.rs"));
+}
diff --git a/src/domtree.rs b/src/domtree.rs
index 4b90d4d..f53e35e 100644
--- a/src/domtree.rs
+++ b/src/domtree.rs
@@ -117,3 +117,11 @@ pub fn dominates(idom: &[Block], a: Block, mut b: Block) -> bool {
         b = idom[b.index()];
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/domtree.rs"));
+}
diff --git a/src/fastalloc/lru.rs b/src/fastalloc/lru.rs
index d86598a..a0666ad 100644
--- a/src/fastalloc/lru.rs
+++ b/src/fastalloc/lru.rs
@@ -331,3 +331,11 @@ impl<T: Debug> Debug for PartedByRegClass<T> {
         )
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/fastalloc_lru.rs"));
+}
diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 91fdaa7..b811d37 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1639,3 +1639,11 @@ pub fn run<F: Function>(
         stats: env.stats,
     })
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/fastalloc_mod.rs"));
+}
diff --git a/src/fastalloc/vregset.rs b/src/fastalloc/vregset.rs
index 1d08bf5..7348efb 100644
--- a/src/fastalloc/vregset.rs
+++ b/src/fastalloc/vregset.rs
@@ -141,3 +141,11 @@ mod tests {
         assert!(set.is_empty());
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/fastalloc_vregset.rs"));
+}
diff --git a/src/indexset.rs b/src/indexset.rs
index c79e9f8..ea347e3 100644
--- a/src/indexset.rs
+++ b/src/indexset.rs
@@ -330,3 +330,11 @@ mod test {
         debug_assert!(vec.is_small());
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/indexset.rs"));
+}
diff --git a/src/ion/data_structures.rs b/src/ion/data_structures.rs
index ba036a1..d0b8f0d 100644
--- a/src/ion/data_structures.rs
+++ b/src/ion/data_structures.rs
@@ -992,3 +992,11 @@ pub fn u64_key(b: u32, a: u32) -> u64 {
 pub fn u128_key(d: u32, c: u32, b: u32, a: u32) -> u128 {
     a as u128 | (b as u128) << 32 | (c as u128) << 64 | (d as u128) << 96
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/ion_data_structures.rs"));
+}
diff --git a/src/ion/mod.rs b/src/ion/mod.rs
index 9918119..75bc7f9 100644
--- a/src/ion/mod.rs
+++ b/src/ion/mod.rs
@@ -132,3 +132,11 @@ pub fn run<F: Function>(
 
     Ok(())
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/ion_mod.rs"));
+}
diff --git a/src/ion/redundant_moves.rs b/src/ion/redundant_moves.rs
index 36c8c1e..98f584a 100644
--- a/src/ion/redundant_moves.rs
+++ b/src/ion/redundant_moves.rs
@@ -127,3 +127,11 @@ impl RedundantMoveEliminator {
         self.allocs.remove(&alloc);
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/ion_redundant_moves.rs"));
+}
diff --git a/src/ion/reg_traversal.rs b/src/ion/reg_traversal.rs
index 33193e8..9834d62 100644
--- a/src/ion/reg_traversal.rs
+++ b/src/ion/reg_traversal.rs
@@ -111,3 +111,11 @@ impl core::iter::Iterator for RegTraversalIter {
         None
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/ion_reg_traversal.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 5eab7d3..5008798 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,7 @@
 #![allow(dead_code)]
 #![allow(clippy::all)]
 #![no_std]
+#![allow(unexpected_cfgs)] // `regalloc2_verif` guards verification hooks
 
 #[cfg(feature = "fuzzing")]
 extern crate std;
@@ -1895,3 +1896,11 @@ mod tests {
         }
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/lib.rs"));
+}
diff --git a/src/moves.rs b/src/moves.rs
index 9301149..f2eaf39 100644
--- a/src/moves.rs
+++ b/src/moves.rs
@@ -453,3 +453,11 @@ where
         (self.is_stack_alloc)(src) && (self.is_stack_alloc)(dst)
     }
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/moves.rs"));
+}
diff --git a/src/postorder.rs b/src/postorder.rs
index f2f37b4..22761af 100644
--- a/src/postorder.rs
+++ b/src/postorder.rs
@@ -55,3 +55,11 @@ pub fn calculate<'a, SuccFn: Fn(Block) -> &'a [Block]>(
     }
     Ok(())
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/postorder.rs"));
+}
diff --git a/src/ssa.rs b/src/ssa.rs
index 29a82cf..786c493 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -136,3 +136,11 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
 
     Ok(())
 }
+
+// Verification hook: contract harnesses, never part of a normal build.
+#[cfg(regalloc2_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("REGALLOC2_VERIF_DIR"), "/ssa.rs"));
+}
-- 
2.43.0


From fe63cb4277da0e4112f378cf455f8ba5f77f8e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 02/20] fix: accept valid encodings in Allocation::from_bits

The debug assertion rejected every encoding that bits() can produce
(kinds 0..=2), so a round trip panicked in debug builds.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5008798..297de28 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1190,7 +1190,7 @@ impl Allocation {
     /// Construct an allocation from its packed encoding.
     #[inline(always)]
     pub fn from_bits(bits: u32) -> Self {
-        debug_assert!(bits >> 29 >= 5);
+        debug_assert!(bits >> 29 <= AllocationKind::Stack as u32);
         Self { bits }
     }
 }
-- 
2.43.0


From 172d760d62ecef70a9c18e96c858634c26334687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 03/20] fix: PRegSet::add_up_to must not remove registers

It overwrote the word holding the bound register, dropping members at
and above it that were already in the set.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 297de28..b8d0f58 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,7 +311,7 @@ impl PRegSet {
         for i in 0..index {
             self.bits[i] = !0;
         }
-        self.bits[index] = (1 << bit) - 1;
+        self.bits[index] |= (1 << bit) - 1;
     }
 }
 
-- 
2.43.0


From 3239291001404d1daf26f8b79e65546f2cbe4d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 04/20] fix: LiveRange::assign_flag must clear the flag, not
 the spill weight

The mask was inverted: the stored weight was wiped and a set flag could
not be cleared.
---
 src/ion/data_structures.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ion/data_structures.rs b/src/ion/data_structures.rs
index d0b8f0d..921c4dd 100644
--- a/src/ion/data_structures.rs
+++ b/src/ion/data_structures.rs
@@ -143,8 +143,9 @@ impl LiveRange {
     }
     #[inline(always)]
     pub fn assign_flag(&mut self, flag: LiveRangeFlag, val: bool) {
-        let bit = if val { (flag as u32) << 29 } else { 0 };
-        self.uses_spill_weight_and_flags &= 0xe000_0000;
+        let mask = (flag as u32) << 29;
+        let bit = if val { mask } else { 0 };
+        self.uses_spill_weight_and_flags &= !mask;
         self.uses_spill_weight_and_flags |= bit;
     }
     #[inline(always)]
-- 
2.43.0


From 9f6fb50d506f6624a18f393c04ffbdd8c9a800e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 05/20] fix: report an out-of-range vreg use as an SSA error
 instead of panicking

---
 src/ssa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index 786c493..9dd9dd0 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -61,7 +61,10 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
 
                 match operand.kind() {
                     OperandKind::Use => {
-                        let def_block = defined_in[operand.vreg().vreg()];
+                        let def_block = defined_in
+                            .get(operand.vreg().vreg())
+                            .copied()
+                            .unwrap_or(Block::invalid());
                         let okay = def_block.is_valid()
                             && if def_block == block {
                                 local.contains(&operand.vreg())
-- 
2.43.0


From 51ecbd73b2546a92e745c86af98cb8b59da64b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 06/20] fix: checker must reject non-register locations for
 limited operands

---
 src/checker.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 41f24c9..0cef5cb 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -677,15 +677,18 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Limit(max) => {
-                if let Some(preg) = alloc.as_reg() {
-                    if preg.hw_enc() >= max {
-                        return Err(CheckerError::AllocationOutsideLimit {
-                            inst,
-                            op,
-                            alloc,
-                            range: (0..max),
-                        });
-                    }
+                let preg = match alloc.as_reg() {
+                    // Reject pregs that represent a fixed stack slot.
+                    Some(preg) if !checker.machine_env.fixed_stack_slots.contains(&preg) => preg,
+                    _ => return Err(CheckerError::AllocationIsNotReg { inst, op, alloc }),
+                };
+                if preg.hw_enc() >= max {
+                    return Err(CheckerError::AllocationOutsideLimit {
+                        inst,
+                        op,
+                        alloc,
+                        range: (0..max),
+                    });
                 }
             }
         }
-- 
2.43.0


From 174c0a56eafb80928018d221e6e5a24a6812c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 07/20] fix: checker must forget the destination of a move from
 an unknown location

---
 src/checker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checker.rs b/src/checker.rs
index 0cef5cb..94b4b4d 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -559,6 +559,10 @@ impl CheckerState {
                         val
                     );
                     self.set_value(into, val);
+                } else {
+                    // The destination was overwritten: whatever it
+                    // held before is gone.
+                    self.remove_value(&into);
                 }
             }
             &CheckerInst::ParallelMove { ref moves } => {
-- 
2.43.0


From e60c6b36349a2c17e10eb63a0cc83024a72b840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 08/20] fix: checker must check late operands of instructions
 that reuse an input

---
 src/checker.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 94b4b4d..cbd621f 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -482,16 +482,6 @@ impl CheckerState {
                 ref allocs,
                 ..
             } => {
-                // Skip Use-checks at the After point if there are any
-                // reused inputs: the Def which reuses the input
-                // happens early.
-                let has_reused_input = operands
-                    .iter()
-                    .any(|op| matches!(op.constraint(), OperandConstraint::Reuse(_)));
-                if has_reused_input && pos == InstPosition::After {
-                    return Ok(());
-                }
-
                 // For each operand, check (i) that the allocation
                 // contains the expected vreg, and (ii) that it meets
                 // the requirements of the OperandConstraint.
-- 
2.43.0


From 92a67f64ffc939bcd40d0d5f1f08ec05e5758be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 09/20] fix: checker analysis must start from the entry and not
 propagate from unreached blocks

---
 src/checker.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index cbd621f..75bc814 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -319,14 +319,6 @@ impl CheckerState {
         }
     }
 
-    /// Transition from a "top" (undefined/unanalyzed) state to an empty set of allocations.
-    fn become_defined(&mut self) {
-        match self {
-            CheckerState::Top => *self = CheckerState::Allocations(FxHashMap::default()),
-            _ => {}
-        }
-    }
-
     fn set_value(&mut self, alloc: Allocation, value: CheckerValue) {
         match self {
             CheckerState::Top => {
@@ -443,7 +435,10 @@ impl CheckerState {
             return Err(CheckerError::MissingAllocation { inst, op });
         }
 
-        if op.kind() == OperandKind::Use && op.as_fixed_nonallocatable().is_none() {
+        // In the Top state no path reaches this instruction: every
+        // location vacuously holds every value.
+        let reached = !matches!(self, CheckerState::Top);
+        if reached && op.kind() == OperandKind::Use && op.as_fixed_nonallocatable().is_none() {
             match val {
                 CheckerValue::Universe => {
                     return Err(CheckerError::UnknownValueInAllocation { inst, op, alloc });
@@ -530,7 +525,10 @@ impl CheckerState {
 
     /// Update according to instruction.
     fn update(&mut self, checkinst: &CheckerInst) {
-        self.become_defined();
+        // A block that no path has reached yet has nothing to propagate.
+        if let CheckerState::Top = self {
+            return;
+        }
 
         match checkinst {
             &CheckerInst::Move { into, from } => {
@@ -746,7 +744,7 @@ impl<'a, F: Function> Checker<'a, F> {
             }
         }
 
-        bb_in.insert(f.entry_block(), CheckerState::default());
+        bb_in.insert(f.entry_block(), CheckerState::initial());
 
         let mut stack_pregs = PRegSet::empty();
         for &preg in &machine_env.fixed_stack_slots {
-- 
2.43.0


From 9f6fa5e3d7d0b8c2514a8ef74486a250e9e2322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 10/20] fix: do not step before the first program point when
 counting overlapping registers

---
 src/ion/process.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ion/process.rs b/src/ion/process.rs
index a6e5db9..7ffe623 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -1226,9 +1226,12 @@ impl<'a, F: Function> Env<'a, F> {
                         .chain(self.env.non_preferred_regs_by_class[class as u8 as usize])
                     {
                         trace!(" -> PR {:?}", preg);
+                        // The first program point has no predecessor.
+                        let start_point =
+                            ProgPoint::from_index(range.from.to_index().saturating_sub(1));
                         let start = LiveRangeKey::from_range(&CodeRange {
-                            from: range.from.prev(),
-                            to: range.from.prev(),
+                            from: start_point,
+                            to: start_point,
                         });
                         for (key, lr) in self.ctx.pregs[preg.index()]
                             .allocations
-- 
2.43.0


From 0ed15e481209b5dd5dc5de306256ef692069e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 11/20] fix: never copy from a fixed use that its register
 limit rewrites

---
 src/ion/liveranges.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 09040f6..1dabe7c 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -804,7 +804,14 @@ impl<'a, F: Function> Env<'a, F> {
                     let mut num_fixed_stack = 0;
                     let mut first_reg_slot = None;
                     let mut first_stack_slot = None;
-                    let mut min_limit = usize::MAX;
+                    let min_limit = uses
+                        .iter()
+                        .filter_map(|u| match u.operand.constraint() {
+                            OperandConstraint::Limit(max) => Some(max),
+                            _ => None,
+                        })
+                        .min()
+                        .unwrap_or(usize::MAX);
                     let mut max_fixed_reg = usize::MIN;
                     for u in uses.iter() {
                         match u.operand.constraint() {
@@ -816,9 +823,8 @@ impl<'a, F: Function> Env<'a, F> {
                                 first_reg_slot.get_or_insert(u.slot);
                                 requires_reg = true;
                             }
-                            OperandConstraint::Limit(max) => {
+                            OperandConstraint::Limit(_) => {
                                 first_reg_slot.get_or_insert(u.slot);
-                                min_limit = min_limit.min(max);
                                 requires_reg = true;
                             }
                             OperandConstraint::FixedReg(preg) => {
@@ -829,7 +835,12 @@ impl<'a, F: Function> Env<'a, F> {
                                 } else {
                                     requires_reg = true;
                                     num_fixed_reg += 1;
-                                    first_reg_slot.get_or_insert(u.slot);
+                                    // A register beyond the limit is
+                                    // rewritten below, so it cannot be the
+                                    // source of the copies.
+                                    if preg.hw_enc() < min_limit {
+                                        first_reg_slot.get_or_insert(u.slot);
+                                    }
                                 }
                             }
                             // Maybe this could be supported in this future...
@@ -875,8 +886,8 @@ impl<'a, F: Function> Env<'a, F> {
                             // we edit the constraint below; otherwise, we can
                             // skip this edit.
                             if !(requires_reg && self.ctx.pregs[preg.index()].is_stack)
-                                && *first_preg.get_or_insert(preg) == preg
                                 && preg.hw_enc() < min_limit
+                                && *first_preg.get_or_insert(preg) == preg
                             {
                                 continue;
                             }
-- 
2.43.0


From 7b5f3eecf074190fede787ca9aecfa602ff3046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 12/20] fix: keep the debug ranges of a label disjoint

---
 src/ion/moves.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index ddabd9d..ac82a20 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -772,6 +772,25 @@ impl<'a, F: Function> Env<'a, F> {
         // invariant to the client.
         self.output.debug_locations.sort_unstable();
 
+        // Liveranges of one vreg may overlap around an instruction that
+        // needs the value in several places. We also guarantee that the
+        // ranges of a label are disjoint, so keep one location per point.
+        let mut covered: Option<(u32, ProgPoint)> = None;
+        self.output
+            .debug_locations
+            .retain_mut(|(label, from, to, _alloc)| {
+                if let Some((last_label, last_to)) = covered {
+                    if last_label == *label {
+                        *from = core::cmp::max(*from, last_to);
+                    }
+                }
+                if *from >= *to {
+                    return false;
+                }
+                covered = Some((*label, *to));
+                true
+            });
+
         inserted_moves
     }
 
-- 
2.43.0


From 1e0f2cf78907466ff2479ac7c7c1d7ab0933028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 13/20] fix: sort fastalloc's debug locations by program point
 too

---
 src/fastalloc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index b811d37..8d3e104 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1550,7 +1550,7 @@ impl<'a, F: Function> Env<'a, F> {
                     .push((label, point_start, point_end, alloc));
             }
         }
-        self.debug_locations.sort_by_key(|loc| loc.0);
+        self.debug_locations.sort_unstable();
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-- 
2.43.0


From 873e7beaaf34f7446f650c98cd95c9ef8297721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 14/20] fix: fastalloc must spill a def from the location it
 was written to

---
 src/fastalloc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 8d3e104..1eb4991 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1114,8 +1114,12 @@ impl<'a, F: Function> Env<'a, F> {
             self.vreg_to_live_inst_range[op.vreg().vreg()].2 = Allocation::stack(slot);
             let curr_alloc = self.vreg_allocs[op.vreg().vreg()];
             let new_alloc = Allocation::stack(self.vreg_spillslots[op.vreg().vreg()]);
-            if curr_alloc != new_alloc {
-                self.add_move(inst, curr_alloc, new_alloc, op.class(), InstPosition::After)?;
+            // Edits are in reverse order: any move from the def's location to
+            // `curr_alloc` comes after this one, so the value to spill is
+            // still only in the def's location.
+            let def_alloc = self.allocs[(inst.index(), op_idx)];
+            if curr_alloc != new_alloc && def_alloc != new_alloc {
+                self.add_move(inst, def_alloc, new_alloc, op.class(), InstPosition::After)?;
             }
         }
         self.vreg_to_live_inst_range[op.vreg().vreg()].0 = ProgPoint::after(inst);
-- 
2.43.0


From e3a8b96729dbe629004531045bf0880c72e6c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 15/20] fix: fastalloc must not keep a branch argument's
 register reserved across its move to a spillslot

---
 src/fastalloc/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 1eb4991..c6155ef 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -978,6 +978,10 @@ impl<'a, F: Function> Env<'a, F> {
                         vreg.class(),
                         InstPosition::Before,
                     )?;
+                    if let Some(preg) = curr_alloc.as_reg() {
+                        // Nothing is in that preg before the branch.
+                        self.vreg_in_preg[preg.index()] = VReg::invalid();
+                    }
                 }
                 self.vreg_allocs[vreg.vreg()] = vreg_spill;
                 let parallel_moves = match vreg.class() {
-- 
2.43.0


From 7dedae003265b05a863643aba3b07acf958234b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 16/20] fix: fastalloc must leave enough registers for reg-only
 operands when it gives one to an any operand

---
 src/fastalloc/mod.rs | 95 ++++++++++----------------------------------
 1 file changed, 21 insertions(+), 74 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index c6155ef..bcc5e78 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -120,9 +120,6 @@ pub struct State<'a, F: Function> {
     /// Allocatable registers that contain no vregs, registers that can be
     /// evicted can be in the set, and fixed stack slots are in this set.
     available_pregs: PartedByOperandPos<PRegSet>,
-    /// Number of registers available for allocation for Reg and Any
-    /// operands
-    num_available_pregs: PartedByExclusiveOperandPos<PartedByRegClass<i16>>,
     /// The current allocations for all virtual registers.
     vreg_allocs: Vec<Allocation>,
     /// Spillslots for all virtual registers.
@@ -208,14 +205,6 @@ impl<'a, F: Function> State<'a, F> {
         if self.is_stack(from) && self.is_stack(to) {
             if self.scratch_regs[class].is_none() {
                 self.alloc_scratch_reg(inst, class, pos)?;
-                let dec_clamp_zero = |x: &mut i16| {
-                    *x = 0i16.max(*x - 1);
-                };
-                dec_clamp_zero(&mut self.num_available_pregs[ExclusiveOperandPos::Both][class]);
-                dec_clamp_zero(
-                    &mut self.num_available_pregs[ExclusiveOperandPos::EarlyOnly][class],
-                );
-                dec_clamp_zero(&mut self.num_available_pregs[ExclusiveOperandPos::LateOnly][class]);
                 trace!(
                     "Recording edit: {:?}",
                     (ProgPoint::new(inst, pos), Edit::Move { from, to }, class)
@@ -422,7 +411,6 @@ pub struct Env<'a, F: Function> {
     /// Number of operands with any-reg constraints in the current inst
     /// to allocate for
     num_any_reg_ops: PartedByExclusiveOperandPos<PartedByRegClass<i16>>,
-    init_num_available_pregs: PartedByRegClass<i16>,
     init_available_pregs: PRegSet,
     allocatable_regs: PRegSet,
     preferred_victim: PartedByRegClass<PReg>,
@@ -448,22 +436,6 @@ impl<'a, F: Function> Env<'a, F> {
         regs[1].union_from(env.non_preferred_regs_by_class[RegClass::Float as usize]);
         regs[2].union_from(env.non_preferred_regs_by_class[RegClass::Vector as usize]);
         let allocatable_regs = PRegSet::from(env);
-        let num_available_pregs: PartedByRegClass<i16> = PartedByRegClass {
-            items: [
-                (env.preferred_regs_by_class[RegClass::Int as usize].len()
-                    + env.non_preferred_regs_by_class[RegClass::Int as usize].len())
-                .try_into()
-                .unwrap(),
-                (env.preferred_regs_by_class[RegClass::Float as usize].len()
-                    + env.non_preferred_regs_by_class[RegClass::Float as usize].len())
-                .try_into()
-                .unwrap(),
-                (env.preferred_regs_by_class[RegClass::Vector as usize].len()
-                    + env.non_preferred_regs_by_class[RegClass::Vector as usize].len())
-                .try_into()
-                .unwrap(),
-            ],
-        };
         let init_available_pregs = {
             let mut regs = allocatable_regs;
             for preg in env.fixed_stack_slots.iter() {
@@ -503,7 +475,6 @@ impl<'a, F: Function> Env<'a, F> {
             },
             reused_input_to_reuse_op: vec![usize::MAX; max_operand_len as usize],
             init_available_pregs,
-            init_num_available_pregs: num_available_pregs.clone(),
             num_any_reg_ops: PartedByExclusiveOperandPos {
                 items: [
                     PartedByRegClass { items: [0; 3] },
@@ -520,13 +491,6 @@ impl<'a, F: Function> Env<'a, F> {
                 fixed_stack_slots,
                 scratch_regs: dedicated_scratch_regs.clone(),
                 dedicated_scratch_regs,
-                num_available_pregs: PartedByExclusiveOperandPos {
-                    items: [
-                        num_available_pregs.clone(),
-                        num_available_pregs.clone(),
-                        num_available_pregs.clone(),
-                    ],
-                },
                 available_pregs: PartedByOperandPos {
                     items: [init_available_pregs, init_available_pregs],
                 },
@@ -547,9 +511,6 @@ impl<'a, F: Function> Env<'a, F> {
             items: [self.init_available_pregs, self.init_available_pregs],
         };
         self.scratch_regs = self.dedicated_scratch_regs.clone();
-        self.num_available_pregs = PartedByExclusiveOperandPos {
-            items: [self.init_num_available_pregs; 3],
-        };
         debug_assert_eq!(
             self.num_any_reg_ops,
             PartedByExclusiveOperandPos {
@@ -603,15 +564,32 @@ impl<'a, F: Function> Env<'a, F> {
         Ok(())
     }
 
+    /// Whether a register can be given to the any-constrained operand `op` so
+    /// that enough are left for the reg-only operands still to be allocated.
+    fn can_spare_reg_for_any_op(&self, op: Operand) -> bool {
+        let class = op.class();
+        let early = self.available_pregs[OperandPos::Early] & self.allocatable_regs;
+        let late = self.available_pregs[OperandPos::Late] & self.allocatable_regs;
+        let count = |regs: PRegSet| regs.bits[class as usize].count_ones() as i16;
+        let needed = |pos| self.num_any_reg_ops[pos][class];
+        let both = needed(ExclusiveOperandPos::Both);
+        let early_ok = count(early) > both + needed(ExclusiveOperandPos::EarlyOnly);
+        let late_ok = count(late) > both + needed(ExclusiveOperandPos::LateOnly);
+        match op.into() {
+            ExclusiveOperandPos::EarlyOnly => early_ok,
+            ExclusiveOperandPos::LateOnly => late_ok,
+            ExclusiveOperandPos::Both => early_ok && late_ok,
+        }
+    }
+
     fn allocd_within_constraint(&self, op: Operand, inst: Inst) -> bool {
         let alloc = self.vreg_allocs[op.vreg().vreg()];
         match op.constraint() {
             OperandConstraint::Any => {
                 if let Some(preg) = alloc.as_reg() {
-                    let exclusive_pos: ExclusiveOperandPos = op.into();
                     if !self.is_stack(alloc)
-                        && self.num_available_pregs[exclusive_pos][op.class()]
-                            < self.num_any_reg_ops[exclusive_pos][op.class()]
+                        && self.available_pregs[op.pos()].contains(preg)
+                        && !self.can_spare_reg_for_any_op(op)
                     {
                         trace!("Need more registers to cover all any-reg ops. Going to evict {op} from {preg}");
                         return false;
@@ -765,7 +743,7 @@ impl<'a, F: Function> Env<'a, F> {
                     && self.vreg_allocs[op.vreg().vreg()] == Allocation::none())
                     // Not safe to alloc register because any-reg operands still
                     // need them
-                    || self.num_any_reg_ops[op.into()][op.class()] >= self.num_available_pregs[op.into()][op.class()]
+                    || !self.can_spare_reg_for_any_op(op)
                 {
                     // If the def is never used, it can just be put in its spillslot.
                     Allocation::stack(self.get_spillslot(op.vreg()))
@@ -1155,10 +1133,6 @@ impl<'a, F: Function> Env<'a, F> {
         self.reset_available_pregs_and_scratch_regs();
         let operands = Operands::new(self.func.inst_operands(inst));
         let clobbers = self.func.inst_clobbers(inst);
-        // Number of registers that can be used for reg-only operands
-        // allocated to fixed-reg operands
-        let mut num_fixed_regs_allocatable_clobbers = 0u16;
-        trace!("init num avail pregs: {:?}", self.num_available_pregs);
         for (op_idx, op) in operands.0.iter().cloned().enumerate() {
             if let OperandConstraint::Reuse(reused_idx) = op.constraint() {
                 trace!("Initializing reused_input_to_reuse_op for {op}");
@@ -1196,15 +1170,9 @@ impl<'a, F: Function> Env<'a, F> {
                 seen.add(preg);
                 if self.allocatable_regs.contains(preg) {
                     self.lrus[preg.class()].poke(preg);
-                    self.num_available_pregs[op.into()][op.class()] -= 1;
-                    debug_assert!(self.num_available_pregs[op.into()][op.class()] >= 0);
-                    if clobbers.contains(preg) {
-                        num_fixed_regs_allocatable_clobbers += 1;
-                    }
                 }
             }
         }
-        trace!("avail pregs after fixed: {:?}", self.num_available_pregs);
 
         self.remove_clobbers_from_available_pregs(clobbers);
 
@@ -1234,23 +1202,6 @@ impl<'a, F: Function> Env<'a, F> {
                 self.evict_vreg_in_preg(inst, preg, InstPosition::After)?;
                 self.vreg_in_preg[preg.index()] = VReg::invalid();
             }
-            if self.allocatable_regs.contains(preg) {
-                if num_fixed_regs_allocatable_clobbers == 0 {
-                    trace!("Decrementing clobber avail preg");
-                    self.num_available_pregs[ExclusiveOperandPos::LateOnly][preg.class()] -= 1;
-                    self.num_available_pregs[ExclusiveOperandPos::Both][preg.class()] -= 1;
-                    debug_assert!(
-                        self.num_available_pregs[ExclusiveOperandPos::LateOnly][preg.class()] >= 0
-                    );
-                    debug_assert!(
-                        self.num_available_pregs[ExclusiveOperandPos::Both][preg.class()] >= 0
-                    );
-                } else {
-                    // Some fixed-reg operands may be clobbers and so the decrement
-                    // of the num avail regs has already been done.
-                    num_fixed_regs_allocatable_clobbers -= 1;
-                }
-            }
         }
 
         trace!(
@@ -1265,10 +1216,6 @@ impl<'a, F: Function> Env<'a, F> {
             "Number of any-reg ops in both early and late: {}",
             self.num_any_reg_ops[ExclusiveOperandPos::Both]
         );
-        trace!(
-            "Number of available pregs for int, float, vector any-reg and any ops: {:?}",
-            self.num_available_pregs
-        );
         trace!(
             "registers available for early reg-only & any operands: {}",
             self.available_pregs[OperandPos::Early]
-- 
2.43.0


From 2c8c3e2032726a52f2ed16252b952b315a1f8214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 17/20] fix: a fixed early use extended past the instruction by
 a reused input needs a copy if its register is clobbered or defined

---
 src/ion/liveranges.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 1dabe7c..750040d 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -501,7 +501,9 @@ impl<'a, F: Function> Env<'a, F> {
                     if let OperandConstraint::FixedReg(preg) = operand.constraint() {
                         match (operand.pos(), operand.kind()) {
                             (OperandPos::Early, OperandKind::Use)
-                                if live.get(operand.vreg().vreg()) =>
+                                if live.get(operand.vreg().vreg())
+                                    || reused_input
+                                        .is_some_and(|reused| reused != operand.vreg()) =>
                             {
                                 // If we have a use constraint at the
                                 // Early point for a fixed preg, and
@@ -511,7 +513,10 @@ impl<'a, F: Function> Env<'a, F> {
                                 // live downward, we have to use the
                                 // multi-fixed-reg mechanism for a
                                 // fixup and rewrite here without the
-                                // constraint. See #53.
+                                // constraint. See #53. The same goes
+                                // for a use that is extended to
+                                // `After` below because of a reused
+                                // input.
                                 //
                                 // We adjust the def liverange and Use
                                 // to an "early" position to reserve
-- 
2.43.0


From f00b90a5e3a4ca2c963d4fa4213d9737b40e5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 18/20] fix: copy to further fixed registers of a use before
 the instruction, even if the use is at the After point

---
 src/ion/liveranges.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 750040d..accbe65 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -786,7 +786,7 @@ impl<'a, F: Function> Env<'a, F> {
         // have to split the multiple uses at the same progpoint into
         // different bundles, which breaks invariants related to
         // disjoint ranges and bundles).
-        let mut extra_clobbers: SmallVec<[(PReg, ProgPoint); 8]> = smallvec![];
+        let mut extra_clobbers: SmallVec<[(PReg, CodeRange); 8]> = smallvec![];
         for vreg in 0..self.vregs.len() {
             let vreg = VRegIndex::new(vreg);
             for range_idx in 0..self.vregs[vreg].ranges.len() {
@@ -898,8 +898,14 @@ impl<'a, F: Function> Env<'a, F> {
                             }
 
                             trace!(" -> duplicate; switching to constraint Any");
+                            // The copy is made before the instruction and must
+                            // last until the use, which is at `After` for a
+                            // late use and for one that was put there because
+                            // of a reused input.
+                            let from = ProgPoint::before(u.pos.inst());
+                            let to = u.pos.next();
                             self.ctx.multi_fixed_reg_fixups.push(MultiFixedRegFixup {
-                                pos: u.pos,
+                                pos: from,
                                 from_slot: source_slot,
                                 to_slot: u.slot,
                                 to_preg: preg_idx,
@@ -913,16 +919,12 @@ impl<'a, F: Function> Env<'a, F> {
                                 u.operand.pos(),
                             );
                             trace!(" -> extra clobber {} at inst{}", preg, u.pos.inst().index());
-                            extra_clobbers.push((preg, u.pos));
+                            extra_clobbers.push((preg, CodeRange { from, to }));
                         }
                     }
                 }
 
-                for (clobber, pos) in extra_clobbers.drain(..) {
-                    let range = CodeRange {
-                        from: pos,
-                        to: pos.next(),
-                    };
+                for (clobber, range) in extra_clobbers.drain(..) {
                     self.add_liverange_to_preg(range, clobber);
                 }
             }
-- 
2.43.0


From 492161b8de9e045406cef73f39f5dc4320931c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:33 +0000
Subject: [PATCH 19/20] fix: fastalloc must leave registers available at both
 points for the operands that need one

---
 src/fastalloc/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index bcc5e78..74b3a04 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -573,8 +573,15 @@ impl<'a, F: Function> Env<'a, F> {
         let count = |regs: PRegSet| regs.bits[class as usize].count_ones() as i16;
         let needed = |pos| self.num_any_reg_ops[pos][class];
         let both = needed(ExclusiveOperandPos::Both);
-        let early_ok = count(early) > both + needed(ExclusiveOperandPos::EarlyOnly);
-        let late_ok = count(late) > both + needed(ExclusiveOperandPos::LateOnly);
+        let early_only = needed(ExclusiveOperandPos::EarlyOnly);
+        let late_only = needed(ExclusiveOperandPos::LateOnly);
+        // An operand that needs a register at both points needs one that is
+        // available at both, and any of the others may take such a register.
+        if both > 0 && count(early & late) <= both + early_only + late_only {
+            return false;
+        }
+        let early_ok = count(early) > both + early_only;
+        let late_ok = count(late) > both + late_only;
         match op.into() {
             ExclusiveOperandPos::EarlyOnly => early_ok,
             ExclusiveOperandPos::LateOnly => late_ok,
-- 
2.43.0


From 2444f32330b320d478c97190f9f6f2ff312eaa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:33 +0000
Subject: [PATCH 20/20] fix: fastalloc must forget the variable it evicts for a
 scratch register

---
 src/fastalloc/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 74b3a04..de29945 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -183,6 +183,8 @@ impl<'a, F: Function> State<'a, F> {
         if let Some(preg) = self.lrus[class].last(avail_regs) {
             if self.vreg_in_preg[preg.index()] != VReg::invalid() {
                 self.evict_vreg_in_preg(inst, preg, pos)?;
+                // Nothing is in that preg before the reload.
+                self.vreg_in_preg[preg.index()] = VReg::invalid();
             }
             self.scratch_regs[class] = Some(preg);
             self.available_pregs[OperandPos::Early].remove(preg);
-- 
2.43.0

