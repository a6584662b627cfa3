From 5b71fae211d62a4c2f7f0cb28f370cf097d03bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 01/25] fix: place multi-fixed-reg fixup moves before the
 instruction

An early use of a vreg in an instruction with a reused input is extended to
the After point. If the same vreg is constrained to several fixed registers,
the move that satisfies the second constraint was inserted at that After
point, that is, after the instruction had read its operand (and after the
terminator, if the instruction is a return).
---
 src/ion/liveranges.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 09040f6..bfbb7e5 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -882,8 +882,13 @@ impl<'a, F: Function> Env<'a, F> {
                             }
 
                             trace!(" -> duplicate; switching to constraint Any");
+                            // The fixup move has to happen before the
+                            // instruction reads its inputs, even if the
+                            // use itself was placed at (or extended to)
+                            // the After point.
+                            let fixup_pos = ProgPoint::before(u.pos.inst());
                             self.ctx.multi_fixed_reg_fixups.push(MultiFixedRegFixup {
-                                pos: u.pos,
+                                pos: fixup_pos,
                                 from_slot: source_slot,
                                 to_slot: u.slot,
                                 to_preg: preg_idx,
@@ -903,11 +908,20 @@ impl<'a, F: Function> Env<'a, F> {
                 }
 
                 for (clobber, pos) in extra_clobbers.drain(..) {
-                    let range = CodeRange {
-                        from: pos,
-                        to: pos.next(),
-                    };
-                    self.add_liverange_to_preg(range, clobber);
+                    // Reserve the register from the fixup move up to
+                    // the point at which the use occurs. If the
+                    // instruction also clobbers the register, it is
+                    // reserved at the After point already.
+                    let inst = pos.inst();
+                    self.add_liverange_to_preg(
+                        CodeRange::singleton(ProgPoint::before(inst)),
+                        clobber,
+                    );
+                    if pos.pos() == InstPosition::After
+                        && !self.func.inst_clobbers(inst).contains(clobber)
+                    {
+                        self.add_liverange_to_preg(CodeRange::singleton(pos), clobber);
+                    }
                 }
             }
         }
-- 
2.43.0


From 186b0ccfff6814ce5a69e08ef41a03a32cca55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 02/25] fix: do not extend a live range backward over the def
 it starts at

If a block starts with an early def and the block before it in block order
has the same vreg live-out (possible when blocks are not in dominance order),
the two live ranges abut and were merged into one that was still marked as
starting at a def. Splitting it later trimmed the predecessor's part away, and
resolving the moves into its successors then panicked.
---
 src/ion/liveranges.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index bfbb7e5..0a1b8f8 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -163,6 +163,7 @@ impl<'a, F: Function> Env<'a, F> {
         // array, then reverse them at the end of
         // `compute_liveness()`.
 
+        let mut overlaps_last_range = false;
         if !self.vregs[vreg].ranges.is_empty() {
             let last_range_index = self.vregs[vreg].ranges.last().unwrap().index;
             let last_range = self.ranges[last_range_index].range;
@@ -177,6 +178,7 @@ impl<'a, F: Function> Env<'a, F> {
                 // range, truncate it to be contiguous so we can merge
                 // below.
                 if range.to >= last_range.from && range.to <= last_range.to {
+                    overlaps_last_range = range.to > last_range.from;
                     range.to = last_range.from;
                 }
             }
@@ -188,12 +190,22 @@ impl<'a, F: Function> Env<'a, F> {
             );
         }
 
-        if self.vregs[vreg].ranges.is_empty()
-            || range.to
-                < self.ranges[self.vregs[vreg].ranges.last().unwrap().index]
-                    .range
-                    .from
-        {
+        // A range that starts at a def must not be extended backward: the
+        // vreg is not live just before its def. The two can abut if the
+        // def is at the very first point of a block (an early def in the
+        // first instruction) and the block that precedes it in the block
+        // order has the vreg in its live-out set, which is possible if
+        // blocks do not appear in dominance order.
+        let extends_last_range = match self.vregs[vreg].ranges.last() {
+            Some(last) => {
+                let last = &self.ranges[last.index];
+                range.to >= last.range.from
+                    && (overlaps_last_range || !last.has_flag(LiveRangeFlag::StartsAtDef))
+            }
+            None => false,
+        };
+
+        if !extends_last_range {
             // Is not contiguous with previously-added (immediately
             // following) range; create a new range.
             let lr = self.ctx.ranges.add(range, self.ctx.scratch_bump.clone());
-- 
2.43.0


From 9a8a01c943c1fdf9d7f41099efdb47305385f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 03/25] fix: read the sources of all multi-fixed-reg fixups
 before updating any slot

With a limit or a fixed stack slot among the constraints of one vreg, the slot
chosen as the source of the fixup moves can itself be one that was rewritten.
Its allocation was then overwritten before the next fixup read it, so that the
value was copied out of a register it had not reached yet.
---
 src/ion/moves.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index ddabd9d..8a94486 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -662,8 +662,16 @@ impl<'a, F: Function> Env<'a, F> {
         }
 
         // Handle multi-fixed-reg constraints by copying.
-        for fixup in core::mem::replace(&mut self.multi_fixed_reg_fixups, vec![]) {
-            let from_alloc = self.get_alloc(fixup.pos.inst(), fixup.from_slot as usize);
+        //
+        // Look up all of the sources first: the source slot of one fixup
+        // may be the target slot of another, whose allocation is updated
+        // below while the moves still happen in parallel.
+        let fixups = core::mem::replace(&mut self.multi_fixed_reg_fixups, vec![]);
+        let from_allocs: Vec<Allocation> = fixups
+            .iter()
+            .map(|fixup| self.get_alloc(fixup.pos.inst(), fixup.from_slot as usize))
+            .collect();
+        for (fixup, from_alloc) in fixups.into_iter().zip(from_allocs) {
             let to_alloc = Allocation::reg(PReg::from_index(fixup.to_preg.index()));
             trace!(
                 "multi-fixed-move constraint at {:?} from {} to {} for v{}",
-- 
2.43.0


From 3ec23038262c44e591043438952330c6a14817f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 04/25] fix: keep all inputs intact when an instruction reuses
 several inputs

Only the first reused vreg was exempt from being extended past the reusing
outputs, but the exemption also covered its other uses in the instruction. An
output that reuses a different input could then be given their register, and
the copy into it overwrote the value before the instruction read it.
---
 src/ion/liveranges.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 0a1b8f8..5c896d2 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -470,14 +470,27 @@ impl<'a, F: Function> Env<'a, F> {
                 // outputs? This is important below to establish
                 // proper interference wrt other inputs. We note the
                 // *vreg* that is reused, not the index.
+                //
+                // If more than one vreg is reused, each of the other
+                // reused inputs is extended past the reusing outputs as
+                // well, and so is any further use of the first one: it
+                // would otherwise not interfere with the outputs that
+                // reuse the others.
                 let mut reused_input = None;
+                let mut reused_slot = usize::MAX;
+                let mut multiple_reused_vregs = false;
                 for op in self.func.inst_operands(inst) {
                     if let OperandConstraint::Reuse(i) = op.constraint() {
                         debug_assert!(self.func.inst_operands(inst)[i]
                             .as_fixed_nonallocatable()
                             .is_none());
-                        reused_input = Some(self.func.inst_operands(inst)[i].vreg());
-                        break;
+                        let vreg = self.func.inst_operands(inst)[i].vreg();
+                        if reused_input.is_none() {
+                            reused_input = Some(vreg);
+                            reused_slot = i;
+                        } else if reused_input != Some(vreg) {
+                            multiple_reused_vregs = true;
+                        }
                     }
                 }
 
@@ -602,7 +615,8 @@ impl<'a, F: Function> Env<'a, F> {
                             // input-that-is-reused/output.
                             (OperandKind::Use, OperandPos::Early)
                                 if reused_input.is_some()
-                                    && reused_input.unwrap() != operand.vreg() =>
+                                    && (reused_input.unwrap() != operand.vreg()
+                                        || (multiple_reused_vregs && i != reused_slot)) =>
                             {
                                 ProgPoint::after(inst)
                             }
-- 
2.43.0


From 3b07d906b5b9fd4eb56a0f776b37bd84724c5b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 05/25] fix: allow a fixed early use, a def or clobber of that
 register and a reused input together

An input of an instruction that reuses another input is extended to the After
point, where it conflicts with a late def or a clobber of the register it is
fixed to. This was only resolved with a fixup move if the vreg was live past
the instruction; otherwise allocation panicked.
---
 src/ion/liveranges.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 5c896d2..e292834 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -494,6 +494,14 @@ impl<'a, F: Function> Env<'a, F> {
                     }
                 }
 
+                // Early uses other than the reused one are extended to
+                // the After point in such an instruction.
+                let extended_by_reuse = |slot: usize, operand: Operand| {
+                    reused_input.is_some()
+                        && (reused_input != Some(operand.vreg())
+                            || (multiple_reused_vregs && slot != reused_slot))
+                };
+
                 // Preprocess defs and uses. Specifically, if there
                 // are any fixed-reg-constrained defs at Late position
                 // and fixed-reg-constrained uses at Early position
@@ -526,14 +534,17 @@ impl<'a, F: Function> Env<'a, F> {
                     if let OperandConstraint::FixedReg(preg) = operand.constraint() {
                         match (operand.pos(), operand.kind()) {
                             (OperandPos::Early, OperandKind::Use)
-                                if live.get(operand.vreg().vreg()) =>
+                                if live.get(operand.vreg().vreg())
+                                    || extended_by_reuse(i, operand) =>
                             {
                                 // If we have a use constraint at the
                                 // Early point for a fixed preg, and
                                 // this preg is also constrained with
                                 // a *separate* def at Late or is
                                 // clobbered, and *if* the vreg is
-                                // live downward, we have to use the
+                                // live downward (or the use is extended
+                                // to the After point because of a
+                                // reused input), we have to use the
                                 // multi-fixed-reg mechanism for a
                                 // fixup and rewrite here without the
                                 // constraint. See #53.
@@ -614,9 +625,7 @@ impl<'a, F: Function> Env<'a, F> {
                             // the other inputs and the
                             // input-that-is-reused/output.
                             (OperandKind::Use, OperandPos::Early)
-                                if reused_input.is_some()
-                                    && (reused_input.unwrap() != operand.vreg()
-                                        || (multiple_reused_vregs && i != reused_slot)) =>
+                                if extended_by_reuse(i, operand) =>
                             {
                                 ProgPoint::after(inst)
                             }
-- 
2.43.0


From 1ff0cea24503a870dc9a46752cd78407c08642b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 06/25] fix: report TooManyLiveRegs at the very first program
 point

The scan that tells an impossible problem from an internal error started at
the point before the bundle, which wraps around (or overflows) at the first
point of the function. Nothing was counted and allocation panicked.
---
 src/ion/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ion/process.rs b/src/ion/process.rs
index a6e5db9..41c7df2 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -1227,8 +1227,8 @@ impl<'a, F: Function> Env<'a, F> {
                     {
                         trace!(" -> PR {:?}", preg);
                         let start = LiveRangeKey::from_range(&CodeRange {
-                            from: range.from.prev(),
-                            to: range.from.prev(),
+                            from: range.from,
+                            to: range.from,
                         });
                         for (key, lr) in self.ctx.pregs[preg.index()]
                             .allocations
-- 
2.43.0


From 442ce75be8e87ab69b6764a98ee673abe5107adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 07/25] fix: accept several defs of a vreg on one instruction
 in SSA validation

Function::allow_multiple_vreg_defs() permits them, but validate_ssa rejected
every such function.
---
 src/ssa.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index 29a82cf..574bf7e 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -32,8 +32,18 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
             def(param, Inst::invalid())?;
         }
         for inst in f.block_insns(block).iter() {
-            for operand in f.inst_operands(inst) {
+            let operands = f.inst_operands(inst);
+            for (i, operand) in operands.iter().enumerate() {
                 if let OperandKind::Def = operand.kind() {
+                    // Several defs of one vreg on the same instruction
+                    // count as one, if the client allows them.
+                    if f.allow_multiple_vreg_defs()
+                        && operands[..i].iter().any(|other| {
+                            other.kind() == OperandKind::Def && other.vreg() == operand.vreg()
+                        })
+                    {
+                        continue;
+                    }
                     def(operand.vreg(), inst)?;
                 }
             }
-- 
2.43.0


From ada2bd52d1aa04e21616cd56b02087818ba669b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 08/25] fix: make the debug locations of one label disjoint

Liveranges of one vreg can overlap after bundles have been split, so two
locations of a label could cover the same program point although
`Output::debug_locations` guarantees disjoint ranges. Cut off what an
earlier location covers and drop empty locations.
---
 src/ion/moves.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index 8a94486..9d61dbc 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -777,8 +777,26 @@ impl<'a, F: Function> Env<'a, F> {
         }
 
         // Sort the debug-locations vector; we provide this
-        // invariant to the client.
-        self.output.debug_locations.sort_unstable();
+        // invariant to the client. We also guarantee that the ranges
+        // of one label are disjoint, but liveranges of a vreg may
+        // overlap (e.g. the part of a split bundle that went to the
+        // spill bundle and a minimal bundle inside it), so cut off
+        // whatever is already covered by an earlier location.
+        let debug_locations = &mut self.ctx.output.debug_locations;
+        debug_locations.sort_unstable();
+        let mut covered: Option<(u32, ProgPoint)> = None;
+        debug_locations.retain_mut(|(label, from, to, _)| {
+            if let Some((last_label, last_to)) = covered {
+                if last_label == *label {
+                    *from = core::cmp::max(*from, last_to);
+                }
+            }
+            if *from >= *to {
+                return false;
+            }
+            covered = Some((*label, *to));
+            true
+        });
 
         inserted_moves
     }
-- 
2.43.0


From f7da9c91503891b3b2b5300dd78967cda233653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 09/25] fix: keep several defs of a vreg by one instruction
 together

With `allow_multiple_vreg_defs`, all defs of a vreg by one instruction are
documented to get the same allocation, but splitting into minimal bundles
put each into a bundle of its own: they got different registers, or, if
fixed to one register, could not be allocated at all.
---
 src/ion/process.rs | 48 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/ion/process.rs b/src/ion/process.rs
index 41c7df2..4f037d6 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -315,6 +315,18 @@ impl<'a, F: Function> Env<'a, F> {
                     let min_range = minimal_range_for_use(only_use);
                     min_range.contains(&first_range_data.range)
                 }
+                // Several defs of the vreg by one instruction (see
+                // `allow_multiple_vreg_defs`) count as one: they
+                // cannot be split from each other.
+                [first, rest @ ..]
+                    if first.operand.kind() == OperandKind::Def
+                        && rest.iter().all(|u| {
+                            u.operand.kind() == OperandKind::Def && u.pos == first.pos
+                        }) =>
+                {
+                    let min_range = minimal_range_for_use(first);
+                    min_range.contains(&first_range_data.range)
+                }
                 _ => false,
             };
             trace!("  -> minimal: {}", minimal);
@@ -849,7 +861,8 @@ impl<'a, F: Function> Env<'a, F> {
             let mut spill_starts_def = false;
 
             let empty_vec = UseList::new_in(self.ctx.bump());
-            for u in core::mem::replace(&mut self.ctx.ranges[entry.index].uses, empty_vec) {
+            let uses = core::mem::replace(&mut self.ctx.ranges[entry.index].uses, empty_vec);
+            for &u in uses.iter() {
                 trace!("   -> use {:?}", u);
 
                 let is_def = u.operand.kind() == OperandKind::Def;
@@ -859,7 +872,16 @@ impl<'a, F: Function> Env<'a, F> {
                 // any-constrained uses will be easy to satisfy. Solving those constraints earlier
                 // could create unnecessary conflicts with existing bundles that need to fit in a
                 // register, more strict requirements, so we delay them eagerly.
-                if u.operand.constraint() == OperandConstraint::Any {
+                // The exception is a def that goes together with a constrained def of the same vreg
+                // by the same instruction.
+                if u.operand.constraint() == OperandConstraint::Any
+                    && !(is_def
+                        && uses.iter().any(|other| {
+                            other.pos == u.pos
+                                && other.operand.kind() == OperandKind::Def
+                                && other.operand.constraint() != OperandConstraint::Any
+                        }))
+                {
                     trace!("    -> migrating this any-constrained use to the spill range");
                     spill_uses.push(u);
 
@@ -879,8 +901,28 @@ impl<'a, F: Function> Env<'a, F> {
                     spill_range.from = ProgPoint::before(u.pos.inst().next());
                 }
 
-                // Create a new LR.
                 let cr = minimal_range_for_use(&u);
+
+                // All defs of a vreg by one instruction must get the
+                // same allocation, so keep them together.
+                if is_def {
+                    if let Some(&(last_vreg, last_lr)) = new_lrs.last() {
+                        let last = &mut self.ctx.ranges[last_lr];
+                        if last_vreg == vreg
+                            && last
+                                .uses
+                                .last()
+                                .map(|l| l.operand.kind() == OperandKind::Def && l.pos == u.pos)
+                                .unwrap_or(false)
+                        {
+                            trace!("    -> same def as in LR {:?}", last_lr);
+                            last.uses.push(u);
+                            continue;
+                        }
+                    }
+                }
+
+                // Create a new LR.
                 let lr = self.ctx.ranges.add(cr, self.ctx.scratch_bump.clone());
                 new_lrs.push((vreg, lr));
                 self.ctx.ranges[lr].uses.push(u);
-- 
2.43.0


From 8bc14298f9c75283d05b7187f451fe04d643006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 10/25] fix: fastalloc: read defs from where they are, and
 never edit after a branch

The move of a def into its spillslot read the vreg's later location, which
that very move sequence had not written yet, when the def itself was
allocated elsewhere. On a branch, such moves (and those to the later
location) ended up after the last instruction of the block; they now happen
in the successor only. A vreg defined on a branch with an Any or Stack
constraint is defined into its own spillslot, as the param slot of one
successor parameter is not enough if it is passed to several or is also
live-in.
---
 src/fastalloc/mod.rs | 142 ++++++++++++++++++++-----------------------
 1 file changed, 65 insertions(+), 77 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 91fdaa7..ae231cc 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -248,46 +248,32 @@ impl<'a, F: Function> State<'a, F> {
     }
 
     /// Given that `pred` is a predecessor of `block`, check if `vreg` is defined on `pred`s branch instruction
-    /// in a fixed register and if it is, insert an edit to move from that fixed register to `slot` at the beginning of `block`.
-    fn move_if_def_pred_branch(
+    /// and if it is, return the allocation it is defined into there.
+    fn alloc_if_def_pred_branch(
         &mut self,
         block: Block,
         pred: Block,
         vreg: VReg,
-        slot: SpillSlot,
-    ) -> Result<(), RegAllocError> {
+    ) -> Option<Allocation> {
         let pred_last_inst = self.func.block_insns(pred).last();
-        let move_from = self.func.inst_operands(pred_last_inst)
+        let op = self
+            .func
+            .inst_operands(pred_last_inst)
             .iter()
-            .find_map(|op| if op.kind() == OperandKind::Def && op.vreg() == vreg {
-                if self.func.block_preds(block).len() > 1 {
-                    panic!("Multiple predecessors when a branch arg/livein is defined on the branch");
-                }
-                match op.constraint() {
-                    OperandConstraint::FixedReg(reg) => {
-                        trace!("Vreg {vreg} defined on pred {pred:?} branch");
-                        Some(Allocation::reg(reg))
-                    },
-                    // In these cases, the vreg is defined directly into the block param
-                    // spillslot.
-                    OperandConstraint::Stack | OperandConstraint::Any => None,
-                    constraint => panic!("fastalloc does not support using any-reg or reuse constraints ({}) defined on a branch instruction as a branch arg/livein on the same instruction", constraint),
-                }
-            } else {
-                None
-            });
-        if let Some(from) = move_from {
-            let to = Allocation::stack(slot);
-            trace!("Inserting edit to move from {from} to {to}");
-            self.add_move(
-                self.func.block_insns(block).first(),
-                from,
-                to,
-                vreg.class(),
-                InstPosition::Before,
-            )?;
+            .find(|op| op.kind() == OperandKind::Def && op.vreg() == vreg)?;
+        if self.func.block_preds(block).len() > 1 {
+            panic!("Multiple predecessors when a branch arg/livein is defined on the branch");
+        }
+        trace!("Vreg {vreg} defined on pred {pred:?} branch");
+        match op.constraint() {
+            OperandConstraint::FixedReg(reg) => Some(Allocation::reg(reg)),
+            // In these cases, the vreg is defined directly into its
+            // spillslot.
+            OperandConstraint::Stack | OperandConstraint::Any => {
+                Some(Allocation::stack(self.get_spillslot(vreg)))
+            }
+            constraint => panic!("fastalloc does not support using any-reg or reuse constraints ({}) defined on a branch instruction as a branch arg/livein on the same instruction", constraint),
         }
-        Ok(())
     }
 }
 
@@ -861,7 +847,7 @@ impl<'a, F: Function> Env<'a, F> {
             // used (in `prev_alloc`, that is).
             else {
                 trace!("Move reason: Prev allocation doesn't meet constraints");
-                if op.kind() == OperandKind::Def {
+                if op.kind() == OperandKind::Def && !self.func.is_branch(inst) {
                     trace!("Adding edit from {new_alloc:?} to {curr_alloc:?} after inst {inst:?} for {op}");
                     self.add_move(inst, new_alloc, curr_alloc, op.class(), InstPosition::After)?;
                 }
@@ -1074,38 +1060,20 @@ impl<'a, F: Function> Env<'a, F> {
             self.process_operand_allocation(inst, new_reuse_op, op_idx)?;
         } else if self.func.is_branch(inst) {
             // If the defined vreg is used as a branch arg and it has an
-            // any or stack constraint, define it into the block param spillslot
-            let mut param_spillslot = None;
-            'outer: for (succ_idx, succ) in self.func.block_succs(block).iter().cloned().enumerate()
-            {
-                for (param_idx, branch_arg_vreg) in self
-                    .func
+            // any or stack constraint, define it into its spillslot; the
+            // successor moves it from there to the block param spillslot.
+            let is_branch_arg = (0..self.func.block_succs(block).len()).any(|succ_idx| {
+                self.func
                     .branch_blockparams(block, inst, succ_idx)
-                    .iter()
-                    .cloned()
-                    .enumerate()
-                {
-                    if op.vreg() == branch_arg_vreg {
-                        if matches!(
-                            op.constraint(),
-                            OperandConstraint::Any | OperandConstraint::Stack
-                        ) {
-                            let block_param = self.func.block_params(succ)[param_idx];
-                            param_spillslot = Some(self.get_spillslot(block_param));
-                        }
-                        break 'outer;
-                    }
+                    .contains(&op.vreg())
+            });
+            let op = match op.constraint() {
+                OperandConstraint::Any if is_branch_arg => {
+                    Operand::new(op.vreg(), OperandConstraint::Stack, op.kind(), op.pos())
                 }
-            }
-            if let Some(param_spillslot) = param_spillslot {
-                let spillslot = self.vreg_spillslots[op.vreg().vreg()];
-                self.vreg_spillslots[op.vreg().vreg()] = param_spillslot;
-                let op = Operand::new(op.vreg(), OperandConstraint::Stack, op.kind(), op.pos());
-                self.process_operand_allocation(inst, op, op_idx)?;
-                self.vreg_spillslots[op.vreg().vreg()] = spillslot;
-            } else {
-                self.process_operand_allocation(inst, op, op_idx)?;
-            }
+                _ => op,
+            };
+            self.process_operand_allocation(inst, op, op_idx)?;
         } else {
             self.process_operand_allocation(inst, op, op_idx)?;
         }
@@ -1113,9 +1081,12 @@ impl<'a, F: Function> Env<'a, F> {
         if slot.is_valid() {
             self.vreg_to_live_inst_range[op.vreg().vreg()].2 = Allocation::stack(slot);
             let curr_alloc = self.vreg_allocs[op.vreg().vreg()];
-            let new_alloc = Allocation::stack(self.vreg_spillslots[op.vreg().vreg()]);
-            if curr_alloc != new_alloc {
-                self.add_move(inst, curr_alloc, new_alloc, op.class(), InstPosition::After)?;
+            let def_alloc = self.allocs[(inst.index(), op_idx)];
+            let new_alloc = Allocation::stack(slot);
+            // There can't be any moves after a branch. What is defined on a
+            // branch is moved to its spillslot in the successors.
+            if curr_alloc != new_alloc && def_alloc != new_alloc && !self.func.is_branch(inst) {
+                self.add_move(inst, def_alloc, new_alloc, op.class(), InstPosition::After)?;
             }
         }
         self.vreg_to_live_inst_range[op.vreg().vreg()].0 = ProgPoint::after(inst);
@@ -1434,6 +1405,7 @@ impl<'a, F: Function> Env<'a, F> {
         trace!(
             "Checking for predecessor branch args/livein vregs defined in the branch with fixed-reg constraint"
         );
+        let mut moves: Vec<(Allocation, Allocation, RegClass)> = Vec::new();
         for (param_idx, block_param) in self.func.block_params(block).iter().cloned().enumerate() {
             // Block param is never used. Don't bother.
             if self.state.vreg_spillslots[block_param.vreg()].is_invalid() {
@@ -1447,21 +1419,37 @@ impl<'a, F: Function> Env<'a, F> {
                         .branch_blockparams(pred, pred_last_inst, curr_block_succ_idx)[param_idx];
                 // If the branch arg is defined in the branch instruction, the move will have to be done
                 // here, instead of at the end of the predecessor block.
-                self.state.move_if_def_pred_branch(
-                    block,
-                    pred,
-                    branch_arg_for_param,
-                    self.state.vreg_spillslots[block_param.vreg()],
-                )?;
+                let slot = Allocation::stack(self.state.vreg_spillslots[block_param.vreg()]);
+                if let Some(from) =
+                    self.state
+                        .alloc_if_def_pred_branch(block, pred, branch_arg_for_param)
+                {
+                    moves.push((from, slot, block_param.class()));
+                }
             }
         }
         for vreg in self.live_vregs.iter() {
             for pred in self.func.block_preds(block).iter().cloned() {
-                let slot = self.state.vreg_spillslots[vreg.vreg()];
-                // Move from the reg into its spillslot if it's defined in a predecessor's
+                let slot = Allocation::stack(self.state.vreg_spillslots[vreg.vreg()]);
+                // Move into its spillslot if it's defined in a predecessor's
                 // branch instruction.
-                self.state
-                    .move_if_def_pred_branch(block, pred, vreg, slot)?;
+                if let Some(from) = self.state.alloc_if_def_pred_branch(block, pred, vreg) {
+                    if from != slot {
+                        moves.push((from, slot, vreg.class()));
+                    }
+                }
+            }
+        }
+        // Edits are added in reverse: the moves between stack locations, which
+        // may need a scratch register, have to come after those that read
+        // the registers defined by the branch.
+        for stack_src in [true, false] {
+            for &(from, to, class) in &moves {
+                if self.is_stack(from) == stack_src {
+                    trace!("Inserting edit to move from {from} to {to}");
+                    self.state
+                        .add_move(first_inst, from, to, class, InstPosition::Before)?;
+                }
             }
         }
         if trace_enabled!() {
-- 
2.43.0


From ab7c3b1a322e53cf81ddf96c025ce011a6c64321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 11/25] fix: fastalloc: sort the debug locations and make them
 disjoint

The locations were sorted by label only, and reported for the whole live
range of the vreg, so that they overlapped when a label moves from one vreg
to another.
---
 src/fastalloc/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index ae231cc..2da670f 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1533,12 +1533,23 @@ impl<'a, F: Function> Env<'a, F> {
         trace!("Building debug location info");
         for &(vreg, start, end, label) in self.func.debug_value_labels() {
             let (point_start, point_end, alloc) = self.vreg_to_live_inst_range[vreg.vreg()];
-            if point_start.inst() <= start && end <= point_end.inst().next() {
+            if start < end && point_start.inst() <= start && end <= point_end.inst().next() {
+                // The vreg is not known by this label before `start`.
+                let point_start = core::cmp::max(point_start, ProgPoint::before(start));
                 self.debug_locations
                     .push((label, point_start, point_end, alloc));
             }
         }
-        self.debug_locations.sort_by_key(|loc| loc.0);
+        self.debug_locations.sort_unstable();
+        // The vreg may live on after the label has moved to another one.
+        for i in 1..self.debug_locations.len() {
+            let (label, from, _, _) = self.debug_locations[i];
+            let prev = &mut self.debug_locations[i - 1];
+            if prev.0 == label {
+                prev.2 = core::cmp::min(prev.2, from);
+            }
+        }
+        self.debug_locations.retain(|(_, from, to, _)| from < to);
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-- 
2.43.0


From 1b5101d4398d575a9f4f6764b6bce1ef3428d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 12/25] fix: fastalloc: forget what was in a register whose
 vreg was moved out

A register taken as scratch, or one whose vreg a branch passes on in its
spillslot, kept the vreg as its content. A later use of the register then
evicted it once more, with a useless move that could even land after the
last instruction of a block.
---
 src/fastalloc/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 2da670f..d84e992 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -186,6 +186,8 @@ impl<'a, F: Function> State<'a, F> {
         if let Some(preg) = self.lrus[class].last(avail_regs) {
             if self.vreg_in_preg[preg.index()] != VReg::invalid() {
                 self.evict_vreg_in_preg(inst, preg, pos)?;
+                // Nothing is in that preg anymore.
+                self.vreg_in_preg[preg.index()] = VReg::invalid();
             }
             self.scratch_regs[class] = Some(preg);
             self.available_pregs[OperandPos::Early].remove(preg);
@@ -964,6 +966,10 @@ impl<'a, F: Function> Env<'a, F> {
                         vreg.class(),
                         InstPosition::Before,
                     )?;
+                    if let Some(preg) = curr_alloc.as_reg() {
+                        // Nothing is in that preg anymore.
+                        self.vreg_in_preg[preg.index()] = VReg::invalid();
+                    }
                 }
                 self.vreg_allocs[vreg.vreg()] = vreg_spill;
                 let parallel_moves = match vreg.class() {
-- 
2.43.0


From 8f57ee5785efdd9aa92cbc731d2aa0164639a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 13/25] fix: fastalloc: leave enough registers for any-reg
 operands and the scratch register

---
 src/fastalloc/mod.rs | 34 +++++++++++++++++++++++++++++++++-
 src/lib.rs           |  5 +++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index d84e992..d8cf251 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -598,8 +598,10 @@ impl<'a, F: Function> Env<'a, F> {
                 if let Some(preg) = alloc.as_reg() {
                     let exclusive_pos: ExclusiveOperandPos = op.into();
                     if !self.is_stack(alloc)
-                        && self.num_available_pregs[exclusive_pos][op.class()]
+                        && (self.num_available_pregs[exclusive_pos][op.class()]
                             < self.num_any_reg_ops[exclusive_pos][op.class()]
+                            || (self.available_pregs[op.pos()].contains(preg)
+                                && !self.has_reg_to_spare(op)))
                     {
                         trace!("Need more registers to cover all any-reg ops. Going to evict {op} from {preg}");
                         return false;
@@ -661,6 +663,35 @@ impl<'a, F: Function> Env<'a, F> {
         }
     }
 
+    /// Would the registers that are still available suffice for the any-reg
+    /// operands yet to be allocated, if `op` took one of them?
+    fn has_reg_to_spare(&self, op: Operand) -> bool {
+        let class = op.class();
+        let early = self.available_pregs[OperandPos::Early] & self.allocatable_regs;
+        let late = self.available_pregs[OperandPos::Late] & self.allocatable_regs;
+        let any_reg_ops = |pos| i32::from(self.num_any_reg_ops[pos][class]);
+        let both_ops = any_reg_ops(ExclusiveOperandPos::Both);
+        // A move between stack locations, which only occurs with fixed stack
+        // slots, may need a scratch register.
+        let scratch = i32::from(
+            self.scratch_regs[class].is_none() && !self.fixed_stack_slots.is_empty(class),
+        );
+        let early_ops = any_reg_ops(ExclusiveOperandPos::EarlyOnly);
+        let late_ops = any_reg_ops(ExclusiveOperandPos::LateOnly);
+        let spare = |regs: PRegSet, ops: i32| regs.len_of_class(class) as i32 > ops;
+        let spare_early = spare(early, early_ops + both_ops);
+        let spare_late = spare(late, late_ops + both_ops);
+        // The operands that live in one phase only may pick the very
+        // registers that are available in both phases.
+        let spare_both = both_ops + scratch == 0
+            || spare(early & late, early_ops + late_ops + both_ops + scratch);
+        match op.into() {
+            ExclusiveOperandPos::EarlyOnly => spare_early && spare_both,
+            ExclusiveOperandPos::LateOnly => spare_late && spare_both,
+            ExclusiveOperandPos::Both => spare_early && spare_late && spare_both,
+        }
+    }
+
     fn freealloc(&mut self, vreg: VReg) {
         trace!("Freeing vreg {}", vreg);
         let alloc = self.vreg_allocs[vreg.vreg()];
@@ -754,6 +785,7 @@ impl<'a, F: Function> Env<'a, F> {
                     // Not safe to alloc register because any-reg operands still
                     // need them
                     || self.num_any_reg_ops[op.into()][op.class()] >= self.num_available_pregs[op.into()][op.class()]
+                    || !self.has_reg_to_spare(op)
                 {
                     // If the def is never used, it can just be put in its spillslot.
                     Allocation::stack(self.get_spillslot(op.vreg()))
diff --git a/src/lib.rs b/src/lib.rs
index 5eab7d3..4741dea 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -299,6 +299,11 @@ impl PRegSet {
         self.bits.iter().map(|s| s.count_ones()).sum()
     }
 
+    /// Returns the number of registers of the given class in this set.
+    pub(crate) fn len_of_class(&self, regclass: RegClass) -> u32 {
+        self.bits[regclass as usize].count_ones()
+    }
+
     /// Returns the maximum register in this set, with the highest hw_enc value.
     pub fn max_preg(&self) -> Option<PReg> {
         self.into_iter().last()
-- 
2.43.0


From 1f286def2054b015494f00572798787cf9ac5e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 14/25] fix: fastalloc: end a debug location where its label
 moves on

---
 src/fastalloc/mod.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index d8cf251..7a4bb79 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1569,25 +1569,31 @@ impl<'a, F: Function> Env<'a, F> {
 
     fn build_debug_info(&mut self) {
         trace!("Building debug location info");
-        for &(vreg, start, end, label) in self.func.debug_value_labels() {
+        let mut requests: Vec<_> = self
+            .func
+            .debug_value_labels()
+            .iter()
+            .filter(|(_, start, end, _)| start < end)
+            .map(|&(vreg, start, end, label)| (label, start, end, vreg))
+            .collect();
+        requests.sort_unstable();
+        for (i, &(label, start, end, vreg)) in requests.iter().enumerate() {
             let (point_start, point_end, alloc) = self.vreg_to_live_inst_range[vreg.vreg()];
-            if start < end && point_start.inst() <= start && end <= point_end.inst().next() {
-                // The vreg is not known by this label before `start`.
-                let point_start = core::cmp::max(point_start, ProgPoint::before(start));
-                self.debug_locations
-                    .push((label, point_start, point_end, alloc));
-            }
-        }
-        self.debug_locations.sort_unstable();
-        // The vreg may live on after the label has moved to another one.
-        for i in 1..self.debug_locations.len() {
-            let (label, from, _, _) = self.debug_locations[i];
-            let prev = &mut self.debug_locations[i - 1];
-            if prev.0 == label {
-                prev.2 = core::cmp::min(prev.2, from);
+            if point_start.inst() <= start && end <= point_end.inst().next() {
+                // The vreg is not known by this label before `start`, nor
+                // once the label has moved on to another one.
+                let from = core::cmp::max(point_start, ProgPoint::before(start));
+                let to = match requests.get(i + 1) {
+                    Some(next) if next.0 == label => {
+                        core::cmp::min(point_end, ProgPoint::before(next.1))
+                    }
+                    _ => point_end,
+                };
+                if from < to {
+                    self.debug_locations.push((label, from, to, alloc));
+                }
             }
         }
-        self.debug_locations.retain(|(_, from, to, _)| from < to);
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-- 
2.43.0


From bdd63b00127b9a068100f578d394f558a99195d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 15/25] fix: fastalloc: do not depend on the order in which the
 blocks are listed

---
 doc/FASTALLOC.md     |  4 ++--
 src/fastalloc/mod.rs | 25 +++++++++++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/doc/FASTALLOC.md b/doc/FASTALLOC.md
index bf38f79..cc2f401 100644
--- a/doc/FASTALLOC.md
+++ b/doc/FASTALLOC.md
@@ -345,8 +345,8 @@ constraints are not supported and aren't handled.
 `regalloc2`'s outward interface guarantees that edits are in
 sorted order. Since allocation proceeds in reverse, all edits
 are also added in reverse. After all blocks have completed
-processing the edits are simply reversed to put it in the
-correct order.
+processing the edits are reversed, and sorted in case the blocks
+aren't in reverse postorder, to put it in the correct order.
 
 One of the reasons why the allocation order proceeds the way it
 does is because of this edit-order constraint. All edits that
diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 7a4bb79..1b2b524 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1,5 +1,5 @@
 use crate::moves::{MoveAndScratchResolver, ParallelMoves};
-use crate::{cfg::CFGInfo, ion::Stats, Allocation, RegAllocError};
+use crate::{cfg::CFGInfo, ion::Stats, postorder, Allocation, RegAllocError};
 use crate::{ssa::validate_ssa, Edit, Function, MachineEnv, Output, ProgPoint};
 use crate::{
     AllocationKind, Block, FxHashMap, Inst, InstPosition, Operand, OperandConstraint, OperandKind,
@@ -1597,11 +1597,28 @@ impl<'a, F: Function> Env<'a, F> {
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
-        debug_assert_eq!(self.func.entry_block().index(), 0);
-        for block in (0..self.func.num_blocks()).rev() {
-            self.alloc_block(Block::new(block))?;
+        // All blocks that a value flows through have to be allocated before
+        // the block defining it. That goes for the postorder, to which blocks
+        // that can't be reached don't belong.
+        let mut visited = vec![];
+        let mut reachable = vec![];
+        postorder::calculate(
+            self.func.num_blocks(),
+            self.func.entry_block(),
+            &mut visited,
+            &mut reachable,
+            |block| self.func.block_succs(block),
+        )?;
+        for block in (0..self.func.num_blocks()).rev().map(Block::new) {
+            if !visited[block.index()] {
+                self.alloc_block(block)?;
+            }
+        }
+        for block in reachable {
+            self.alloc_block(block)?;
         }
         self.state.edits.reverse();
+        self.state.edits.sort_by_key(|&(point, _)| point);
         self.build_debug_info();
         Ok(())
     }
-- 
2.43.0


From d2eb2ba4562748f8912cfadfd326d7c578734c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 16/25] fix: fastalloc: locate vregs defined on a branch only
 where they are moved

A vreg defined in a fixed register on a branch reaches its spillslot in the
successors it is live into. Its debug location, though, covered whatever
blocks come in between.
---
 src/fastalloc/mod.rs | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 1b2b524..41f1088 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -415,6 +415,10 @@ pub struct Env<'a, F: Function> {
     allocatable_regs: PRegSet,
     preferred_victim: PartedByRegClass<PReg>,
     vreg_to_live_inst_range: Vec<(ProgPoint, ProgPoint, Allocation)>,
+    /// The blocks that the labelled vregs defined in a fixed register on a
+    /// branch are live into. These vregs are in their spillslot there only, as
+    /// they are not moved to it after the branch but in its successors.
+    branch_def_live_ins: FxHashMap<VReg, Vec<Block>>,
 
     fixed_stack_slots: PRegSet,
 
@@ -482,6 +486,7 @@ impl<'a, F: Function> Env<'a, F> {
                 );
                 func.num_vregs()
             ],
+            branch_def_live_ins: FxHashMap::default(),
             preferred_victim: PartedByRegClass {
                 items: [
                     regs[0].max_preg().unwrap_or(PReg::invalid()),
@@ -1467,6 +1472,9 @@ impl<'a, F: Function> Env<'a, F> {
             }
         }
         for vreg in self.live_vregs.iter() {
+            if let Some(blocks) = self.branch_def_live_ins.get_mut(&vreg) {
+                blocks.push(block);
+            }
             for pred in self.func.block_preds(block).iter().cloned() {
                 let slot = Allocation::stack(self.state.vreg_spillslots[vreg.vreg()]);
                 // Move into its spillslot if it's defined in a predecessor's
@@ -1589,14 +1597,48 @@ impl<'a, F: Function> Env<'a, F> {
                     }
                     _ => point_end,
                 };
-                if from < to {
+                if let Some(blocks) = self.branch_def_live_ins.get(&vreg) {
+                    for &block in blocks {
+                        let insns = self.func.block_insns(block);
+                        let from = core::cmp::max(from, ProgPoint::before(insns.first()));
+                        let to = core::cmp::min(to, ProgPoint::before(insns.last().next()));
+                        if from < to {
+                            self.debug_locations.push((label, from, to, alloc));
+                        }
+                    }
+                } else if from < to {
                     self.debug_locations.push((label, from, to, alloc));
                 }
             }
         }
+        self.debug_locations.sort_unstable();
+    }
+
+    fn find_labelled_branch_defs(&mut self) {
+        if self.func.debug_value_labels().is_empty() {
+            return;
+        }
+        let mut defined_on_branch = vec![false; self.func.num_vregs()];
+        for block in (0..self.func.num_blocks()).map(Block::new) {
+            let inst = self.func.block_insns(block).last();
+            if self.func.is_branch(inst) {
+                for op in self.func.inst_operands(inst) {
+                    let is_fixed = matches!(op.constraint(), OperandConstraint::FixedReg(_));
+                    if op.kind() == OperandKind::Def && is_fixed {
+                        defined_on_branch[op.vreg().vreg()] = true;
+                    }
+                }
+            }
+        }
+        for &(vreg, ..) in self.func.debug_value_labels() {
+            if defined_on_branch[vreg.vreg()] {
+                self.branch_def_live_ins.insert(vreg, Vec::new());
+            }
+        }
     }
 
     fn run(&mut self) -> Result<(), RegAllocError> {
+        self.find_labelled_branch_defs();
         // All blocks that a value flows through have to be allocated before
         // the block defining it. That goes for the postorder, to which blocks
         // that can't be reached don't belong.
-- 
2.43.0


From 36a8d0123722412c78ce21ffde664a91320d2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 17/25] fix: validate branch args and out-of-range vregs in SSA
 validation

A branch arg that is undefined or whose definition does not dominate the
branch was not noticed (fastalloc then allocates it silently), and the use of
a vreg beyond num_vregs panicked.
---
 src/ssa.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index 574bf7e..dbe048b 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -55,6 +55,20 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
     // defined (by inst or blockparam) in some other block that
     // dominates this one.
     let mut local = FxHashSet::default();
+    let check_use = |vreg: VReg, block: Block, inst: Inst, local: &FxHashSet<VReg>| {
+        let okay = match defined_in.get(vreg.vreg()) {
+            Some(&def_block) if def_block == block => local.contains(&vreg),
+            Some(&def_block) if def_block.is_valid() => cfginfo.dominates(def_block, block),
+            // Not defined at all, or not even a known vreg.
+            _ => false,
+        };
+        if okay {
+            Ok(())
+        } else {
+            trace!("Invalid use {:?}", vreg);
+            Err(RegAllocError::SSA(vreg, inst))
+        }
+    };
     for block in 0..f.num_blocks() {
         let block = Block::new(block);
         local.clear();
@@ -71,17 +85,7 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
 
                 match operand.kind() {
                     OperandKind::Use => {
-                        let def_block = defined_in[operand.vreg().vreg()];
-                        let okay = def_block.is_valid()
-                            && if def_block == block {
-                                local.contains(&operand.vreg())
-                            } else {
-                                cfginfo.dominates(def_block, block)
-                            };
-                        if !okay {
-                            trace!("Invalid use {:?}", operand.vreg());
-                            return Err(RegAllocError::SSA(operand.vreg(), iix));
-                        }
+                        check_use(operand.vreg(), block, iix, &local)?;
                     }
                     OperandKind::Def => {
                         // Check all the uses in this instruction
@@ -99,6 +103,17 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
                 }
             }
         }
+
+        // The branch args are uses, too. They may be defined by the branch
+        // itself.
+        let last = f.block_insns(block).last();
+        if f.is_branch(last) {
+            for succ_idx in 0..f.block_succs(block).len() {
+                for &arg in f.branch_blockparams(block, last, succ_idx) {
+                    check_use(arg, block, last, &local)?;
+                }
+            }
+        }
     }
 
     // Check that the length of branch args matches the sum of the
-- 
2.43.0


From e61fb4873d1a3245e12c55a846c5b10adaaae489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 18/25] Hook for simulation: parallel move resolution (--cfg
 regalloc2_sim)

---
 src/lib.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4741dea..5840d6d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1831,6 +1831,38 @@ unsafe impl allocator_api2::alloc::Allocator for Bump {
     }
 }
 
+/// Access to private parts for simulation. Only there when compiled with
+/// `--cfg regalloc2_sim`.
+#[allow(unexpected_cfgs)]
+#[cfg(regalloc2_sim)]
+pub mod sim_hooks {
+    use crate::moves::{MoveAndScratchResolver, ParallelMoves};
+    use crate::{Allocation, PReg};
+    use alloc::vec::Vec;
+
+    /// Turn parallel moves into a sequence of moves, asking for free registers
+    /// and stack slots as needed.
+    pub fn resolve_parallel_moves(
+        parallel: &[(Allocation, Allocation, u32)],
+        find_free_reg: &mut dyn FnMut() -> Option<Allocation>,
+        get_stackslot: &mut dyn FnMut() -> Allocation,
+        is_stack_alloc: &dyn Fn(Allocation) -> bool,
+        borrowed_scratch_reg: PReg,
+    ) -> Vec<(Allocation, Allocation, u32)> {
+        let mut moves = ParallelMoves::new();
+        for &(from, to, tag) in parallel {
+            moves.add(from, to, tag);
+        }
+        let resolver = MoveAndScratchResolver {
+            find_free_reg,
+            get_stackslot,
+            is_stack_alloc,
+            borrowed_scratch_reg,
+        };
+        resolver.compute(moves.resolve()).to_vec()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::{PReg, PRegSet, RegClass::*};
-- 
2.43.0


From 9c00d77d9c110a357553b244db02a7b4eb7d3796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 19/25] fix: checker: do not take unvisited predecessors for
 empty ones

---
 src/checker.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 58719e6..7c118b3 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -749,7 +749,8 @@ impl<'a, F: Function> Checker<'a, F> {
             }
         }
 
-        bb_in.insert(f.entry_block(), CheckerState::default());
+        // Nothing is known to be anywhere when the function is entered.
+        bb_in.insert(f.entry_block(), CheckerState::initial());
 
         let mut stack_pregs = PRegSet::empty();
         for &preg in &machine_env.fixed_stack_slots {
@@ -844,19 +845,12 @@ impl<'a, F: Function> Checker<'a, F> {
         let mut queue = Vec::new();
         let mut queue_set = FxHashSet::default();
 
-        // Put every block in the queue to start with, to ensure
-        // everything is visited even if the initial state remains
-        // `Top` after preds update it.
-        //
-        // We add blocks in reverse order so that when we process
-        // back-to-front below, we do our initial pass in input block
-        // order, which is (usually) RPO order or at least a
-        // reasonable visit order.
-        for block in (0..self.f.num_blocks()).rev() {
-            let block = Block::new(block);
-            queue.push(block);
-            queue_set.insert(block);
-        }
+        // Start at the entry block. A block is only visited once the
+        // state of one of its predecessors is known: its own state
+        // remains `Top` until then, and must not be propagated as if
+        // it was known that all locations are empty.
+        queue.push(self.f.entry_block());
+        queue_set.insert(self.f.entry_block());
 
         while let Some(block) = queue.pop() {
             queue_set.remove(&block);
@@ -913,6 +907,10 @@ impl<'a, F: Function> Checker<'a, F> {
     fn find_errors(&self) -> Result<(), CheckerErrors> {
         let mut errors = vec![];
         for (block, input) in &self.bb_in {
+            if *input == CheckerState::Top {
+                // Unreachable.
+                continue;
+            }
             let mut state = input.clone();
             for inst in self.bb_insts.get(block).unwrap() {
                 if let Err(e) = state.check(InstPosition::Before, inst, self) {
-- 
2.43.0


From a20d0d4fbf2fa5728d349405e17075819de1d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 20/25] fix: checker: a move from an unknown location
 overwrites its destination

---
 src/checker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checker.rs b/src/checker.rs
index 7c118b3..ca708e8 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -549,7 +549,8 @@ impl CheckerState {
                 // saves a victim register elsewhere. (In other words,
                 // that sequence saves an undefined value and restores
                 // it, so has no effect.) The checker needs to avoid
-                // putting Universe lattice values into the map.
+                // putting Universe lattice values into the map; but
+                // whatever the destination held is gone.
                 if let Some(val) = self.get_value(&from).cloned() {
                     trace!(
                         "checker: checkinst {:?} updating: move {:?} -> {:?} val {:?}",
@@ -559,6 +560,8 @@ impl CheckerState {
                         val
                     );
                     self.set_value(into, val);
+                } else {
+                    self.remove_value(&into);
                 }
             }
             &CheckerInst::ParallelMove { ref moves } => {
-- 
2.43.0


From 8e1bad207fcfdd2e4d6f4b5cfaa02f2de2dd7103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 21/25] fix: checker: check late operands of instructions that
 reuse an input

---
 src/checker.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index ca708e8..43616ba 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -482,16 +482,6 @@ impl CheckerState {
                 ref allocs,
                 ..
             } => {
-                // Skip Use-checks at the After point if there are any
-                // reused inputs: the Def which reuses the input
-                // happens early.
-                let has_reused_input = operands
-                    .iter()
-                    .any(|op| matches!(op.constraint(), OperandConstraint::Reuse(_)));
-                if has_reused_input && pos == InstPosition::After {
-                    return Ok(());
-                }
-
                 // For each operand, check (i) that the allocation
                 // contains the expected vreg, and (ii) that it meets
                 // the requirements of the OperandConstraint.
-- 
2.43.0


From 7258301bfd22a09eebf3aa6f3ea49800e6e04203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 22/25] fix: checker: limit and reuse constraints are not met
 by stack locations

---
 src/checker.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 43616ba..44478ee 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -657,7 +657,10 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Reuse(idx) => {
-                if alloc.kind() != AllocationKind::Reg {
+                let is_reg = alloc
+                    .as_reg()
+                    .map_or(false, |preg| !checker.stack_pregs.contains(preg));
+                if !is_reg {
                     return Err(CheckerError::AllocationIsNotReg { inst, op, alloc });
                 }
                 if alloc != allocs[idx] {
@@ -670,15 +673,17 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Limit(max) => {
-                if let Some(preg) = alloc.as_reg() {
-                    if preg.hw_enc() >= max {
-                        return Err(CheckerError::AllocationOutsideLimit {
-                            inst,
-                            op,
-                            alloc,
-                            range: (0..max),
-                        });
-                    }
+                let preg = match alloc.as_reg() {
+                    Some(preg) if !checker.stack_pregs.contains(preg) => preg,
+                    _ => return Err(CheckerError::AllocationIsNotReg { inst, op, alloc }),
+                };
+                if preg.hw_enc() >= max {
+                    return Err(CheckerError::AllocationOutsideLimit {
+                        inst,
+                        op,
+                        alloc,
+                        range: (0..max),
+                    });
                 }
             }
         }
-- 
2.43.0


From 696842d083a0d620c0cdc5068e398c24f448f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 23/25] fix: checker: report defs that overwrite another
 operand

---
 src/checker.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/checker.rs b/src/checker.rs
index 44478ee..b61b526 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -505,6 +505,32 @@ impl CheckerState {
                     );
                     self.check_val(inst, *op, *alloc, val, allocs, checker)?;
                 }
+
+                // A def must not overwrite another def, nor, if it is
+                // written early, any input: uses are checked above as
+                // if all of them were read first.
+                if pos == InstPosition::Before {
+                    let tracked = |op: &Operand| op.as_fixed_nonallocatable().is_none();
+                    for (def, alloc) in operands.iter().zip(allocs.iter()) {
+                        if def.kind() != OperandKind::Def || !tracked(def) {
+                            continue;
+                        }
+                        for (op, other) in operands.iter().zip(allocs.iter()) {
+                            if other == alloc
+                                && op.vreg() != def.vreg()
+                                && tracked(op)
+                                && (op.kind() == OperandKind::Def
+                                    || def.pos() == OperandPos::Early)
+                            {
+                                return Err(CheckerError::ConflictedValueInAllocation {
+                                    inst,
+                                    op: *op,
+                                    alloc: *alloc,
+                                });
+                            }
+                        }
+                    }
+                }
             }
             &CheckerInst::Move { into, from } => {
                 // Ensure that the allocator never returns stack-to-stack moves.
-- 
2.43.0


From ab499cede63dd10305fdf9b2ad38a4bb088e4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:53 +0000
Subject: [PATCH 24/25] fix: do not rescan blockparam_ins from a stale index
 for every vreg

The index carried to the next vreg only advanced when a vreg had several
live ranges starting at different points. With single-range block params it
stayed behind, and every block in every later range rescanned the entries of
all earlier vregs, which made move insertion quadratic.
---
 src/ion/moves.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index 9d61dbc..6c9d199 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -645,7 +645,9 @@ impl<'a, F: Function> Env<'a, F> {
                 }
             }
 
-            blockparam_in_idx = prev.blockparam_ins_idx();
+            // All ranges of this vreg are done, so there is no need to go back
+            // to where its last group of overlapping ranges started.
+            blockparam_in_idx = prev.buffered_ins_idx;
         }
 
         if !block_param_dests.is_empty() {
-- 
2.43.0


From 9f0cab60e2a99d5369d5039be594206b9f936e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:09 +0000
Subject: [PATCH 25/25] fix: do not go through all debug labels of a vreg for
 each of its ranges

A vreg with L labels and R ranges took L * R steps, even when no label
overlaps more than a few of the ranges.
---
 src/ion/moves.rs | 59 ++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index 6c9d199..fe31f5a 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -26,7 +26,7 @@ use crate::ion::reg_traversal::RegTraversalIter;
 use crate::moves::{MoveAndScratchResolver, ParallelMoves};
 use crate::{
     Allocation, Block, Edit, Function, FxHashMap, Inst, InstPosition, OperandConstraint,
-    OperandKind, OperandPos, PReg, ProgPoint, RegClass, SpillSlot,
+    OperandKind, OperandPos, PReg, ProgPoint, RegClass, SpillSlot, VReg,
 };
 use alloc::format;
 use alloc::vec::Vec;
@@ -272,6 +272,8 @@ impl<'a, F: Function> Env<'a, F> {
         let mut block_param_dests = Vec::with_capacity(3 * self.func.num_insts());
 
         let debug_labels = self.func.debug_value_labels();
+        let mut vreg_labels: Vec<(VReg, Inst, Inst, u32)> = vec![];
+        let mut open_labels: Vec<(VReg, Inst, Inst, u32)> = vec![];
 
         let mut reuse_input_insts = Vec::with_capacity(self.func.num_insts() / 2);
 
@@ -290,6 +292,21 @@ impl<'a, F: Function> Env<'a, F> {
             // `blockparam_outs`, which are sorted by (block, vreg),
             // to fill in allocations.
             let mut prev = PrevBuffer::new(blockparam_in_idx);
+
+            // Debug labels on this vreg, sorted by start. Recall that we
+            // require debug-label requests to be sorted by vreg as a
+            // precondition (which we verified above).
+            vreg_labels.clear();
+            let start = debug_labels.partition_point(|label| label.0.vreg() < vreg.index());
+            vreg_labels.extend(
+                debug_labels[start..]
+                    .iter()
+                    .take_while(|label| label.0.vreg() == vreg.index()),
+            );
+            vreg_labels.sort_unstable_by_key(|&(_, label_from, ..)| label_from);
+            let mut next_label = 0;
+            open_labels.clear();
+
             for range_idx in 0..self.vregs[vreg].ranges.len() {
                 let entry = self.vregs[vreg].ranges[range_idx];
                 let alloc = self.get_alloc_for_range(entry.index);
@@ -577,36 +594,28 @@ impl<'a, F: Function> Env<'a, F> {
                 // this range, producing a debug-info output record
                 // giving the allocation location for each label.
                 if !debug_labels.is_empty() {
-                    // Do a binary search to find the start of any
-                    // labels for this vreg. Recall that we require
-                    // debug-label requests to be sorted by vreg as a
-                    // precondition (which we verified above).
-                    let start = debug_labels
-                        .binary_search_by(|&(label_vreg, _label_from, _label_to, _label)| {
-                            // Search for the point just before the first
-                            // tuple that could be for `vreg` overlapping
-                            // with `range`. Never return
-                            // `Ordering::Equal`; `binary_search_by` in
-                            // this case returns the index of the first
-                            // entry that is greater as an `Err`.
-                            if label_vreg.vreg() < vreg.index() {
-                                core::cmp::Ordering::Less
-                            } else {
-                                core::cmp::Ordering::Greater
-                            }
-                        })
-                        .unwrap_err();
-
-                    for &(label_vreg, label_from, label_to, label) in &debug_labels[start..] {
+                    // Those are the labels that are open at its start, and those
+                    // that start within it; ranges are sorted by start as well.
+                    while let Some(&label) = vreg_labels.get(next_label) {
+                        if ProgPoint::before(label.1) > range.from {
+                            break;
+                        }
+                        open_labels.push(label);
+                        next_label += 1;
+                    }
+                    open_labels.retain(|label| ProgPoint::before(label.2) > range.from);
+                    let starting_labels = vreg_labels[next_label..]
+                        .iter()
+                        .take_while(|label| ProgPoint::before(label.1) < range.to);
+                    for &(_, label_from, label_to, label) in
+                        open_labels.iter().chain(starting_labels)
+                    {
                         let label_from = ProgPoint::before(label_from);
                         let label_to = ProgPoint::before(label_to);
                         let label_range = CodeRange {
                             from: label_from,
                             to: label_to,
                         };
-                        if label_vreg.vreg() != vreg.index() {
-                            break;
-                        }
                         if !range.overlaps(&label_range) {
                             continue;
                         }
-- 
2.43.0

