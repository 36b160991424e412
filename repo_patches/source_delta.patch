From a464af04bb01e7f90b7bba912d8546b5334ba25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 01/41] mc: guarded poll seam in migration (cfg chiwawa_mc)

---
 src/execution/migration.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0543d7a..8df3084 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -101,8 +101,25 @@ pub fn poll_checkpoint(state: &mut VmState) -> bool {
     do_poll_checkpoint(state)
 }
 
+/// Model-checking seam, compiled only with `--cfg chiwawa_mc`: lets an external
+/// explorer decide at which poll a checkpoint fires. The embedder's `poll`
+/// answers 0 (do not fire here), 1 (fire here) or 2 (use the real mechanism).
+#[cfg(chiwawa_mc)]
+#[link(wasm_import_module = "chiwawa_mc")]
+extern "C" {
+    #[link_name = "poll"]
+    fn chiwawa_mc_poll() -> i32;
+}
+
 #[inline(never)]
 fn do_poll_checkpoint(state: &mut VmState) -> bool {
+    #[cfg(chiwawa_mc)]
+    match unsafe { chiwawa_mc_poll() } {
+        0 => return false,
+        1 => return true,
+        _ => {}
+    }
+
     #[cfg(all(
         target_arch = "wasm32",
         target_os = "wasi",
-- 
2.43.0


From 8556e084cce8fc341a5826572de5954d3c6d40db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 02/41] fix: i32.trunc_f32/f64 must trap at 2^31 / 2^32
 (exclusive upper bound)

---
 src/execution/handlers.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 2a40f8d..435eb87 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1136,8 +1136,10 @@ conv!(
 );
 
 // Trapping float→int converters — branch + trap sentinel tail-call.
+// `$limit` is exclusive: 2^31 / 2^32 are exact in f32 and f64, while `MAX as f32`
+// rounds up to them.
 macro_rules! conv_trap {
-    ($name:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $max:expr, $cast:expr) => {
+    ($name:ident, $read:ident, $write:ident, $ty:ty, $min:expr, $limit:expr, $cast:expr) => {
         pub fn $name(state: &mut VmState) -> Outcome {
             let (src, dst) = match state.current_instr() {
                 ProcessedInstr::ConversionReg { src, dst, .. } => (*src, *dst),
@@ -1149,7 +1151,7 @@ macro_rules! conv_trap {
                 return trap(state);
             }
             let t = v.trunc();
-            if t < $min || t > $max {
+            if t < $min || t >= $limit {
                 state.trap = Some(RuntimeError::IntegerOverflow);
                 return trap(state);
             }
@@ -1166,7 +1168,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     i32::MIN as f32,
-    i32::MAX as f32,
+    2147483648.0_f32,
     |t: f32| t as i32
 );
 conv_trap!(
@@ -1175,7 +1177,7 @@ conv_trap!(
     write_dst_i32,
     f32,
     0.0_f32,
-    u32::MAX as f32,
+    4294967296.0_f32,
     |t: f32| (t as u32) as i32
 );
 conv_trap!(
@@ -1184,7 +1186,7 @@ conv_trap!(
     write_dst_i32,
     f64,
     i32::MIN as f64,
-    i32::MAX as f64,
+    2147483648.0_f64,
     |t: f64| t as i32
 );
 conv_trap!(
@@ -1193,7 +1195,7 @@ conv_trap!(
     write_dst_i32,
     f64,
     0.0_f64,
-    u32::MAX as f64,
+    4294967296.0_f64,
     |t: f64| (t as u32) as i32
 );
 
-- 
2.43.0


From 89356a62e2ca09ad0eae0c98073aa540e0b760eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 03/41] fix: fold a value two instructions ahead only into
 binary consumers

---
 src/parser.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 73a4004..0181e29 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -153,6 +153,7 @@ fn can_fold_i32<'a>(
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
                 is_i32_foldable_consumer(next_next_op)
+                    && !is_foldable_unary(next_next_op)
             } else {
                 false
             }
@@ -182,6 +183,7 @@ fn can_fold_i64<'a>(
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
                 is_i64_foldable_consumer(next_next_op)
+                    && !is_foldable_unary(next_next_op)
             } else {
                 false
             }
@@ -211,6 +213,7 @@ fn can_fold_f32<'a>(
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
                 is_f32_foldable_consumer(next_next_op)
+                    && !is_foldable_unary(next_next_op)
             } else {
                 false
             }
@@ -240,6 +243,7 @@ fn can_fold_f64<'a>(
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
                 is_f64_foldable_consumer(next_next_op)
+                    && !is_foldable_unary(next_next_op)
             } else {
                 false
             }
@@ -253,6 +257,37 @@ fn can_fold_f64<'a>(
     can_fold
 }
 
+/// Check if a foldable consumer takes a single operand. Such a consumer takes only the
+/// value directly before it, so it cannot absorb a value produced two instructions ahead.
+#[inline]
+fn is_foldable_unary(op: &wasmparser::Operator) -> bool {
+    matches!(
+        op,
+        wasmparser::Operator::I32Clz
+            | wasmparser::Operator::I32Ctz
+            | wasmparser::Operator::I32Popcnt
+            | wasmparser::Operator::I32Eqz
+            | wasmparser::Operator::I64Clz
+            | wasmparser::Operator::I64Ctz
+            | wasmparser::Operator::I64Popcnt
+            | wasmparser::Operator::I64Eqz
+            | wasmparser::Operator::F32Abs
+            | wasmparser::Operator::F32Neg
+            | wasmparser::Operator::F32Ceil
+            | wasmparser::Operator::F32Floor
+            | wasmparser::Operator::F32Trunc
+            | wasmparser::Operator::F32Nearest
+            | wasmparser::Operator::F32Sqrt
+            | wasmparser::Operator::F64Abs
+            | wasmparser::Operator::F64Neg
+            | wasmparser::Operator::F64Ceil
+            | wasmparser::Operator::F64Floor
+            | wasmparser::Operator::F64Trunc
+            | wasmparser::Operator::F64Nearest
+            | wasmparser::Operator::F64Sqrt
+    )
+}
+
 /// Check if the instruction can consume an I32 operand (excluding br_if/if/loads/stores)
 /// Note: Load/Store instructions are excluded because the 2-ahead lookahead in can_fold_i32
 /// doesn't verify the type of intervening LocalGet, which can cause incorrect folding.
-- 
2.43.0


From b215edae35446f9f6c47813441e179b5a89096fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 04/41] fix: take branch operands of mixed types from the right
 registers

---
 src/parser.rs | 51 +++++++--------------------------------------------
 1 file changed, 7 insertions(+), 44 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0181e29..5132ce4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7362,51 +7362,14 @@ fn compute_branch_regs(
         target_block.result_regs.clone()
     };
 
-    // Compute source_regs from current allocator state
-    let source_regs = if let Some(allocator) = reg_allocator {
-        // Get the registers at stack top matching result types
-        let result_count = target_result_regs.len();
-        if result_count == 0 {
-            Vec::new()
-        } else {
-            // Get current state and compute source registers
-            let state = allocator.save_state();
-            target_result_regs
-                .iter()
-                .enumerate()
-                .map(|(i, target_reg)| {
-                    // Source register is at current_depth - result_count + i
-                    match target_reg {
-                        Reg::I32(_) => {
-                            let src_idx = state.i32_depth.saturating_sub(result_count - i);
-                            Reg::I32(src_idx as u16)
-                        }
-                        Reg::I64(_) => {
-                            let src_idx = state.i64_depth.saturating_sub(result_count - i);
-                            Reg::I64(src_idx as u16)
-                        }
-                        Reg::F32(_) => {
-                            let src_idx = state.f32_depth.saturating_sub(result_count - i);
-                            Reg::F32(src_idx as u16)
-                        }
-                        Reg::F64(_) => {
-                            let src_idx = state.f64_depth.saturating_sub(result_count - i);
-                            Reg::F64(src_idx as u16)
-                        }
-                        Reg::Ref(_) => {
-                            let src_idx = state.ref_depth.saturating_sub(result_count - i);
-                            Reg::Ref(src_idx as u16)
-                        }
-                        Reg::V128(_) => {
-                            let src_idx = state.v128_depth.saturating_sub(result_count - i);
-                            Reg::V128(src_idx as u16)
-                        }
-                    }
-                })
-                .collect()
+    // Source registers: the stack-top registers holding the branch operands. The depth of
+    // each register type is counted separately, so mixed types need per-type positions.
+    let source_regs = match reg_allocator {
+        Some(allocator) => {
+            let types: Vec<ValueType> = target_result_regs.iter().map(Reg::value_type).collect();
+            allocator.peek_regs_for_types(&types)
         }
-    } else {
-        Vec::new()
+        None => Vec::new(),
     };
 
     (source_regs, target_result_regs)
-- 
2.43.0


From f159720936c8f4cf8cc24a26a355b92d8e555f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 05/41] fix: a branch to a loop with parameters must pass them

---
 src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5132ce4..ed86dde 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5243,10 +5243,12 @@ fn decode_processed_instrs_and_fixups<'a>(
                             .collect()
                     };
 
-                    // Push params back - they're still on the stack inside the block
-                    for vtype in param_types.iter() {
-                        allocator.push(*vtype);
-                    }
+                    // Push params back - they're still on the stack inside the block.
+                    // A branch to a loop delivers new values for these registers.
+                    let param_regs: Vec<Reg> = param_types
+                        .iter()
+                        .map(|vtype| allocator.push(*vtype))
+                        .collect();
 
                     let arity = result_types.len();
                     let param_count = param_types.len();
@@ -5256,7 +5258,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         block_type: *blockty,
                         is_loop,
                         result_regs: result_regs.into(),
-                        param_regs: Vec::new(),
+                        param_regs,
                     });
 
                     let instr = ProcessedInstr::BlockReg {
-- 
2.43.0


From b8fa151f33e7197bd6cfcc76d3862f39c7776cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 06/41] fix: a branch to the function level must return the
 results

---
 src/parser.rs | 61 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ed86dde..0a1fd0b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1374,8 +1374,8 @@ fn preprocess_instructions(
 
         if current_control_stack_pass2.len() <= current_fixup_depth {
             // Depth exceeds control stack - this is a branch to function level (return)
-            // Set target_ip to end of function (processed.len())
-            let function_end_ip = processed.len();
+            // Set target_ip to the function's final End, which returns the results
+            let function_end_ip = processed.len().saturating_sub(1);
             if let Some(instr_to_patch) = processed.get_mut(current_fixup_pc) {
                 if let ProcessedInstr::BrReg {
                     target_ip: ref mut tip,
@@ -1497,6 +1497,9 @@ fn preprocess_instructions(
     // Reuse control stack simulation logic, including runtime index tracking
     let mut current_control_stack_pass3: Vec<(usize, bool, wasmparser::BlockType)> = Vec::new();
 
+    // A target at function level continues at the function's final End
+    let function_end_ip = processed.len().saturating_sub(1);
+
     for pc in 0..processed.len() {
         if let Some(instr) = processed.get(pc) {
             match instr.handler_index() {
@@ -1547,7 +1550,11 @@ fn preprocess_instructions(
                     for (rel_depth, _, result_regs) in targets_clone.iter() {
                         let depth = *rel_depth as usize;
                         if current_control_stack_pass3.len() <= depth {
-                            resolved_reg_targets.push((*rel_depth, 0, result_regs.clone())); // Invalid
+                            resolved_reg_targets.push((
+                                *rel_depth,
+                                function_end_ip,
+                                result_regs.clone(),
+                            ));
                             continue;
                         }
                         let target_stack_level = current_control_stack_pass3.len() - 1 - depth;
@@ -1565,7 +1572,7 @@ fn preprocess_instructions(
                     // Compute target_ip for default target
                     // Note: block_end_map already stores End + 1 position
                     let default_target_ip = if current_control_stack_pass3.len() <= default_depth {
-                        0 // Invalid
+                        function_end_ip
                     } else {
                         let target_stack_level =
                             current_control_stack_pass3.len() - 1 - default_depth;
@@ -1924,6 +1931,15 @@ fn decode_processed_instrs_and_fixups<'a>(
     use crate::execution::regs::RegAllocator;
     let mut reg_allocator = Some(RegAllocator::new(locals));
 
+    // Registers holding the function's results when its final End is reached
+    let func_result_regs: Vec<Reg> = {
+        let mut state = RegAllocator::new(locals).save_state();
+        result_types
+            .iter()
+            .map(|vtype| state.next_reg_for_type(vtype))
+            .collect()
+    };
+
     // Track allocator state at block entry for proper restoration on block exit
     let mut allocator_state_stack: Vec<crate::execution::regs::RegAllocatorState> = Vec::new();
 
@@ -5182,8 +5198,13 @@ fn decode_processed_instrs_and_fixups<'a>(
                         result_types.to_vec()
                     };
 
-                    // Get the top N registers based on result types
-                    let source_regs = allocator.peek_regs_for_types(&result_type_vec);
+                    // Get the top N registers based on result types. The function's own End is
+                    // also reached by branches, which leave the results at function entry depth.
+                    let source_regs = if control_info_stack.is_empty() {
+                        func_result_regs.clone()
+                    } else {
+                        allocator.peek_regs_for_types(&result_type_vec)
+                    };
 
                     // Get target_result_regs from ControlBlockInfo BEFORE restoring state
                     let target_result_regs = if let Some(block_info) = control_info_stack.last() {
@@ -5518,6 +5539,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
+                        &func_result_regs,
                     );
 
                     let instr = ProcessedInstr::BrReg {
@@ -5548,6 +5570,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
+                        &func_result_regs,
                     );
 
                     let instr = ProcessedInstr::BrIfReg {
@@ -5585,6 +5608,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                             &control_info_stack,
                             *depth as usize,
                             reg_allocator.as_ref(),
+                            &func_result_regs,
                         );
                         table_targets.push((
                             *depth,
@@ -5599,6 +5623,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         &control_info_stack,
                         targets.default() as usize,
                         reg_allocator.as_ref(),
+                        &func_result_regs,
                     );
                     let default_target = (
                         targets.default(),
@@ -7347,21 +7372,23 @@ fn compute_branch_regs(
     control_info_stack: &[ControlBlockInfo],
     relative_depth: usize,
     reg_allocator: Option<&RegAllocator>,
+    func_result_regs: &[Reg],
 ) -> (Vec<Reg>, Vec<Reg>) {
     // Get target block from control_info_stack
     let stack_len = control_info_stack.len();
-    if stack_len == 0 || relative_depth >= stack_len {
-        return (Vec::new(), Vec::new());
-    }
-
-    let target_idx = stack_len - 1 - relative_depth;
-    let target_block = &control_info_stack[target_idx];
-    // For loops, use param_regs (branch provides parameters)
-    // For blocks/if, use result_regs (branch provides results)
-    let target_result_regs = if target_block.is_loop {
-        target_block.param_regs.clone()
+    let target_result_regs = if relative_depth >= stack_len {
+        // Branch to the function level: the operands are the function's results
+        func_result_regs.to_vec()
     } else {
-        target_block.result_regs.clone()
+        let target_idx = stack_len - 1 - relative_depth;
+        let target_block = &control_info_stack[target_idx];
+        // For loops, use param_regs (branch provides parameters)
+        // For blocks/if, use result_regs (branch provides results)
+        if target_block.is_loop {
+            target_block.param_regs.clone()
+        } else {
+            target_block.result_regs.clone()
+        }
     };
 
     // Source registers: the stack-top registers holding the branch operands. The depth of
-- 
2.43.0


From 17996f0ddb69f71aec465c8e265831558edf04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 07/41] fix: functions with more than eight results must not
 panic

---
 src/execution/handlers.rs |  7 +++----
 src/execution/runtime.rs  | 15 ++++++---------
 src/execution/state.rs    | 15 +++++++--------
 3 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 435eb87..164d5cb 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -30,7 +30,6 @@ use crate::execution::operand;
 use crate::execution::regs::Reg;
 use crate::execution::state::{Label, LabelStack, ModuleLevelInstr, VmState};
 use crate::execution::value::Val;
-use arrayvec::ArrayVec;
 
 // ============================================================================
 // Handler index constants
@@ -1655,7 +1654,7 @@ pub fn call(state: &mut VmState) -> Outcome {
     };
     let regs = state.reg_file();
     let params: Vec<Val> = param_regs.iter().map(|r| regs.get_val(r)).collect();
-    let result_regs_vec: ArrayVec<Reg, 8> = result_regs.iter().copied().collect();
+    let result_regs_vec: Vec<Reg> = result_regs.iter().copied().collect();
     state.pc += 1;
     state.yielded = Some(ModuleLevelInstr::InvokeReg {
         func_addr,
@@ -1699,7 +1698,7 @@ pub fn call_indirect(state: &mut VmState) -> Outcome {
     }
     let regs = state.reg_file();
     let params: Vec<Val> = param_regs.iter().map(|r| regs.get_val(r)).collect();
-    let result_regs_vec: ArrayVec<Reg, 8> = result_regs.iter().copied().collect();
+    let result_regs_vec: Vec<Reg> = result_regs.iter().copied().collect();
     state.pc += 1;
     state.yielded = Some(ModuleLevelInstr::InvokeReg {
         func_addr,
@@ -1737,7 +1736,7 @@ pub fn r#return(state: &mut VmState) -> Outcome {
     let ProcessedInstr::ReturnReg { result_regs } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
     };
-    let rrr: ArrayVec<Reg, 8> = result_regs.iter().copied().collect();
+    let rrr: Vec<Reg> = result_regs.iter().copied().collect();
     *state.return_result_regs_mut() = rrr;
     state.yielded = Some(ModuleLevelInstr::Return);
     Outcome::Yield
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 8795437..90e9248 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -16,7 +16,6 @@ use crate::execution::value::{Num, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
-use arrayvec::ArrayVec;
 use std::path::Path;
 use std::rc::Rc;
 #[cfg(all(target_os = "wasi", target_env = "p1", target_feature = "atomics"))]
@@ -150,8 +149,8 @@ impl Runtime {
         let locals_ptr = frame_stack.frame.locals.as_mut_ptr();
         let label_stack_ptr: *mut Vec<LabelStack> =
             &mut frame_stack.label_stack as *mut Vec<LabelStack>;
-        let return_result_regs_ptr: *mut ArrayVec<Reg, 8> =
-            &mut frame_stack.return_result_regs as *mut ArrayVec<Reg, 8>;
+        let return_result_regs_ptr: *mut Vec<Reg> =
+            &mut frame_stack.return_result_regs as *mut Vec<Reg>;
         let enable_checkpoint = frame_stack.enable_checkpoint;
 
         let mut state = VmState {
@@ -346,8 +345,8 @@ impl Runtime {
                                             ip: 0,
                                         }],
                                         enable_checkpoint: self.enable_checkpoint,
-                                        result_regs: ArrayVec::new(),
-                                        return_result_regs: ArrayVec::new(),
+                                        result_regs: Vec::new(),
+                                        return_result_regs: Vec::new(),
                                         primary_mem,
                                         cached_mem_ptr,
                                         handlers: code.handlers.clone(),
@@ -382,8 +381,7 @@ impl Runtime {
 
                             if self.stacks.activation_frame_stack.is_empty() {
                                 // Read values from registers before restoring
-                                // Use ArrayVec to avoid heap allocation (most functions return 0-2 values)
-                                let values_to_pass: ArrayVec<Val, 8> = return_result_regs
+                                let values_to_pass: Vec<Val> = return_result_regs
                                     .iter()
                                     .take(expected_n)
                                     .map(|reg| self.stacks.reg_file.get_val(reg))
@@ -392,8 +390,7 @@ impl Runtime {
                                 return Ok(values_to_pass.into_iter().collect());
                             } else {
                                 // First read values from finished frame's registers (before restore)
-                                // Use ArrayVec to avoid heap allocation
-                                let values_to_pass: ArrayVec<Val, 8> = return_result_regs
+                                let values_to_pass: Vec<Val> = return_result_regs
                                     .iter()
                                     .map(|reg| self.stacks.reg_file.get_val(reg))
                                     .collect();
diff --git a/src/execution/state.rs b/src/execution/state.rs
index 8b9cdf6..f86b752 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -15,7 +15,6 @@ use crate::execution::regs::{Reg, RegFile};
 use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
-use arrayvec::ArrayVec;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::rc::{Rc, Weak};
 
@@ -46,7 +45,7 @@ pub struct VmState {
     // Outcome channels
     pub trap: Option<RuntimeError>,
     pub yielded: Option<ModuleLevelInstr>,
-    pub return_result_regs: *mut ArrayVec<Reg, 8>,
+    pub return_result_regs: *mut Vec<Reg>,
 
     // Per-frame flags
     pub enable_checkpoint: bool,
@@ -113,7 +112,7 @@ impl VmState {
 
     /// Mutable reference to the return-value register slot.
     #[inline(always)]
-    pub fn return_result_regs_mut(&mut self) -> &mut ArrayVec<Reg, 8> {
+    pub fn return_result_regs_mut(&mut self) -> &mut Vec<Reg> {
         unsafe { &mut *self.return_result_regs }
     }
 }
@@ -130,7 +129,7 @@ pub enum ModuleLevelInstr {
     InvokeReg {
         func_addr: FuncAddr,
         params: Vec<Val>,
-        result_regs: ArrayVec<Reg, 8>,
+        result_regs: Vec<Reg>,
     },
 }
 
@@ -194,8 +193,8 @@ impl VMState {
                         ip: 0,
                     }],
                     enable_checkpoint: false,
-                    result_regs: ArrayVec::new(),
-                    return_result_regs: ArrayVec::new(),
+                    result_regs: Vec::new(),
+                    return_result_regs: Vec::new(),
                     primary_mem,
                     cached_mem_ptr,
                     handlers: code.handlers.clone(),
@@ -232,8 +231,8 @@ pub struct FrameStack {
     pub label_stack: Vec<LabelStack>,
     #[serde(skip)]
     pub enable_checkpoint: bool,
-    pub result_regs: ArrayVec<Reg, 8>,
-    pub return_result_regs: ArrayVec<Reg, 8>,
+    pub result_regs: Vec<Reg>,
+    pub return_result_regs: Vec<Reg>,
     #[serde(skip)]
     pub primary_mem: Option<MemAddr>,
     #[serde(skip)]
-- 
2.43.0


From ff039c98563140270411baceb007edaf7d76cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 08/41] fix: memory.grow takes an unsigned delta and fails with
 -1, it never shrinks memory or ends the program

---
 src/execution/handlers.rs |  9 +--------
 src/execution/mem.rs      | 31 ++++++++++++++-----------------
 2 files changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 164d5cb..06e75b3 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1998,14 +1998,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
         }
     };
     let delta = state.reg_file().get_i32(args[0].index());
-    let delta_u32: u32 = match delta.try_into() {
-        Ok(v) => v,
-        Err(_) => {
-            state.trap = Some(RuntimeError::InvalidParameterCount);
-            return trap(state);
-        }
-    };
-    let prev_size = mem_addr.mem_grow(delta_u32 as i32);
+    let prev_size = mem_addr.mem_grow(delta);
     if let Some(d) = dst {
         state.reg_file_mut().set_i32(d.index(), prev_size);
     }
diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 8c51a29..5cca5fe 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -90,26 +90,23 @@ impl MemAddr {
     /// Grows memory by the given number of pages. Returns previous size or -1 on failure.
     pub fn mem_grow(&self, size: i32) -> i32 {
         let prev_size = self.mem_size();
-        let new = prev_size + size;
+        // The page delta is unsigned: -1 asks for 2^32 - 1 pages.
+        let new = prev_size as u64 + size as u32 as u64;
 
-        // Safety: Single-threaded access
-        let mem = unsafe { &*self.mem_inst.get() };
-        let max_pages = mem._type_.0.max;
-
-        if let Some(max) = max_pages {
-            if new > max as i32 {
-                return -1;
-            }
+        // Safety: Single-threaded access, no overlapping borrows
+        let mem = unsafe { &mut *self.mem_inst.get() };
+        let max_pages = mem._type_.0.max.map_or(65536, |max| max as u64);
+        if new > max_pages.min(65536) {
+            return -1;
         }
-
-        if new > 65536 {
-            -1
-        } else {
-            // Safety: Single-threaded access, no overlapping borrows
-            let mem = unsafe { &mut *self.mem_inst.get() };
-            mem.data.resize(new as usize * 65536, 0);
-            prev_size
+        let Ok(new_len) = usize::try_from(new * 65536) else {
+            return -1;
+        };
+        if mem.data.try_reserve(new_len - mem.data.len()).is_err() {
+            return -1;
         }
+        mem.data.resize(new_len, 0);
+        prev_size
     }
 
     /// Returns a copy of all memory contents.
-- 
2.43.0


From 30ac6c5df35c3585b5c82f1c8fd66d537a31f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 09/41] fix: memory.init checks its ranges even when the length
 is zero

---
 src/execution/handlers.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 06e75b3..3abc82e 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -2053,9 +2053,8 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
     let dest = regs.get_i32(args[0].index()) as usize;
     let offset = regs.get_i32(args[1].index()) as usize;
     let len = regs.get_i32(args[2].index()) as usize;
-    if len > 0 {
-        mem_addr.init(dest, &data_bytes[offset..offset + len]);
-    }
+    // Both ranges are checked even when empty: out of bounds panics into a host trap.
+    mem_addr.init(dest, &data_bytes[offset..offset + len]);
     state.pc += 1;
     advance!(state)
 }
-- 
2.43.0


From c835a168045b1e6501ae24c27f7ab6973100ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 10/41] fix: table.fill checks its whole range before writing,
 also when empty

---
 src/execution/table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index ca359ee..9d9f181 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -57,9 +57,8 @@ impl TableAddr {
     /// Out-of-bounds panics; host runtime traps.
     pub fn fill(&self, i: usize, val: Val, n: usize) {
         let mut inst = self.0.borrow_mut();
-        for idx in i..i + n {
-            inst.elem[idx] = val.clone();
-        }
+        // Check the whole range first, also when it is empty: a trap writes nothing.
+        inst.elem[i..i + n].fill(val);
     }
 
     /// Gets function address at index for call_indirect.
-- 
2.43.0


From 637e04ce7caee7c0088899b42041c7e42f489f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 11/41] fix: active data segments are dropped after
 instantiation

---
 src/execution/module.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 6826a00..677c707 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -186,6 +186,10 @@ impl ModuleInst {
                 };
 
                 module_inst.mem_addrs[idx as usize].init(offset as usize, &init);
+                // An active segment is dropped once it has been copied.
+                if let Some(segment) = module_inst.data_addrs.last() {
+                    segment.drop_data();
+                }
             }
         }
 
-- 
2.43.0


From a533e72f7c2068c4464c469ea8386c209441ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 12/41] fix: select on references must select the references

---
 src/execution/handlers.rs | 7 ++++++-
 src/execution/stats.rs    | 3 ++-
 src/execution/trace.rs    | 3 ++-
 src/parser.rs             | 2 +-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 3abc82e..10dd7c3 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -35,7 +35,7 @@ use crate::execution::value::Val;
 // Handler index constants
 //
 // These indices identify each Wasm instruction handler. Numbered by Wasm
-// opcode where applicable, with extensions in the 0xF0-0x103 range for
+// opcode where applicable, with extensions in the 0xF0-0x104 range for
 // type-specialized variants. The parser uses these to look up handlers via
 // `select_handler` (and to populate the `handlers` array on each Func).
 // ============================================================================
@@ -292,6 +292,9 @@ pub const HANDLER_IDX_REF_LOCAL_SET: usize = 0x102;
 // WASI call handler constant
 pub const HANDLER_IDX_CALL_WASI: usize = 0x103;
 
+// Select on references
+pub const HANDLER_IDX_SELECT_REF: usize = 0x104;
+
 // ============================================================================
 // advance! macro — the difference between tco and non-tco mode
 // ============================================================================
@@ -1392,6 +1395,7 @@ select!(select_i32, get_i32, set_i32);
 select!(select_i64, get_i64, set_i64);
 select!(select_f32, get_f32, set_f32);
 select!(select_f64, get_f64, set_f64);
+select!(select_ref, get_ref, set_ref);
 
 // ============================================================================
 // Nop / Unreachable
@@ -2291,6 +2295,7 @@ pub fn select_handler(instr: &ProcessedInstr) -> Handler {
             HANDLER_IDX_SELECT_I64 => select_i64,
             HANDLER_IDX_SELECT_F32 => select_f32,
             HANDLER_IDX_SELECT_F64 => select_f64,
+            HANDLER_IDX_SELECT_REF => select_ref,
             _ => invalid,
         },
         ProcessedInstr::GlobalGetReg { handler_index, .. } => match *handler_index {
diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 9381a3c..76a531e 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -52,7 +52,8 @@ impl ExecutionStats {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index c45a8b8..fdc0328 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -325,7 +325,8 @@ impl Tracer {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/parser.rs b/src/parser.rs
index 0a1fd0b..1ef3143 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7104,7 +7104,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         ValueType::NumType(NumType::I64) => HANDLER_IDX_SELECT_I64,
                         ValueType::NumType(NumType::F32) => HANDLER_IDX_SELECT_F32,
                         ValueType::NumType(NumType::F64) => HANDLER_IDX_SELECT_F64,
-                        ValueType::RefType(_) => HANDLER_IDX_SELECT_I64,
+                        ValueType::RefType(_) => HANDLER_IDX_SELECT_REF,
                         ValueType::VecType(_) => panic!("VecType not supported for Select"),
                     };
 
-- 
2.43.0


From bf6f3c4a5d1c7d5ddf997b36c5eab6cd3b74ee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 13/41] fix: functions may declare reference-typed locals

---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 90e9248..1454231 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -12,7 +12,7 @@ use crate::execution::state::{Frame, FrameStack, Label, LabelStack, ModuleLevelI
 use crate::execution::stats::ExecutionStats;
 #[cfg(feature = "trace")]
 use crate::execution::trace::{TraceConfig, Tracer};
-use crate::execution::value::{Num, Val, Vec_};
+use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
@@ -1042,7 +1042,7 @@ impl Val {
             ValueType::NumType(NumType::F32) => Ok(Val::Num(Num::F32(0.0))),
             ValueType::NumType(NumType::F64) => Ok(Val::Num(Num::F64(0.0))),
             ValueType::VecType(VecType::V128) => Ok(Val::Vec_(Vec_::V128(0))),
-            ValueType::RefType(_) => todo!("Default value for RefType"),
+            ValueType::RefType(_) => Ok(Val::Ref(Ref::RefNull)),
         }
     }
 }
-- 
2.43.0


From 702cdda77317408652a6b66da9fcf56ce94663a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 14/41] fix: element segments given as expressions are
 evaluated, and empty ones are bounds-checked

---
 src/execution/elem.rs   | 10 +++-------
 src/execution/module.rs | 42 ++++++++++++++++++++++++++---------------
 src/execution/table.rs  | 13 ++++++-------
 3 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/execution/elem.rs b/src/execution/elem.rs
index f7d98e1..f1c9983 100644
--- a/src/execution/elem.rs
+++ b/src/execution/elem.rs
@@ -1,6 +1,6 @@
 //! Element segment instances for table initialization.
 
-use super::{func::FuncAddr, module::*, value::Ref};
+use super::value::Ref;
 use crate::structure::types::*;
 use std::cell::RefCell;
 use std::rc::Rc;
@@ -18,12 +18,8 @@ pub struct ElemInst {
 }
 
 impl ElemAddr {
-    /// Creates a new element segment from function indices.
-    pub fn new(type_: &RefType, funcs: &Vec<FuncAddr>, init: &Vec<i32>) -> ElemAddr {
-        let elem: Vec<Ref> = init
-            .into_iter()
-            .map(|i| Ref::FuncAddr(funcs.get_by_idx(FuncIdx(*i as u32)).clone()))
-            .collect();
+    /// Creates a new element segment from its evaluated references.
+    pub fn new(type_: &RefType, elem: Vec<Ref>) -> ElemAddr {
         ElemAddr(Rc::new(RefCell::new(ElemInst {
             _type_: *type_,
             _elem: elem,
diff --git a/src/execution/module.rs b/src/execution/module.rs
index 677c707..57c482a 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -131,18 +131,10 @@ impl ModuleInst {
         }
 
         for elem in &module.elems {
-            if elem.type_ == RefType::ExternalRef {
-                panic!();
-            }
-            let mut init: Vec<i32> = Vec::new();
-            if let Some(idxes) = &elem.idxes {
-                for idx in idxes {
-                    init.push(idx.0 as i32);
-                }
-            }
+            let refs = module_inst.elem_refs(elem)?;
             module_inst
                 .elem_addrs
-                .push(ElemAddr::new(&elem.type_, &module_inst.func_addrs, &init));
+                .push(ElemAddr::new(&elem.type_, refs.clone()));
 
             if elem.mode == ElemMode::Active {
                 let offset_res = match &elem.offset {
@@ -158,11 +150,8 @@ impl ModuleInst {
                     Some(i) => i.0,
                     None => 0,
                 };
-                module_inst.table_addrs[table_idx as usize].init(
-                    offset as usize,
-                    &module_inst.func_addrs,
-                    &init,
-                );
+                // The offset is an unsigned 32-bit number.
+                module_inst.table_addrs[table_idx as usize].init(offset as u32 as usize, &refs);
             }
         }
 
@@ -248,6 +237,26 @@ impl ModuleInst {
         }
     }
 
+    /// Evaluates the items of an element segment, given as function indices or
+    /// as constant expressions.
+    fn elem_refs(&self, elem: &Elem) -> Result<Vec<Ref>, RuntimeError> {
+        if let Some(exprs) = &elem.init {
+            return exprs
+                .iter()
+                .map(|expr| match self.expr_to_const(expr) {
+                    Some(Val::Ref(r)) => Ok(r),
+                    _ => Err(RuntimeError::InvalidConstantExpression),
+                })
+                .collect();
+        }
+        Ok(elem
+            .idxes
+            .iter()
+            .flatten()
+            .map(|idx| Ref::FuncAddr(self.func_addrs.get_by_idx(*idx).clone()))
+            .collect())
+    }
+
     /// Evaluates a constant expression to a value.
     fn expr_to_const(&self, expr: &Expr) -> Option<Val> {
         match &expr.0[..] {
@@ -257,6 +266,9 @@ impl ModuleInst {
             &[Instr::F64Const(i)] => Some(Val::Num(Num::F64(i as f64))),
             &[Instr::V128Const(i)] => Some(Val::Vec_(Vec_::V128(i))),
             &[Instr::RefNull(_)] => Some(Val::Ref(Ref::RefNull)),
+            [Instr::RefFunc(i)] => Some(Val::Ref(Ref::FuncAddr(
+                self.func_addrs.get_by_idx(*i).clone(),
+            ))),
             [Instr::GlobalGet(i)] => Some(self.global_addrs.get_by_idx(*i).get()),
             _ => None,
         }
diff --git a/src/execution/table.rs b/src/execution/table.rs
index 9d9f181..f40caca 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -2,7 +2,6 @@
 
 use super::{
     func::FuncAddr,
-    module::*,
     value::{self, Val},
 };
 use crate::error::RuntimeError;
@@ -34,13 +33,13 @@ impl TableAddr {
             },
         })))
     }
-    /// Initializes table elements from function indices.
-    pub fn init(&self, offset: usize, funcs: &Vec<FuncAddr>, init: &Vec<i32>) {
+    /// Initializes table elements from evaluated references.
+    /// Out-of-bounds panics, also for an empty range; host runtime traps.
+    pub fn init(&self, offset: usize, refs: &[value::Ref]) {
         let mut addr_self = self.0.borrow_mut();
-        for (index, f) in init.iter().enumerate() {
-            addr_self.elem[index + offset] = Val::Ref(value::Ref::FuncAddr(
-                funcs.get_by_idx(FuncIdx(*f as u32)).clone(),
-            ));
+        let slots = &mut addr_self.elem[offset..offset + refs.len()];
+        for (slot, r) in slots.iter_mut().zip(refs) {
+            *slot = Val::Ref(r.clone());
         }
     }
     /// Gets element at index. Out-of-bounds panics; host runtime traps.
-- 
2.43.0


From 0107d0234f1c71a8b049b7c0e25ac13b3bf6765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 15/41] fix: run the start function of a module

---
 src/execution/module.rs  |  9 ++++++---
 src/execution/runtime.rs | 20 ++++++++++++++++++++
 src/main.rs              |  2 ++
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 57c482a..f14722f 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -24,6 +24,8 @@ pub struct ModuleInst {
     pub exports: Vec<ExportInst>,
     pub wasi_func_addrs: Vec<WasiFuncAddr>,
     pub wasi_impl: Option<Arc<PassthroughWasiImpl>>,
+    /// Start function, run once by `Runtime::run_start` after instantiation.
+    pub start: Option<FuncAddr>,
 }
 
 /// Trait for indexed access to instance vectors.
@@ -65,6 +67,7 @@ impl ModuleInst {
             exports: Vec::new(),
             wasi_func_addrs: Vec::new(),
             wasi_impl: None,
+            start: None,
         };
 
         // Check if we need WASI support
@@ -201,6 +204,9 @@ impl ModuleInst {
                 },
             })
         }
+        if let Some(start) = &module.start {
+            module_inst.start = Some(module_inst.func_addrs.get_by_idx(start.func).clone());
+        }
         let arc_module_inst = Rc::new(module_inst);
 
         for (base, func) in module.funcs.iter().enumerate() {
@@ -217,9 +223,6 @@ impl ModuleInst {
             arc_module_inst.func_addrs[index]
                 .replace(func.clone(), Rc::downgrade(&arc_module_inst));
         }
-        if let Some(start) = &module.start {
-            arc_module_inst.func_addrs.get_by_idx(start.func);
-        }
         Ok(arc_module_inst)
     }
 
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 1454231..bc10cc6 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -84,6 +84,26 @@ impl Runtime {
         })
     }
 
+    /// Runs the start function of a newly instantiated module, if it has one.
+    ///
+    /// Not for a module that is about to be restored from a checkpoint: its start
+    /// function has already run. No checkpoint is taken while it runs.
+    pub fn run_start(module_inst: &Rc<ModuleInst>) -> Result<(), RuntimeError> {
+        if let Some(start) = &module_inst.start {
+            Runtime::new(
+                Rc::clone(module_inst),
+                start,
+                Vec::new(),
+                false,
+                false,
+                #[cfg(feature = "trace")]
+                None,
+            )?
+            .run()?;
+        }
+        Ok(())
+    }
+
     /// Creates a runtime restored from a checkpoint.
     ///
     /// Used to resume execution after restoring state from a checkpoint file.
diff --git a/src/main.rs b/src/main.rs
index 163dc3f..16a3805 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -194,6 +194,8 @@ fn main() -> Result<()> {
         let result = runtime.run();
         handle_result(result);
     } else {
+        Runtime::run_start(&inst)
+            .map_err(|e| anyhow::anyhow!("Start function failed: {:?}", e))?;
         let func_addr = inst.get_export_func(&cli.invoke)?;
         let params = parse_params(cli.params.unwrap_or_default());
 
-- 
2.43.0


From 1a77a186b0af814e8b2225b0e1ead05ce51d6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 16/41] fix: checkpoint tables, function references and dropped
 data segments

---
 src/execution/migration.rs | 149 +++++++++++++++++++++++++++++++++----
 1 file changed, 135 insertions(+), 14 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 8df3084..761e54d 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -9,13 +9,14 @@
 //! - Activation frame stack with register file and per-frame locals
 //! - Linear memory contents (LZ4 compressed)
 //! - Global variable values
+//! - Table contents and dropped data segments
 //! - Per-frame function indices (used to rebuild skipped `Rc` fields on restore)
 //!
+//! Function references are stored as indices into the function index space.
+//!
 //! `FrameStack` fields that are derived from the module instance
 //! (`handlers`, `processed_instrs`, `primary_mem`, `cached_mem_ptr`) are
-//! `#[serde(skip)]` and reconstructed during `restore`. Tables are excluded:
-//! they are deterministically initialized from element segments during
-//! module instantiation.
+//! `#[serde(skip)]` and reconstructed during `restore`.
 //!
 //! ## Trigger Mechanisms
 //!
@@ -37,12 +38,13 @@
 //! `runtime.rs` translates into a `checkpoint` call.
 
 use crate::error::RuntimeError;
-use crate::execution::func::FuncInst;
+use crate::execution::func::{FuncAddr, FuncInst};
 use crate::execution::global::GlobalAddr;
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
-use crate::execution::value::Val;
+use crate::execution::value::{Ref, Val};
+use rustc_hash::FxHashMap;
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::{Read, Write};
@@ -161,15 +163,64 @@ const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
 /// - Call stack and register state
 /// - Linear memory contents (LZ4 compressed)
 /// - Global variable values
-///
-/// Tables are excluded: they are deterministically initialized from element
-/// segments during module instantiation.
+/// - Table contents and which data segments have been dropped
 #[derive(Serialize, Deserialize, Debug)]
 pub struct SerializableState {
     pub stacks: Stacks,
     pub memory_data_compressed: Vec<u8>,
     pub global_values: Vec<Val>,
     pub frame_func_indices: Vec<u32>,
+    /// Function index (None for null) of every reference in `stacks` and
+    /// `global_values`, in the order of `refs_mut`.
+    pub func_refs: Vec<Option<u32>>,
+    pub table_elems: Vec<Vec<Option<u32>>>,
+    pub dropped_data: Vec<bool>,
+}
+
+/// Every reference held in registers, locals and globals, in a fixed order.
+fn refs_mut<'a>(stacks: &'a mut Stacks, globals: &'a mut [Val]) -> Vec<&'a mut Ref> {
+    let locals = stacks
+        .activation_frame_stack
+        .iter_mut()
+        .flat_map(|frame_stack| frame_stack.frame.locals.iter_mut());
+    let vals = locals.chain(globals.iter_mut()).filter_map(|v| match v {
+        Val::Ref(r) => Some(r),
+        _ => None,
+    });
+    stacks.reg_file.ref_regs.iter_mut().chain(vals).collect()
+}
+
+/// Function index of a reference, None for null.
+fn ref_to_index(
+    r: &Ref,
+    func_indices: &FxHashMap<*const FuncInst, u32>,
+) -> Result<Option<u32>, RuntimeError> {
+    let index = match r {
+        Ref::RefNull => return Ok(None),
+        Ref::FuncAddr(f) => func_indices.get(&(f.read_lock() as *const FuncInst)),
+        Ref::RefExtern(_) => None,
+    };
+    index.map(|i| Some(*i)).ok_or_else(|| {
+        RuntimeError::SerializationError("reference to an object outside the module".to_string())
+    })
+}
+
+/// Reference to the function at `index`, null for None.
+fn index_to_func(
+    module_inst: &ModuleInst,
+    index: Option<u32>,
+) -> Result<Option<FuncAddr>, RuntimeError> {
+    index
+        .map(|i| {
+            module_inst
+                .func_addrs
+                .get(i as usize)
+                .cloned()
+                .ok_or_else(|| {
+                    RuntimeError::DeserializationError(format!("no function with index {}", i))
+                })
+        })
+        .transpose()
 }
 
 /// Serializes runtime state to a checkpoint file.
@@ -195,7 +246,7 @@ pub fn checkpoint<P: AsRef<Path>>(
     };
 
     // 2. Gather Global state
-    let global_values = global_addrs
+    let mut global_values = global_addrs
         .iter()
         .map(|global_addr| Ok(global_addr.get()))
         .collect::<Result<Vec<Val>, RuntimeError>>()?;
@@ -222,17 +273,59 @@ pub fn checkpoint<P: AsRef<Path>>(
         })
         .collect::<Vec<u32>>();
 
-    // 4. Assemble state
+    // 4. Replace function references by function indices
+    let func_indices: FxHashMap<*const FuncInst, u32> = module_inst
+        .func_addrs
+        .iter()
+        .enumerate()
+        .map(|(i, f)| (f.read_lock() as *const FuncInst, i as u32))
+        .collect();
+    let mut saved_stacks = stacks.clone();
+    let func_refs = refs_mut(&mut saved_stacks, &mut global_values)
+        .into_iter()
+        .map(|r| {
+            let index = ref_to_index(r, &func_indices)?;
+            *r = Ref::RefNull;
+            Ok(index)
+        })
+        .collect::<Result<Vec<Option<u32>>, RuntimeError>>()?;
+
+    // 5. Gather table contents and dropped data segments
+    let table_elems = module_inst
+        .table_addrs
+        .iter()
+        .map(|table_addr| {
+            let table = table_addr.read_lock();
+            table
+                .elem
+                .iter()
+                .map(|v| match v {
+                    Val::Ref(r) => ref_to_index(r, &func_indices),
+                    _ => Ok(None),
+                })
+                .collect()
+        })
+        .collect::<Result<Vec<Vec<Option<u32>>>, RuntimeError>>()?;
+    let dropped_data = module_inst
+        .data_addrs
+        .iter()
+        .map(|data_addr| data_addr.get_data().is_empty())
+        .collect();
+
+    // 6. Assemble state
     // Note: Register file is already compact because restore_offsets() truncates
     // register vectors on function return, so no checkpoint-time compaction needed.
     let state = SerializableState {
-        stacks: stacks.clone(),
+        stacks: saved_stacks,
         memory_data_compressed,
         global_values,
         frame_func_indices,
+        func_refs,
+        table_elems,
+        dropped_data,
     };
 
-    // 6. Serialize and write (with per-component size diagnostics)
+    // 7. Serialize and write (with per-component size diagnostics)
     let reg_file_size = bincode::serialize(&state.stacks.reg_file)
         .map(|v| v.len())
         .unwrap_or(0);
@@ -321,7 +414,35 @@ pub fn restore<P: AsRef<Path>>(
         eprintln!("Warning: Checkpoint contains memory data, but module has no memory instance.");
     }
 
-    // 4. Restore global state into module_inst
+    // 4. Restore function references, table contents and dropped data segments
+    let refs = refs_mut(&mut state.stacks, &mut state.global_values);
+    if refs.len() != state.func_refs.len()
+        || module_inst.table_addrs.len() != state.table_elems.len()
+        || module_inst.data_addrs.len() != state.dropped_data.len()
+    {
+        return Err(RuntimeError::DeserializationError(
+            "Checkpoint does not match the module".to_string(),
+        ));
+    }
+    for (r, index) in refs.into_iter().zip(&state.func_refs) {
+        if let Some(func_addr) = index_to_func(&module_inst, *index)? {
+            *r = Ref::FuncAddr(func_addr);
+        }
+    }
+    for (table_addr, elems) in module_inst.table_addrs.iter().zip(&state.table_elems) {
+        let elems = elems
+            .iter()
+            .map(|index| index_to_func(&module_inst, *index))
+            .collect::<Result<Vec<_>, _>>()?;
+        table_addr.set_elements(elems)?;
+    }
+    for (data_addr, dropped) in module_inst.data_addrs.iter().zip(&state.dropped_data) {
+        if *dropped {
+            data_addr.drop_data();
+        }
+    }
+
+    // 5. Restore global state into module_inst
     if module_inst.global_addrs.len() == state.global_values.len() {
         for (global_addr, value) in module_inst.global_addrs.iter().zip(state.global_values) {
             global_addr.set(value)?;
@@ -335,7 +456,7 @@ pub fn restore<P: AsRef<Path>>(
         );
     }
 
-    // 5. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
+    // 6. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
         .stacks
-- 
2.43.0


From 9b13b16ea62f802eaa53b4fdc39974a6f8e63754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:01 +0000
Subject: [PATCH 17/41] fix: a restored execution can be checkpointed inside
 nested calls

---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index bc10cc6..e9a588f 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -238,8 +238,8 @@ impl Runtime {
             }
         }
 
-        // Set checkpoint enabled flag for initial frame stack
-        if let Some(frame_stack) = self.stacks.activation_frame_stack.first_mut() {
+        // Set checkpoint enabled flag for the initial frame, or for every restored frame
+        for frame_stack in self.stacks.activation_frame_stack.iter_mut() {
             frame_stack.enable_checkpoint = self.enable_checkpoint;
         }
 
-- 
2.43.0


From bf755d0255bd8d757f0125922e03a0c3b2f5f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 18/41] fix: modules without WASI imports honour checkpoint
 requests

---
 src/execution/migration.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 761e54d..e48089a 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -144,13 +144,15 @@ fn do_poll_checkpoint(state: &mut VmState) -> bool {
         if state.checkpoint_poll_counter & CHECKPOINT_POLL_MASK != 0 {
             return false;
         }
-        if let Some(ref wasi) = state.module().wasi_impl {
-            if wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE) {
-                let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
-                return true;
-            }
+        let requested = match state.module().wasi_impl {
+            Some(ref wasi) => wasi.check_file_exists(CHECKPOINT_TRIGGER_FILE),
+            // A module that imports nothing from WASI can be checkpointed too
+            None => Path::new(CHECKPOINT_TRIGGER_FILE).exists(),
+        };
+        if requested {
+            let _ = std::fs::remove_file(CHECKPOINT_TRIGGER_FILE);
         }
-        false
+        requested
     }
 }
 
-- 
2.43.0


From ed8abc6f7f3f729b6d67f42dce987d592247d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 19/41] fix: code that calls often honours checkpoint requests
 (poll counter survives frame changes)

---
 src/execution/runtime.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index e9a588f..accacb1 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -31,6 +31,9 @@ pub struct Runtime {
     #[cfg_attr(not(feature = "stats"), allow(dead_code))]
     enable_stats: bool,
     enable_checkpoint: bool,
+    /// Checkpoint poll counter, carried across frame transitions so that code
+    /// that keeps calling still polls regularly.
+    checkpoint_poll_counter: u32,
 }
 
 impl Drop for Runtime {
@@ -81,6 +84,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         })
     }
 
@@ -139,6 +143,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         }
     }
 
@@ -188,10 +193,11 @@ impl Runtime {
             yielded: None,
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
-            checkpoint_poll_counter: 0,
+            checkpoint_poll_counter: self.checkpoint_poll_counter,
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
+        self.checkpoint_poll_counter = state.checkpoint_poll_counter;
 
         let idx = state.current_label_idx;
         if idx < state.label_stack().len() {
-- 
2.43.0


From dd5d1cd6dc409914441d63a8b8d4afabede90408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 20/41] fix: a checkpoint replaces the previous image only when
 it is complete on disk

---
 src/execution/migration.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index e48089a..7ef1daa 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -375,15 +375,32 @@ pub fn checkpoint<P: AsRef<Path>>(
 
     println!("  total encoded:      {} bytes", encoded.len());
 
-    let mut file =
-        File::create(output_path).map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
-    file.write_all(&encoded)
+    write_image(output_path.as_ref(), &encoded)
         .map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
 
     println!("Checkpoint successful.");
     Ok(())
 }
 
+/// Writes an image so that `path` only ever holds a complete one: an error or a
+/// crash on the way leaves the image that was there before.
+fn write_image(path: &Path, encoded: &[u8]) -> std::io::Result<()> {
+    let mut tmp_path = path.as_os_str().to_owned();
+    tmp_path.push(".tmp");
+    let tmp_path = Path::new(&tmp_path);
+
+    let written = File::create(tmp_path)
+        .and_then(|mut file| {
+            file.write_all(encoded)?;
+            file.sync_all()
+        })
+        .and_then(|_| std::fs::rename(tmp_path, path));
+    if written.is_err() {
+        let _ = std::fs::remove_file(tmp_path);
+    }
+    written
+}
+
 /// Restores runtime state from a checkpoint file.
 ///
 /// Reads serialized state and restores memory, globals, and stacks.
-- 
2.43.0


From de6918b6ba7e786647b5132738b5a4114e211862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 21/41] fix: restore rejects damaged images and images of
 another module

---
 src/execution/migration.rs | 35 +++++++++++++++++++++++++++++++++--
 src/execution/module.rs    |  3 +++
 src/parser.rs              |  1 +
 src/structure/module.rs    | 10 ++++++++++
 4 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 7ef1daa..11572e9 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -44,6 +44,7 @@ use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
 use crate::execution::value::{Ref, Val};
+use crate::structure::module::fnv1a;
 use rustc_hash::FxHashMap;
 use serde::{Deserialize, Serialize};
 use std::fs::File;
@@ -375,13 +376,42 @@ pub fn checkpoint<P: AsRef<Path>>(
 
     println!("  total encoded:      {} bytes", encoded.len());
 
-    write_image(output_path.as_ref(), &encoded)
+    write_image(output_path.as_ref(), &seal_image(module_inst, &encoded))
         .map_err(|e| RuntimeError::CheckpointSaveError(e.to_string()))?;
 
     println!("Checkpoint successful.");
     Ok(())
 }
 
+/// Image header: magic, fingerprint of the module, checksum of the rest.
+const IMAGE_MAGIC: &[u8; 8] = b"CHIWAWA\x01";
+const IMAGE_HEADER_LEN: usize = 24;
+
+fn seal_image(module_inst: &ModuleInst, encoded: &[u8]) -> Vec<u8> {
+    let mut image = Vec::with_capacity(IMAGE_HEADER_LEN + encoded.len());
+    image.extend_from_slice(IMAGE_MAGIC);
+    image.extend_from_slice(&module_inst.fingerprint.to_le_bytes());
+    image.extend_from_slice(&fnv1a(encoded).to_le_bytes());
+    image.extend_from_slice(encoded);
+    image
+}
+
+/// Returns the encoded state of an undamaged image of this module.
+fn unseal_image<'a>(module_inst: &ModuleInst, image: &'a [u8]) -> Result<&'a [u8], RuntimeError> {
+    let reject = |why: &str| Err(RuntimeError::DeserializationError(why.to_string()));
+    if image.len() < IMAGE_HEADER_LEN || &image[..8] != IMAGE_MAGIC {
+        return reject("Not a checkpoint image");
+    }
+    let (header, encoded) = image.split_at(IMAGE_HEADER_LEN);
+    if header[16..] != fnv1a(encoded).to_le_bytes() {
+        return reject("Checkpoint image is damaged");
+    }
+    if header[8..16] != module_inst.fingerprint.to_le_bytes() {
+        return reject("Checkpoint was taken of another module");
+    }
+    Ok(encoded)
+}
+
 /// Writes an image so that `path` only ever holds a complete one: an error or a
 /// crash on the way leaves the image that was there before.
 fn write_image(path: &Path, encoded: &[u8]) -> std::io::Result<()> {
@@ -418,7 +448,8 @@ pub fn restore<P: AsRef<Path>>(
         .map_err(|e| RuntimeError::CheckpointLoadError(e.to_string()))?;
 
     // 2. Deserialize the state using bincode
-    let mut state: SerializableState = bincode::deserialize(&encoded[..])
+    let encoded = unseal_image(&module_inst, &encoded)?;
+    let mut state: SerializableState = bincode::deserialize(encoded)
         .map_err(|e| RuntimeError::DeserializationError(e.to_string()))?;
 
     // 3. Restore memory state (LZ4 decompress)
diff --git a/src/execution/module.rs b/src/execution/module.rs
index f14722f..c2e49b8 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -26,6 +26,8 @@ pub struct ModuleInst {
     pub wasi_impl: Option<Arc<PassthroughWasiImpl>>,
     /// Start function, run once by `Runtime::run_start` after instantiation.
     pub start: Option<FuncAddr>,
+    /// Hash of the module's bytes, ties checkpoint images to it.
+    pub fingerprint: u64,
 }
 
 /// Trait for indexed access to instance vectors.
@@ -68,6 +70,7 @@ impl ModuleInst {
             wasi_func_addrs: Vec::new(),
             wasi_impl: None,
             start: None,
+            fingerprint: module.fingerprint,
         };
 
         // Check if we need WASI support
diff --git a/src/parser.rs b/src/parser.rs
index 1ef3143..d3dce2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7426,6 +7426,7 @@ pub fn parse_bytecode(
 
     let mut file = File::open(path)?;
     file.read_to_end(&mut buf)?;
+    module.fingerprint = fnv1a(&buf);
 
     for payload in parser.parse_all(&buf) {
         match payload? {
diff --git a/src/structure/module.rs b/src/structure/module.rs
index 7174bf2..f459767 100644
--- a/src/structure/module.rs
+++ b/src/structure/module.rs
@@ -592,6 +592,15 @@ pub struct Module {
     pub code_index: usize,
     /// Export declarations.
     pub exports: Vec<Export>,
+    /// Hash of the module's bytes, ties checkpoint images to it.
+    pub fingerprint: u64,
+}
+
+/// FNV-1a, a hash that is the same in every build.
+pub fn fnv1a(bytes: &[u8]) -> u64 {
+    bytes.iter().fold(0xcbf29ce484222325, |hash, byte| {
+        (hash ^ u64::from(*byte)).wrapping_mul(0x100000001b3)
+    })
 }
 
 impl Module {
@@ -610,6 +619,7 @@ impl Module {
             num_imported_funcs: 0,
             code_index: 0,
             exports: Vec::new(),
+            fingerprint: 0,
         }
     }
 }
-- 
2.43.0


From ebdef324cd5d9581b2791f42dc1773baf526d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 22/41] fix: imported WASI functions can be called through a
 table

---
 src/execution/runtime.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index accacb1..669a6fd 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -392,10 +392,26 @@ impl Runtime {
                                         Err(e) => return Err(e),
                                     }
                                 }
-                                FuncInst::WasiFunc { .. } => {
-                                    return Err(RuntimeError::ExecutionFailed(
-                                        "WASI function called via InvokeReg - use CallWasiReg",
-                                    ));
+                                FuncInst::WasiFunc { wasi_func_addr, .. } => {
+                                    // WASI function reached through a table
+                                    let wasi_func_type = &wasi_func_addr.func_type;
+                                    match self.call_wasi_function(wasi_func_type, &params) {
+                                        Ok(result) => {
+                                            for (reg, val) in result_regs.iter().zip(result.iter())
+                                            {
+                                                self.stacks.reg_file.set_val(reg, val);
+                                            }
+                                        }
+                                        Err(e) => {
+                                            eprintln!(
+                                                "WASI register function failed: {:?}, error: {:?}",
+                                                wasi_func_type, e
+                                            );
+                                            return Err(RuntimeError::ExecutionFailed(
+                                                "WASI register function failed",
+                                            ));
+                                        }
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From ce47dfa8d6ea01771d8ec94427374526ade7a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 23/41] fix: sock_recv and sock_send hand the host buffers
 inside guest memory

---
 src/wasi/passthrough.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 9b44f41..4b5eb98 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -137,6 +137,34 @@ extern "C" {
     fn __wasi_sock_shutdown(fd: u32, how: u32) -> u16;
 }
 
+/// Reads an iovec array from guest memory and translates its buffers to host pointers.
+fn guest_iovecs(memory: &MemAddr, iovs_ptr: Ptr, iovs_len: Size) -> WasiResult<Vec<WasiIovec>> {
+    let data = &memory.get_memory_direct_access().data;
+    let in_bounds = |ptr: u64, len: u64| ptr + len <= data.len() as u64;
+    if !in_bounds(iovs_ptr as u64, iovs_len as u64 * 8) {
+        return Err(WasiError::Fault);
+    }
+    let word = |at: usize| u32::from_le_bytes([data[at], data[at + 1], data[at + 2], data[at + 3]]);
+    let mut iovecs = Vec::with_capacity(iovs_len as usize);
+    for i in 0..iovs_len as usize {
+        let (buf_ptr, buf_len) = (
+            word(iovs_ptr as usize + i * 8),
+            word(iovs_ptr as usize + i * 8 + 4),
+        );
+        if buf_len != 0 && !in_bounds(buf_ptr as u64, buf_len as u64) {
+            return Err(WasiError::Fault);
+        }
+        iovecs.push(WasiIovec {
+            buf: match buf_len {
+                0 => std::ptr::null(),
+                _ => unsafe { data.as_ptr().add(buf_ptr as usize) },
+            },
+            buf_len,
+        });
+    }
+    Ok(iovecs)
+}
+
 /// Passthrough WASI implementation that delegates to host runtime via wasi-libc.
 ///
 /// This struct holds state needed for WASI operations (such as command-line arguments)
@@ -1218,10 +1246,12 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
+        let iovecs = guest_iovecs(memory, ri_data_ptr, ri_data_len)?;
+
         let wasi_errno = unsafe {
             __wasi_sock_recv(
                 fd,
-                memory_base.add(ri_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 ri_data_len,
                 ri_flags,
                 memory_base.add(ro_datalen_ptr as usize) as *mut u32,
@@ -1244,10 +1274,12 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
+        let iovecs = guest_iovecs(memory, si_data_ptr, si_data_len)?;
+
         let wasi_errno = unsafe {
             __wasi_sock_send(
                 fd,
-                memory_base.add(si_data_ptr as usize) as *const WasiIovec,
+                iovecs.as_ptr(),
                 si_data_len,
                 si_flags,
                 memory_base.add(so_datalen_ptr as usize) as *mut u32,
-- 
2.43.0


From e12b2e22b4dbf00d56a3b5fbbc614fb279937c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 24/41] fix: args_get and environ_get write only the pointers
 they report

---
 src/wasi/passthrough.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 4b5eb98..2841c48 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -384,7 +384,7 @@ impl PassthroughWasiImpl {
         }
 
         // Calculate pointer offsets relative to environ_buf_ptr
-        let mut ptr_data = Vec::with_capacity((environ_count as usize + 1) * 4);
+        let mut ptr_data = Vec::with_capacity(environ_count as usize * 4);
         for i in 0..environ_count as usize {
             if !environ_ptrs[i].is_null() {
                 // Calculate offset from the start of environ_buf
@@ -395,8 +395,6 @@ impl PassthroughWasiImpl {
                 ptr_data.extend_from_slice(&0u32.to_le_bytes());
             }
         }
-        // Null terminator for environ array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
 
         // Write pointer array to WebAssembly memory
         memory.store_bytes(environ_ptr as i32, &ptr_data);
@@ -440,7 +438,7 @@ impl PassthroughWasiImpl {
 
         // Build the argument buffer and pointer array
         let mut argv_buf = Vec::with_capacity(total_len);
-        let mut ptr_data = Vec::with_capacity((args.len() + 1) * 4); // +1 for null terminator
+        let mut ptr_data = Vec::with_capacity(args.len() * 4);
 
         for arg in args {
             // Store pointer to current position in buffer (relative to argv_buf_ptr)
@@ -452,9 +450,6 @@ impl PassthroughWasiImpl {
             argv_buf.push(0); // null terminator
         }
 
-        // Add null terminator for the argv array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(argv_ptr as i32, &ptr_data);
 
-- 
2.43.0


From e060519a3c3e81f1d2f3902adf757a202285f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 25/41] fix: WASI calls do not reach outside guest memory
 (EFAULT)

---
 src/wasi/passthrough.rs | 70 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 6 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 2841c48..c75fea3 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -137,13 +137,18 @@ extern "C" {
     fn __wasi_sock_shutdown(fd: u32, how: u32) -> u16;
 }
 
+/// Checks that `len` bytes at `ptr` lie inside guest memory.
+fn check_range(memory: &MemAddr, ptr: Ptr, len: u64) -> WasiResult<()> {
+    if ptr as u64 + len > memory.get_memory_direct_access().data.len() as u64 {
+        return Err(WasiError::Fault);
+    }
+    Ok(())
+}
+
 /// Reads an iovec array from guest memory and translates its buffers to host pointers.
 fn guest_iovecs(memory: &MemAddr, iovs_ptr: Ptr, iovs_len: Size) -> WasiResult<Vec<WasiIovec>> {
+    check_range(memory, iovs_ptr, iovs_len as u64 * 8)?;
     let data = &memory.get_memory_direct_access().data;
-    let in_bounds = |ptr: u64, len: u64| ptr + len <= data.len() as u64;
-    if !in_bounds(iovs_ptr as u64, iovs_len as u64 * 8) {
-        return Err(WasiError::Fault);
-    }
     let word = |at: usize| u32::from_le_bytes([data[at], data[at + 1], data[at + 2], data[at + 3]]);
     let mut iovecs = Vec::with_capacity(iovs_len as usize);
     for i in 0..iovs_len as usize {
@@ -151,8 +156,8 @@ fn guest_iovecs(memory: &MemAddr, iovs_ptr: Ptr, iovs_len: Size) -> WasiResult<V
             word(iovs_ptr as usize + i * 8),
             word(iovs_ptr as usize + i * 8 + 4),
         );
-        if buf_len != 0 && !in_bounds(buf_ptr as u64, buf_len as u64) {
-            return Err(WasiError::Fault);
+        if buf_len != 0 {
+            check_range(memory, buf_ptr, buf_len as u64)?;
         }
         iovecs.push(WasiIovec {
             buf: match buf_len {
@@ -211,6 +216,8 @@ impl PassthroughWasiImpl {
         iovs_len: Size,
         nwritten_ptr: Ptr,
     ) -> WasiResult<i32> {
+        guest_iovecs(memory, iovs_ptr, iovs_len)?;
+        check_range(memory, nwritten_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
         let memory_len = memory_guard.data.len();
@@ -283,6 +290,8 @@ impl PassthroughWasiImpl {
         iovs_len: Size,
         nread_ptr: Ptr,
     ) -> WasiResult<i32> {
+        guest_iovecs(memory, iovs_ptr, iovs_len)?;
+        check_range(memory, nread_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -341,6 +350,7 @@ impl PassthroughWasiImpl {
             return Ok(0);
         }
 
+        check_range(memory, buf_ptr, buf_len as u64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -383,6 +393,9 @@ impl PassthroughWasiImpl {
             return Ok(wasi_errno as i32);
         }
 
+        check_range(memory, environ_ptr, environ_count as u64 * 4)?;
+        check_range(memory, environ_buf_ptr, environ_buf_size as u64)?;
+
         // Calculate pointer offsets relative to environ_buf_ptr
         let mut ptr_data = Vec::with_capacity(environ_count as usize * 4);
         for i in 0..environ_count as usize {
@@ -411,6 +424,8 @@ impl PassthroughWasiImpl {
         environ_count_ptr: Ptr,
         environ_buf_size_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, environ_count_ptr, 4)?;
+        check_range(memory, environ_buf_size_ptr, 4)?;
         let mut environ_count: u32 = 0;
         let mut environ_buf_size: u32 = 0;
 
@@ -436,6 +451,9 @@ impl PassthroughWasiImpl {
         // Calculate total buffer size needed for all argument strings (including null terminators)
         let total_len: usize = args.iter().map(|arg| arg.len() + 1).sum();
 
+        check_range(memory, argv_ptr, args.len() as u64 * 4)?;
+        check_range(memory, argv_buf_ptr, total_len as u64)?;
+
         // Build the argument buffer and pointer array
         let mut argv_buf = Vec::with_capacity(total_len);
         let mut ptr_data = Vec::with_capacity(args.len() * 4);
@@ -465,6 +483,8 @@ impl PassthroughWasiImpl {
         argc_ptr: Ptr,
         argv_buf_size_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, argc_ptr, 4)?;
+        check_range(memory, argv_buf_size_ptr, 4)?;
         let args = &self.argv;
 
         // Calculate argument count
@@ -489,6 +509,7 @@ impl PassthroughWasiImpl {
         precision: i64,
         time_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, time_ptr, 8)?;
         let mut time: u64 = 0;
 
         let wasi_errno =
@@ -510,6 +531,7 @@ impl PassthroughWasiImpl {
         clock_id: i32,
         resolution_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, resolution_ptr, 8)?;
         let mut resolution: u64 = 0;
 
         let wasi_errno = unsafe { __wasi_clock_res_get(clock_id as u32, &mut resolution) };
@@ -525,6 +547,7 @@ impl PassthroughWasiImpl {
     }
 
     pub fn fd_prestat_get(&self, memory: &MemAddr, fd: Fd, prestat_ptr: Ptr) -> WasiResult<i32> {
+        check_range(memory, prestat_ptr, 8)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -542,6 +565,7 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
+        check_range(memory, path_ptr, path_len as u64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -563,6 +587,7 @@ impl PassthroughWasiImpl {
     }
 
     pub fn fd_fdstat_get(&self, memory: &MemAddr, fd: Fd, stat_ptr: Ptr) -> WasiResult<i32> {
+        check_range(memory, stat_ptr, 24)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -586,6 +611,8 @@ impl PassthroughWasiImpl {
         fdflags: u32,
         opened_fd_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, path_ptr, path_len as u64)?;
+        check_range(memory, opened_fd_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -620,6 +647,7 @@ impl PassthroughWasiImpl {
         whence: u32,
         newoffset_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, newoffset_ptr, 8)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -636,6 +664,7 @@ impl PassthroughWasiImpl {
     }
 
     pub fn fd_tell(&self, memory: &MemAddr, fd: Fd, offset_ptr: Ptr) -> WasiResult<i32> {
+        check_range(memory, offset_ptr, 8)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -652,6 +681,7 @@ impl PassthroughWasiImpl {
     }
 
     pub fn fd_filestat_get(&self, memory: &MemAddr, fd: Fd, filestat_ptr: Ptr) -> WasiResult<i32> {
+        check_range(memory, filestat_ptr, 64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -671,6 +701,8 @@ impl PassthroughWasiImpl {
         cookie: u64,
         buf_used_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, buf_ptr, buf_len as u64)?;
+        check_range(memory, buf_used_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -696,6 +728,8 @@ impl PassthroughWasiImpl {
         offset: u64,
         nread_ptr: Ptr,
     ) -> WasiResult<i32> {
+        guest_iovecs(memory, iovs_ptr, iovs_len)?;
+        check_range(memory, nread_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -779,6 +813,8 @@ impl PassthroughWasiImpl {
         offset: u64,
         nwritten_ptr: Ptr,
     ) -> WasiResult<i32> {
+        guest_iovecs(memory, iovs_ptr, iovs_len)?;
+        check_range(memory, nwritten_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -842,6 +878,7 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
+        check_range(memory, path_ptr, path_len as u64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -866,6 +903,8 @@ impl PassthroughWasiImpl {
         path_len: Size,
         filestat_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, path_ptr, path_len as u64)?;
+        check_range(memory, filestat_ptr, 64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -899,6 +938,7 @@ impl PassthroughWasiImpl {
         mtim: u64,
         fst_flags: u32,
     ) -> WasiResult<i32> {
+        check_range(memory, path_ptr, path_len as u64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -933,6 +973,9 @@ impl PassthroughWasiImpl {
         buf_len: Size,
         buf_used_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, path_ptr, path_len as u64)?;
+        check_range(memory, buf_ptr, buf_len as u64)?;
+        check_range(memory, buf_used_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -963,6 +1006,7 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
+        check_range(memory, path_ptr, path_len as u64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -985,6 +1029,7 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
+        check_range(memory, path_ptr, path_len as u64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1007,6 +1052,9 @@ impl PassthroughWasiImpl {
         nsubscriptions: Size,
         nevents_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, in_ptr, nsubscriptions as u64 * 48)?;
+        check_range(memory, out_ptr, nsubscriptions as u64 * 32)?;
+        check_range(memory, nevents_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1096,6 +1144,8 @@ impl PassthroughWasiImpl {
         new_path_ptr: Ptr,
         new_path_len: Size,
     ) -> WasiResult<i32> {
+        check_range(memory, old_path_ptr, old_path_len as u64)?;
+        check_range(memory, new_path_ptr, new_path_len as u64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1141,6 +1191,8 @@ impl PassthroughWasiImpl {
         new_path_ptr: Ptr,
         new_path_len: Size,
     ) -> WasiResult<i32> {
+        check_range(memory, old_path_ptr, old_path_len as u64)?;
+        check_range(memory, new_path_ptr, new_path_len as u64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1184,6 +1236,8 @@ impl PassthroughWasiImpl {
         new_path_ptr: Ptr,
         new_path_len: Size,
     ) -> WasiResult<i32> {
+        check_range(memory, old_path_ptr, old_path_len as u64)?;
+        check_range(memory, new_path_ptr, new_path_len as u64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1219,6 +1273,7 @@ impl PassthroughWasiImpl {
         flags: u32,
         fd_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, fd_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1238,6 +1293,8 @@ impl PassthroughWasiImpl {
         ro_datalen_ptr: Ptr,
         ro_flags_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, ro_datalen_ptr, 4)?;
+        check_range(memory, ro_flags_ptr, 2)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1266,6 +1323,7 @@ impl PassthroughWasiImpl {
         si_flags: u32,
         so_datalen_ptr: Ptr,
     ) -> WasiResult<i32> {
+        check_range(memory, so_datalen_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-- 
2.43.0


From 705f1b12db3b514f9dbb4e1cde7256f9027801a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 26/41] fix: a path containing NUL is refused instead of cut
 short

---
 src/wasi/passthrough.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index c75fea3..9239b20 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -145,6 +145,16 @@ fn check_range(memory: &MemAddr, ptr: Ptr, len: u64) -> WasiResult<()> {
     Ok(())
 }
 
+/// Checks that a path lies inside guest memory and contains no NUL, which would end it early.
+fn check_path(memory: &MemAddr, ptr: Ptr, len: Size) -> WasiResult<()> {
+    check_range(memory, ptr, len as u64)?;
+    let data = &memory.get_memory_direct_access().data;
+    if data[ptr as usize..ptr as usize + len as usize].contains(&0) {
+        return Err(WasiError::Inval);
+    }
+    Ok(())
+}
+
 /// Reads an iovec array from guest memory and translates its buffers to host pointers.
 fn guest_iovecs(memory: &MemAddr, iovs_ptr: Ptr, iovs_len: Size) -> WasiResult<Vec<WasiIovec>> {
     check_range(memory, iovs_ptr, iovs_len as u64 * 8)?;
@@ -611,7 +621,7 @@ impl PassthroughWasiImpl {
         fdflags: u32,
         opened_fd_ptr: Ptr,
     ) -> WasiResult<i32> {
-        check_range(memory, path_ptr, path_len as u64)?;
+        check_path(memory, path_ptr, path_len)?;
         check_range(memory, opened_fd_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
@@ -878,7 +888,7 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
-        check_range(memory, path_ptr, path_len as u64)?;
+        check_path(memory, path_ptr, path_len)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -903,7 +913,7 @@ impl PassthroughWasiImpl {
         path_len: Size,
         filestat_ptr: Ptr,
     ) -> WasiResult<i32> {
-        check_range(memory, path_ptr, path_len as u64)?;
+        check_path(memory, path_ptr, path_len)?;
         check_range(memory, filestat_ptr, 64)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
@@ -938,7 +948,7 @@ impl PassthroughWasiImpl {
         mtim: u64,
         fst_flags: u32,
     ) -> WasiResult<i32> {
-        check_range(memory, path_ptr, path_len as u64)?;
+        check_path(memory, path_ptr, path_len)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -973,7 +983,7 @@ impl PassthroughWasiImpl {
         buf_len: Size,
         buf_used_ptr: Ptr,
     ) -> WasiResult<i32> {
-        check_range(memory, path_ptr, path_len as u64)?;
+        check_path(memory, path_ptr, path_len)?;
         check_range(memory, buf_ptr, buf_len as u64)?;
         check_range(memory, buf_used_ptr, 4)?;
         let memory_guard = memory.get_memory_direct_access();
@@ -1006,7 +1016,7 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
-        check_range(memory, path_ptr, path_len as u64)?;
+        check_path(memory, path_ptr, path_len)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1029,7 +1039,7 @@ impl PassthroughWasiImpl {
         path_ptr: Ptr,
         path_len: Size,
     ) -> WasiResult<i32> {
-        check_range(memory, path_ptr, path_len as u64)?;
+        check_path(memory, path_ptr, path_len)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1144,8 +1154,8 @@ impl PassthroughWasiImpl {
         new_path_ptr: Ptr,
         new_path_len: Size,
     ) -> WasiResult<i32> {
-        check_range(memory, old_path_ptr, old_path_len as u64)?;
-        check_range(memory, new_path_ptr, new_path_len as u64)?;
+        check_path(memory, old_path_ptr, old_path_len)?;
+        check_path(memory, new_path_ptr, new_path_len)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1191,8 +1201,8 @@ impl PassthroughWasiImpl {
         new_path_ptr: Ptr,
         new_path_len: Size,
     ) -> WasiResult<i32> {
-        check_range(memory, old_path_ptr, old_path_len as u64)?;
-        check_range(memory, new_path_ptr, new_path_len as u64)?;
+        check_path(memory, old_path_ptr, old_path_len)?;
+        check_path(memory, new_path_ptr, new_path_len)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
@@ -1236,8 +1246,8 @@ impl PassthroughWasiImpl {
         new_path_ptr: Ptr,
         new_path_len: Size,
     ) -> WasiResult<i32> {
-        check_range(memory, old_path_ptr, old_path_len as u64)?;
-        check_range(memory, new_path_ptr, new_path_len as u64)?;
+        check_path(memory, old_path_ptr, old_path_len)?;
+        check_path(memory, new_path_ptr, new_path_len)?;
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
-- 
2.43.0


From ef1e2b64075302602a726b8dac6840db9a5fb079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:36 +0000
Subject: [PATCH 27/41] fix: WASI errors reach the guest as errno instead of
 ending the run

---
 src/execution/runtime.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 669a6fd..df4fd79 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -465,11 +465,23 @@ impl Runtime {
         Ok(vec![])
     }
 
-    /// Calls a WASI function with the given parameters.
+    /// Calls a WASI function with the given parameters; errors reach the guest as errno.
     fn call_wasi_function(
         &self,
         func_type: &WasiFuncType,
         params: &[Val],
+    ) -> WasiResult<Option<Val>> {
+        match self.dispatch_wasi_function(func_type, params) {
+            Err(e) if e.to_errno() != 0 => Ok(Some(Val::Num(Num::I32(e.to_errno())))),
+            result => result,
+        }
+    }
+
+    /// Decodes the parameters of a WASI function and performs it.
+    fn dispatch_wasi_function(
+        &self,
+        func_type: &WasiFuncType,
+        params: &[Val],
     ) -> WasiResult<Option<Val>> {
         let wasi_impl = self
             .module_inst
-- 
2.43.0


From 6010162285aa5a55c7ce555e7af07400d1ec4c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:52 +0000
Subject: [PATCH 28/41] fix: a module without memory can call WASI functions
 which need none

---
 src/execution/runtime.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index df4fd79..f2cf09a 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -4,6 +4,7 @@ use crate::error::RuntimeError;
 use crate::execution::dispatch;
 use crate::execution::func::{FuncAddr, FuncInst};
 use crate::execution::ir::Outcome;
+use crate::execution::mem::MemAddr;
 use crate::execution::migration;
 use crate::execution::module::ModuleInst;
 use crate::execution::regs::{Reg, RegFile};
@@ -14,7 +15,7 @@ use crate::execution::stats::ExecutionStats;
 use crate::execution::trace::{TraceConfig, Tracer};
 use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
-use crate::structure::types::{NumType, ValueType, VecType};
+use crate::structure::types::{Limits, MemType, NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
 use std::path::Path;
 use std::rc::Rc;
@@ -490,10 +491,13 @@ impl Runtime {
             .ok_or(WasiError::NoSys)?;
 
         // Get memory address for WASI functions that need it
-        let memory = if self.module_inst.mem_addrs.is_empty() {
-            return Err(WasiError::Fault);
-        } else {
-            &self.module_inst.mem_addrs[0]
+        let no_memory;
+        let memory = match self.module_inst.mem_addrs.first() {
+            Some(memory) => memory,
+            None => {
+                no_memory = MemAddr::new(&MemType(Limits { min: 0, max: None }));
+                &no_memory
+            }
         };
 
         match func_type {
-- 
2.43.0


From f468563553b17db6cf9bb2099ac3786c567518d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 29/41] fix: a module which fails to load is not run

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 16a3805..b02e181 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,7 +146,8 @@ fn main() -> Result<()> {
     }
 
     let mut module = Module::new("test");
-    let _ = parser::parse_bytecode(&mut module, &cli.wasm_file);
+    parser::parse_bytecode(&mut module, &cli.wasm_file)
+        .map_err(|e| anyhow::anyhow!("Failed to load {}: {}", cli.wasm_file, e))?;
     let imports: ImportObjects = FxHashMap::default();
 
     let mut wasm_argv = vec![cli.wasm_file.clone()];
-- 
2.43.0


From 77c0cdf58ef9d0cd8eff28f737b2ae267a02a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 30/41] fix: invalid modules are rejected before anything runs

---
 src/main.rs   |  2 +-
 src/parser.rs | 30 ++++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b02e181..b432568 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,7 +146,7 @@ fn main() -> Result<()> {
     }
 
     let mut module = Module::new("test");
-    parser::parse_bytecode(&mut module, &cli.wasm_file)
+    parser::parse_valid_bytecode(&mut module, &cli.wasm_file)
         .map_err(|e| anyhow::anyhow!("Failed to load {}: {}", cli.wasm_file, e))?;
     let imports: ImportObjects = FxHashMap::default();
 
diff --git a/src/parser.rs b/src/parser.rs
index d3dce2d..132f670 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7415,20 +7415,38 @@ fn compute_branch_regs(
 /// * `module` - The module structure to populate
 /// * `path` - Path to the WebAssembly binary file
 pub fn parse_bytecode(
-    mut module: &mut Module,
+    module: &mut Module,
+    path: &str,
+) -> Result<(), Box<dyn std::error::Error>> {
+    parse_buffer(module, &read_file(path)?)
+}
+
+/// Like [`parse_bytecode`], for a module that is going to be run: an invalid one is refused.
+pub fn parse_valid_bytecode(
+    module: &mut Module,
     path: &str,
 ) -> Result<(), Box<dyn std::error::Error>> {
+    let buf = read_file(path)?;
+    wasmparser::validate(&buf)?;
+    parse_buffer(module, &buf)
+}
+
+fn read_file(path: &str) -> Result<Vec<u8>, std::io::Error> {
+    let mut buf = Vec::new();
+    let mut file = File::open(path)?;
+    file.read_to_end(&mut buf)?;
+    Ok(buf)
+}
+
+fn parse_buffer(mut module: &mut Module, buf: &[u8]) -> Result<(), Box<dyn std::error::Error>> {
     let mut current_func_index = module.num_imported_funcs;
     let mut arity_cache = BlockArityCache::new();
 
-    let mut buf = Vec::new();
     let parser = Parser::new(0);
 
-    let mut file = File::open(path)?;
-    file.read_to_end(&mut buf)?;
-    module.fingerprint = fnv1a(&buf);
+    module.fingerprint = fnv1a(buf);
 
-    for payload in parser.parse_all(&buf) {
+    for payload in parser.parse_all(buf) {
         match payload? {
             Version {
                 num,
-- 
2.43.0


From 40bc140586d9e6de68c480fc9ec5b1c19aec407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 31/41] fix: a run which fails does not report success (exit
 status)

---
 src/main.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b432568..06817d0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -193,7 +193,7 @@ fn main() -> Result<()> {
         println!("Runtime reconstructed. Resuming execution...");
 
         let result = runtime.run();
-        handle_result(result);
+        handle_result(result)
     } else {
         Runtime::run_start(&inst)
             .map_err(|e| anyhow::anyhow!("Start function failed: {:?}", e))?;
@@ -211,29 +211,25 @@ fn main() -> Result<()> {
         ) {
             Ok(mut runtime) => {
                 let result = runtime.run();
-                handle_result(result);
-            }
-            Err(e) => {
-                eprintln!("Runtime initialization failed: {:?}", e);
+                handle_result(result)
             }
+            Err(e) => Err(anyhow::anyhow!("Runtime initialization failed: {:?}", e)),
         }
     }
-
-    Ok(())
 }
 
-fn handle_result(result: Result<Vec<Val>, chiwawa::error::RuntimeError>) {
+fn handle_result(result: Result<Vec<Val>, chiwawa::error::RuntimeError>) -> Result<()> {
     match result {
         Ok(mut values) => {
             if let Some(val) = values.pop() {
                 println!("Result: {:?}", val);
             }
+            Ok(())
         }
         Err(chiwawa::error::RuntimeError::CheckpointRequested) => {
             println!("Execution stopped for checkpoint.");
+            Ok(())
         }
-        Err(e) => {
-            eprintln!("Execution Error: {:?}", e);
-        }
+        Err(e) => Err(anyhow::anyhow!("Execution Error: {:?}", e)),
     }
 }
-- 
2.43.0


From fadb3c3956213ab53c12fbb8b19c6fb639f75627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 32/41] fix: a function is not invoked with arguments of other
 types than its parameters

---
 src/execution/state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/execution/state.rs b/src/execution/state.rs
index f86b752..4bf0ee6 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -155,6 +155,14 @@ impl VMState {
                 if params.len() != type_.params.len() {
                     return Err(RuntimeError::InvalidParameterCount);
                 }
+                // A null reference belongs to every reference type.
+                let well_typed = params.iter().zip(&type_.params).all(|(v, t)| match (v, t) {
+                    (Val::Ref(Ref::RefNull), ValueType::RefType(_)) => true,
+                    _ => v.val_type() == *t,
+                });
+                if !well_typed {
+                    return Err(RuntimeError::TypeMismatch);
+                }
 
                 let mut locals = params;
                 for v in code.locals.iter() {
-- 
2.43.0


From b362325f8190ae4e6122f2a8d77956202a012efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 33/41] fix: --stats counts and --trace reports the executed
 instructions again

---
 src/execution/dispatch_loop.rs |  2 ++
 src/execution/dispatch_tco.rs  |  2 ++
 src/execution/handlers.rs      |  2 ++
 src/execution/runtime.rs       | 12 ++++++++++++
 src/execution/state.rs         | 36 ++++++++++++++++++++++++++++++++++
 5 files changed, 54 insertions(+)

diff --git a/src/execution/dispatch_loop.rs b/src/execution/dispatch_loop.rs
index 32205a4..25fae75 100644
--- a/src/execution/dispatch_loop.rs
+++ b/src/execution/dispatch_loop.rs
@@ -43,6 +43,8 @@ pub fn execute_instructions(state: &mut VmState) -> Outcome {
             }
         }
 
+        #[cfg(any(feature = "stats", feature = "trace"))]
+        state.observe();
         let h = unsafe { *state.handlers.add(state.pc) };
         match h(state) {
             Outcome::Continue => continue,
diff --git a/src/execution/dispatch_tco.rs b/src/execution/dispatch_tco.rs
index 1937945..0e77bf0 100644
--- a/src/execution/dispatch_tco.rs
+++ b/src/execution/dispatch_tco.rs
@@ -27,6 +27,8 @@ pub fn execute_instructions(state: &mut VmState) -> Outcome {
     if state.pc >= state.instrs_len {
         return Outcome::Halt;
     }
+    #[cfg(any(feature = "stats", feature = "trace"))]
+    state.observe();
     let h = unsafe { *state.handlers.add(state.pc) };
     h(state)
 }
diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 10dd7c3..eab6053 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -347,6 +347,8 @@ pub unsafe fn next_handler(state: &mut VmState) -> Handler {
     if crate::execution::migration::poll_checkpoint(state) {
         checkpoint_trap
     } else {
+        #[cfg(any(feature = "stats", feature = "trace"))]
+        state.observe();
         *state.handlers.add(state.pc)
     }
 }
diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index f2cf09a..5cd79a9 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -195,6 +195,18 @@ impl Runtime {
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
             checkpoint_poll_counter: self.checkpoint_poll_counter,
+            #[cfg(feature = "stats")]
+            stats: match &mut self.execution_stats {
+                Some(stats) => stats,
+                None => std::ptr::null_mut(),
+            },
+            #[cfg(feature = "trace")]
+            tracer: match &mut self.tracer {
+                Some(tracer) => tracer,
+                None => std::ptr::null_mut(),
+            },
+            #[cfg(feature = "trace")]
+            locals_len: frame_stack.frame.locals.len(),
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
diff --git a/src/execution/state.rs b/src/execution/state.rs
index 4bf0ee6..5030260 100644
--- a/src/execution/state.rs
+++ b/src/execution/state.rs
@@ -12,6 +12,10 @@ use crate::execution::ir::{Handler, ProcessedInstr};
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::regs::{Reg, RegFile};
+#[cfg(feature = "stats")]
+use crate::execution::stats::ExecutionStats;
+#[cfg(feature = "trace")]
+use crate::execution::trace::Tracer;
 use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
@@ -53,6 +57,14 @@ pub struct VmState {
     /// Counter for non-atomics-target checkpoint poll throttling.
     /// Incremented by `migration::poll_checkpoint`
     pub checkpoint_poll_counter: u32,
+
+    // Observers of executed instructions (null when switched off)
+    #[cfg(feature = "stats")]
+    pub stats: *mut ExecutionStats,
+    #[cfg(feature = "trace")]
+    pub tracer: *mut Tracer,
+    #[cfg(feature = "trace")]
+    pub locals_len: usize,
 }
 
 impl VmState {
@@ -62,6 +74,30 @@ impl VmState {
         unsafe { &*self.instrs.add(self.pc) }
     }
 
+    /// Reports the instruction about to be executed at `pc` to the observers.
+    #[cfg(any(feature = "stats", feature = "trace"))]
+    pub fn observe(&mut self) {
+        if self.pc >= self.instrs_len {
+            return;
+        }
+        let handler_index = self.current_instr().handler_index();
+        #[cfg(feature = "stats")]
+        if let Some(stats) = unsafe { self.stats.as_mut() } {
+            stats.record_instruction(handler_index);
+        }
+        #[cfg(feature = "trace")]
+        if let Some(tracer) = unsafe { self.tracer.as_mut() } {
+            let locals = unsafe { std::slice::from_raw_parts(self.locals, self.locals_len) };
+            tracer.trace_instruction(
+                self.pc,
+                handler_index,
+                self.reg_file(),
+                locals,
+                &self.module().global_addrs,
+            );
+        }
+    }
+
     /// Handler function pointer at the given `pc`.
     #[inline(always)]
     pub fn handler_at(&self, pc: usize) -> Handler {
-- 
2.43.0


From f180f00d08185f5b0c6f9f9b5c8ad72f4e71675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 34/41] fix: an unrecognised parameter is refused instead of
 ignored

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 06817d0..f09b80b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -123,6 +123,8 @@ fn parse_params(params: Vec<String>) -> Vec<Val> {
             parsed.push(Val::Num(Num::F64(
                 captures.as_str().parse::<f64>().unwrap(),
             )));
+        } else if !param.is_empty() {
+            panic!("Unrecognised parameter: {:?}", param);
         }
     }
     return parsed;
-- 
2.43.0


From 4326de025181755b9803fc1081d09f7328620f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 35/41] fix: data.drop has a name in statistics and traces

---
 src/execution/stats.rs | 1 +
 src/execution/trace.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 76a531e..4437f66 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -97,6 +97,7 @@ impl ExecutionStats {
             HANDLER_IDX_MEMORY_COPY => "memory.copy",
             HANDLER_IDX_MEMORY_INIT => "memory.init",
             HANDLER_IDX_MEMORY_FILL => "memory.fill",
+            HANDLER_IDX_DATA_DROP => "data.drop",
 
             // Const Instructions
             HANDLER_IDX_I32_CONST => "i32.const",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index fdc0328..a2b3062 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -370,6 +370,7 @@ impl Tracer {
             HANDLER_IDX_MEMORY_COPY => "memory.copy",
             HANDLER_IDX_MEMORY_INIT => "memory.init",
             HANDLER_IDX_MEMORY_FILL => "memory.fill",
+            HANDLER_IDX_DATA_DROP => "data.drop",
 
             // Const Instructions
             HANDLER_IDX_I32_CONST => "i32.const",
-- 
2.43.0


From 220f58fd0a8a16bb1bf9ad2b86159eec6204b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 36/41] fix: a function imported from another instance runs in
 that instance

---
 src/execution/runtime.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 5cd79a9..6c4db29 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -148,6 +148,16 @@ impl Runtime {
         }
     }
 
+    /// The instance whose function a frame runs: not the one called from outside, when
+    /// that function was imported from another instance.
+    fn frame_module(&self, frame_stack_idx: usize) -> Rc<ModuleInst> {
+        self.stacks
+            .activation_frame_stack
+            .get(frame_stack_idx)
+            .and_then(|frame_stack| frame_stack.frame.module.upgrade())
+            .unwrap_or_else(|| Rc::clone(&self.module_inst))
+    }
+
     /// Executes interpreter loop for a specific frame stack via the v2
     /// dispatcher (`dispatch::execute_instructions`). Constructs a `VmState`,
     /// runs dispatch, writes back state, and translates `Outcome` into the
@@ -157,7 +167,8 @@ impl Runtime {
         frame_stack_idx: usize,
         _called_func_addr: &mut Option<FuncAddr>,
     ) -> Result<Result<Option<ModuleLevelInstr>, RuntimeError>, RuntimeError> {
-        let module_ptr: *const ModuleInst = Rc::as_ptr(&self.module_inst);
+        let module = self.frame_module(frame_stack_idx);
+        let module_ptr: *const ModuleInst = Rc::as_ptr(&module);
         let reg_file_ptr: *mut RegFile = &mut self.stacks.reg_file as *mut RegFile;
         let frame_stack = &mut self.stacks.activation_frame_stack[frame_stack_idx];
 
@@ -496,15 +507,13 @@ impl Runtime {
         func_type: &WasiFuncType,
         params: &[Val],
     ) -> WasiResult<Option<Val>> {
-        let wasi_impl = self
-            .module_inst
-            .wasi_impl
-            .as_ref()
-            .ok_or(WasiError::NoSys)?;
+        // The caller's memory is meant by pointers, whichever instance it belongs to
+        let module = self.frame_module(self.stacks.activation_frame_stack.len().saturating_sub(1));
+        let wasi_impl = module.wasi_impl.as_ref().ok_or(WasiError::NoSys)?;
 
         // Get memory address for WASI functions that need it
         let no_memory;
-        let memory = match self.module_inst.mem_addrs.first() {
+        let memory = match module.mem_addrs.first() {
             Some(memory) => memory,
             None => {
                 no_memory = MemAddr::new(&MemType(Limits { min: 0, max: None }));
-- 
2.43.0


From 12fac4d27ff078e15bef6d9bb825c930f4d48915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 37/41] fix: every tco handler continues with a tail call, so
 long loops do not use up the host stack

---
 src/execution/handlers.rs | 300 ++++++++++++++++++++++++++------------
 1 file changed, 203 insertions(+), 97 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index eab6053..2ee674a 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -319,6 +319,44 @@ macro_rules! advance {
     }};
 }
 
+/// `advance!` if `$ok`, else ends the chain: the error is in `state.trap`. Both go
+/// through the same call, because a handler that can also return without it is
+/// compiled to an ordinary call, which leaves a frame on the host stack every time.
+#[cfg(feature = "tco")]
+macro_rules! advance_or_trap {
+    ($state:expr, $ok:expr) => {{
+        let h: Handler = if $ok {
+            unsafe { crate::execution::handlers::next_handler($state) }
+        } else {
+            trap
+        };
+        h($state)
+    }};
+}
+
+#[cfg(not(feature = "tco"))]
+macro_rules! advance_or_trap {
+    ($state:expr, $ok:expr) => {{
+        if $ok {
+            Outcome::Continue
+        } else {
+            trap($state)
+        }
+    }};
+}
+
+/// Defines handler `$name` from `$step`, which does the work out of line and returns
+/// `false` after setting `state.trap`. Values with destructors (references, `Rc`s)
+/// are dropped in there: nothing may be left to do after the handler's tail call.
+macro_rules! stepped {
+    ($name:ident, $step:ident) => {
+        pub fn $name(state: &mut VmState) -> Outcome {
+            let ok = $step(state);
+            advance_or_trap!(state, ok)
+        }
+    };
+}
+
 // ============================================================================
 // Sentinel handlers — chain terminators
 // ============================================================================
@@ -1150,18 +1188,19 @@ macro_rules! conv_trap {
                 _ => unsafe { std::hint::unreachable_unchecked() },
             };
             let v = operand::$read(state, &src);
-            if v.is_nan() {
-                state.trap = Some(RuntimeError::InvalidConversionToInt);
-                return trap(state);
-            }
             let t = v.trunc();
-            if t < $min || t >= $limit {
+            let ok = if v.is_nan() {
+                state.trap = Some(RuntimeError::InvalidConversionToInt);
+                false
+            } else if t < $min || t >= $limit {
                 state.trap = Some(RuntimeError::IntegerOverflow);
-                return trap(state);
-            }
-            operand::$write(state, &dst, $cast(t));
-            state.pc += 1;
-            advance!(state)
+                false
+            } else {
+                operand::$write(state, &dst, $cast(t));
+                state.pc += 1;
+                true
+            };
+            advance_or_trap!(state, ok)
         }
     };
 }
@@ -1210,18 +1249,19 @@ pub fn conv_i64_trunc_f32_s(state: &mut VmState) -> Outcome {
         _ => unsafe { std::hint::unreachable_unchecked() },
     };
     let v = operand::read_reg_f32(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
     let t = v.trunc();
-    if t < (i64::MIN as f32) || t >= (i64::MAX as f32) {
+    let ok = if v.is_nan() {
+        state.trap = Some(RuntimeError::InvalidConversionToInt);
+        false
+    } else if t < (i64::MIN as f32) || t >= (i64::MAX as f32) {
         state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
-    }
-    operand::write_dst_i64(state, &dst, t as i64);
-    state.pc += 1;
-    advance!(state)
+        false
+    } else {
+        operand::write_dst_i64(state, &dst, t as i64);
+        state.pc += 1;
+        true
+    };
+    advance_or_trap!(state, ok)
 }
 pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
@@ -1229,18 +1269,19 @@ pub fn conv_i64_trunc_f32_u(state: &mut VmState) -> Outcome {
         _ => unsafe { std::hint::unreachable_unchecked() },
     };
     let v = operand::read_reg_f32(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
     let t = v.trunc();
-    if t < 0.0 || t >= (u64::MAX as f32) {
+    let ok = if v.is_nan() {
+        state.trap = Some(RuntimeError::InvalidConversionToInt);
+        false
+    } else if t < 0.0 || t >= (u64::MAX as f32) {
         state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
-    }
-    operand::write_dst_i64(state, &dst, (t as u64) as i64);
-    state.pc += 1;
-    advance!(state)
+        false
+    } else {
+        operand::write_dst_i64(state, &dst, (t as u64) as i64);
+        state.pc += 1;
+        true
+    };
+    advance_or_trap!(state, ok)
 }
 pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
@@ -1248,18 +1289,19 @@ pub fn conv_i64_trunc_f64_s(state: &mut VmState) -> Outcome {
         _ => unsafe { std::hint::unreachable_unchecked() },
     };
     let v = operand::read_reg_f64(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
     let t = v.trunc();
-    if t < (i64::MIN as f64) || t >= (i64::MAX as f64) {
+    let ok = if v.is_nan() {
+        state.trap = Some(RuntimeError::InvalidConversionToInt);
+        false
+    } else if t < (i64::MIN as f64) || t >= (i64::MAX as f64) {
         state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
-    }
-    operand::write_dst_i64(state, &dst, t as i64);
-    state.pc += 1;
-    advance!(state)
+        false
+    } else {
+        operand::write_dst_i64(state, &dst, t as i64);
+        state.pc += 1;
+        true
+    };
+    advance_or_trap!(state, ok)
 }
 pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
     let (src, dst) = match state.current_instr() {
@@ -1267,18 +1309,19 @@ pub fn conv_i64_trunc_f64_u(state: &mut VmState) -> Outcome {
         _ => unsafe { std::hint::unreachable_unchecked() },
     };
     let v = operand::read_reg_f64(state, &src);
-    if v.is_nan() {
-        state.trap = Some(RuntimeError::InvalidConversionToInt);
-        return trap(state);
-    }
     let t = v.trunc();
-    if t < 0.0 || t >= (u64::MAX as f64) {
+    let ok = if v.is_nan() {
+        state.trap = Some(RuntimeError::InvalidConversionToInt);
+        false
+    } else if t < 0.0 || t >= (u64::MAX as f64) {
         state.trap = Some(RuntimeError::IntegerOverflow);
-        return trap(state);
-    }
-    operand::write_dst_i64(state, &dst, (t as u64) as i64);
-    state.pc += 1;
-    advance!(state)
+        false
+    } else {
+        operand::write_dst_i64(state, &dst, (t as u64) as i64);
+        state.pc += 1;
+        true
+    };
+    advance_or_trap!(state, ok)
 }
 
 // ============================================================================
@@ -1753,8 +1796,9 @@ pub fn r#return(state: &mut VmState) -> Outcome {
 // ============================================================================
 
 macro_rules! global_get {
-    ($name:ident, $to:ident, $write:ident, $variant:ident) => {
-        pub fn $name(state: &mut VmState) -> Outcome {
+    ($name:ident, $step:ident, $to:ident, $write:ident, $variant:ident) => {
+        #[inline(never)]
+        fn $step(state: &mut VmState) -> bool {
             let (dst, global_index) = match state.current_instr() {
                 ProcessedInstr::GlobalGetReg {
                     dst, global_index, ..
@@ -1770,19 +1814,46 @@ macro_rules! global_get {
             let v = val.$to().unwrap_or(Default::default());
             operand::$write(state, &dst, v);
             state.pc += 1;
-            advance!(state)
+            true
         }
+
+        stepped!($name, $step);
     };
 }
 
-global_get!(global_get_i32, to_i32, write_dst_i32, I32);
-global_get!(global_get_i64, to_i64, write_dst_i64, I64);
-global_get!(global_get_f32, to_f32, write_dst_f32, F32);
-global_get!(global_get_f64, to_f64, write_dst_f64, F64);
+global_get!(
+    global_get_i32,
+    global_get_i32_step,
+    to_i32,
+    write_dst_i32,
+    I32
+);
+global_get!(
+    global_get_i64,
+    global_get_i64_step,
+    to_i64,
+    write_dst_i64,
+    I64
+);
+global_get!(
+    global_get_f32,
+    global_get_f32_step,
+    to_f32,
+    write_dst_f32,
+    F32
+);
+global_get!(
+    global_get_f64,
+    global_get_f64_step,
+    to_f64,
+    write_dst_f64,
+    F64
+);
 
 macro_rules! global_set {
-    ($name:ident, $get:ident, $variant:ident) => {
-        pub fn $name(state: &mut VmState) -> Outcome {
+    ($name:ident, $step:ident, $get:ident, $variant:ident) => {
+        #[inline(never)]
+        fn $step(state: &mut VmState) -> bool {
             let (src, global_index) = match state.current_instr() {
                 ProcessedInstr::GlobalSetReg {
                     src, global_index, ..
@@ -1803,18 +1874,20 @@ macro_rules! global_set {
                 .clone();
             if let Err(e) = global_addr.set(Val::Num(crate::execution::value::Num::$variant(v))) {
                 state.trap = Some(e);
-                return trap(state);
+                return false;
             }
             state.pc += 1;
-            advance!(state)
+            true
         }
+
+        stepped!($name, $step);
     };
 }
 
-global_set!(global_set_i32, get_i32, I32);
-global_set!(global_set_i64, get_i64, I64);
-global_set!(global_set_f32, get_f32, F32);
-global_set!(global_set_f64, get_f64, F64);
+global_set!(global_set_i32, global_set_i32_step, get_i32, I32);
+global_set!(global_set_i64, global_set_i64_step, get_i64, I64);
+global_set!(global_set_f32, global_set_f32_step, get_f32, F32);
+global_set!(global_set_f64, global_set_f64_step, get_f64, F64);
 
 // ============================================================================
 // DataDrop
@@ -1837,7 +1910,8 @@ pub fn data_drop(state: &mut VmState) -> Outcome {
 // Ref local.get / local.set
 // ============================================================================
 
-pub fn ref_local_get(state: &mut VmState) -> Outcome {
+#[inline(never)]
+fn ref_local_get_step(state: &mut VmState) -> bool {
     let (dst, local_idx) = match state.current_instr() {
         ProcessedInstr::RefLocalReg { dst, local_idx, .. } => (*dst, *local_idx as usize),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1850,10 +1924,13 @@ pub fn ref_local_get(state: &mut VmState) -> Outcome {
         state.reg_file_mut().set_ref(dst, r);
     }
     state.pc += 1;
-    advance!(state)
+    true
 }
 
-pub fn ref_local_set(state: &mut VmState) -> Outcome {
+stepped!(ref_local_get, ref_local_get_step);
+
+#[inline(never)]
+fn ref_local_set_step(state: &mut VmState) -> bool {
     let (src, local_idx) = match state.current_instr() {
         ProcessedInstr::RefLocalReg { src, local_idx, .. } => (*src, *local_idx as usize),
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1861,9 +1938,11 @@ pub fn ref_local_set(state: &mut VmState) -> Outcome {
     let ref_val = state.reg_file().get_ref(src);
     *state.local_mut(local_idx) = Val::Ref(ref_val);
     state.pc += 1;
-    advance!(state)
+    true
 }
 
+stepped!(ref_local_set, ref_local_set_step);
+
 // ============================================================================
 // Table / ref ops (ref.null / ref.is_null / table.get / table.set / table.fill)
 // ============================================================================
@@ -1880,7 +1959,8 @@ pub fn ref_null(state: &mut VmState) -> Outcome {
     advance!(state)
 }
 
-pub fn ref_is_null(state: &mut VmState) -> Outcome {
+#[inline(never)]
+fn ref_is_null_step(state: &mut VmState) -> bool {
     let regs = match state.current_instr() {
         ProcessedInstr::TableRefReg { regs, .. } => *regs,
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1890,10 +1970,13 @@ pub fn ref_is_null(state: &mut VmState) -> Outcome {
     let is_null = matches!(ref_val, crate::execution::value::Ref::RefNull) as i32;
     rf.set_i32(regs[0], is_null);
     state.pc += 1;
-    advance!(state)
+    true
 }
 
-pub fn table_get(state: &mut VmState) -> Outcome {
+stepped!(ref_is_null, ref_is_null_step);
+
+#[inline(never)]
+fn table_get_step(state: &mut VmState) -> bool {
     let (table_idx, regs) = match state.current_instr() {
         ProcessedInstr::TableRefReg {
             table_idx, regs, ..
@@ -1904,7 +1987,7 @@ pub fn table_get(state: &mut VmState) -> Outcome {
         Some(t) => t.clone(),
         None => {
             state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
+            return false;
         }
     };
     let index = state.reg_file().get_i32(regs[1]) as usize;
@@ -1913,16 +1996,19 @@ pub fn table_get(state: &mut VmState) -> Outcome {
         Val::Ref(r) => {
             state.reg_file_mut().set_ref(regs[0], r);
             state.pc += 1;
-            advance!(state)
+            true
         }
         _ => {
             state.trap = Some(RuntimeError::TypeMismatch);
-            trap(state)
+            false
         }
     }
 }
 
-pub fn table_set(state: &mut VmState) -> Outcome {
+stepped!(table_get, table_get_step);
+
+#[inline(never)]
+fn table_set_step(state: &mut VmState) -> bool {
     let (table_idx, regs) = match state.current_instr() {
         ProcessedInstr::TableRefReg {
             table_idx, regs, ..
@@ -1933,7 +2019,7 @@ pub fn table_set(state: &mut VmState) -> Outcome {
         Some(t) => t.clone(),
         None => {
             state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
+            return false;
         }
     };
     let rf = state.reg_file();
@@ -1941,10 +2027,13 @@ pub fn table_set(state: &mut VmState) -> Outcome {
     let ref_val = rf.get_ref(regs[1]);
     table_addr.set(index, Val::Ref(ref_val));
     state.pc += 1;
-    advance!(state)
+    true
 }
 
-pub fn table_fill(state: &mut VmState) -> Outcome {
+stepped!(table_set, table_set_step);
+
+#[inline(never)]
+fn table_fill_step(state: &mut VmState) -> bool {
     let (table_idx, regs) = match state.current_instr() {
         ProcessedInstr::TableRefReg {
             table_idx, regs, ..
@@ -1955,7 +2044,7 @@ pub fn table_fill(state: &mut VmState) -> Outcome {
         Some(t) => t.clone(),
         None => {
             state.trap = Some(RuntimeError::TableNotFound);
-            return trap(state);
+            return false;
         }
     };
     let rf = state.reg_file();
@@ -1964,14 +2053,17 @@ pub fn table_fill(state: &mut VmState) -> Outcome {
     let n = rf.get_i32(regs[2]) as usize;
     table_addr.fill(i, Val::Ref(ref_val), n);
     state.pc += 1;
-    advance!(state)
+    true
 }
 
+stepped!(table_fill, table_fill_step);
+
 // ============================================================================
 // Memory ops (memory.size / grow / copy / init / fill)
 // ============================================================================
 
-pub fn mem_size(state: &mut VmState) -> Outcome {
+#[inline(never)]
+fn mem_size_step(state: &mut VmState) -> bool {
     let dst = match state.current_instr() {
         ProcessedInstr::MemoryOpsReg { dst, .. } => *dst,
         _ => unsafe { std::hint::unreachable_unchecked() },
@@ -1980,7 +2072,7 @@ pub fn mem_size(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return false;
         }
     };
     let size = mem_addr.mem_size();
@@ -1988,10 +2080,13 @@ pub fn mem_size(state: &mut VmState) -> Outcome {
         state.reg_file_mut().set_i32(d.index(), size);
     }
     state.pc += 1;
-    advance!(state)
+    true
 }
 
-pub fn mem_grow(state: &mut VmState) -> Outcome {
+stepped!(mem_size, mem_size_step);
+
+#[inline(never)]
+fn mem_grow_step(state: &mut VmState) -> bool {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg { dst, args, .. } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
@@ -2000,7 +2095,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return false;
         }
     };
     let delta = state.reg_file().get_i32(args[0].index());
@@ -2010,10 +2105,13 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
     }
     state.mem_ptr = mem_addr.data_ptr();
     state.pc += 1;
-    advance!(state)
+    true
 }
 
-pub fn mem_copy(state: &mut VmState) -> Outcome {
+stepped!(mem_grow, mem_grow_step);
+
+#[inline(never)]
+fn mem_copy_step(state: &mut VmState) -> bool {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
@@ -2022,7 +2120,7 @@ pub fn mem_copy(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return false;
         }
     };
     let regs = state.reg_file();
@@ -2031,10 +2129,13 @@ pub fn mem_copy(state: &mut VmState) -> Outcome {
     let len = regs.get_i32(args[2].index());
     mem_addr.memory_copy(dest, src, len);
     state.pc += 1;
-    advance!(state)
+    true
 }
 
-pub fn mem_init(state: &mut VmState) -> Outcome {
+stepped!(mem_copy, mem_copy_step);
+
+#[inline(never)]
+fn mem_init_step(state: &mut VmState) -> bool {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg {
         args, data_index, ..
@@ -2047,12 +2148,12 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return false;
         }
     };
     if (*data_index as usize) >= module_inst.data_addrs.len() {
         state.trap = Some(RuntimeError::InvalidDataSegmentIndex);
-        return trap(state);
+        return false;
     }
     let data_bytes = module_inst.data_addrs[*data_index as usize].get_data();
     let regs = state.reg_file();
@@ -2062,10 +2163,13 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
     // Both ranges are checked even when empty: out of bounds panics into a host trap.
     mem_addr.init(dest, &data_bytes[offset..offset + len]);
     state.pc += 1;
-    advance!(state)
+    true
 }
 
-pub fn mem_fill(state: &mut VmState) -> Outcome {
+stepped!(mem_init, mem_init_step);
+
+#[inline(never)]
+fn mem_fill_step(state: &mut VmState) -> bool {
     let instr = unsafe { &*state.instrs.add(state.pc) };
     let ProcessedInstr::MemoryOpsReg { args, .. } = instr else {
         unsafe { std::hint::unreachable_unchecked() }
@@ -2074,7 +2178,7 @@ pub fn mem_fill(state: &mut VmState) -> Outcome {
         Some(m) => m.clone(),
         None => {
             state.trap = Some(RuntimeError::MemoryNotFound);
-            return trap(state);
+            return false;
         }
     };
     let regs = state.reg_file();
@@ -2083,9 +2187,11 @@ pub fn mem_fill(state: &mut VmState) -> Outcome {
     let size = regs.get_i32(args[2].index());
     mem_addr.memory_fill(dest, val, size);
     state.pc += 1;
-    advance!(state)
+    true
 }
 
+stepped!(mem_fill, mem_fill_step);
+
 // ============================================================================
 // select_handler — map ProcessedInstr → Handler
 // ============================================================================
-- 
2.43.0


From de72ab869ec2553d209750e8f27e5d5712a072f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:27 +0000
Subject: [PATCH 38/41] fix: a function with more registers than can be
 addressed is refused at load

---
 src/execution/regs.rs | 16 ++++++++++++++++
 src/parser.rs         |  5 +++++
 2 files changed, 21 insertions(+)

diff --git a/src/execution/regs.rs b/src/execution/regs.rs
index 9887a7d..4e9aa7e 100644
--- a/src/execution/regs.rs
+++ b/src/execution/regs.rs
@@ -416,6 +416,22 @@ pub struct RegAllocation {
     pub v128_count: usize,
 }
 
+impl RegAllocation {
+    /// Whether every register has an index: instructions hold them as `u16`.
+    pub fn is_addressable(&self) -> bool {
+        [
+            self.i32_count,
+            self.i64_count,
+            self.f32_count,
+            self.f64_count,
+            self.ref_count,
+            self.v128_count,
+        ]
+        .iter()
+        .all(|count| *count <= u16::MAX as usize + 1)
+    }
+}
+
 /// Register allocator - tracks stack depth to assign virtual registers
 pub struct RegAllocator {
     // Current stack depth per type
diff --git a/src/parser.rs b/src/parser.rs
index 132f670..d095ea3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7353,6 +7353,11 @@ fn decode_processed_instrs_and_fixups<'a>(
 
     // Finalize register allocation if in register mode
     let reg_allocation = reg_allocator.map(|alloc| alloc.finalize());
+    if reg_allocation.as_ref().is_some_and(|a| !a.is_addressable()) {
+        return Err(Box::new(RuntimeError::InvalidWasm(
+            "Function needs more registers than can be addressed",
+        )) as Box<dyn std::error::Error>);
+    }
 
     Ok((
         initial_processed_instrs,
-- 
2.43.0


From 83b6b647942e427632d1646bbccd5e358ca5c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:19 +0000
Subject: [PATCH 39/41] fix: a WASI function imported with another type is
 refused

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d095ea3..871b439 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -915,7 +915,11 @@ fn decode_import_section(
         let desc = match import.ty {
             TypeRef::Func(type_index) => {
                 if import.module == "wasi_snapshot_preview1" {
-                    if let Some(wasi_func_type) = parse_wasi_function(&import.name) {
+                    // With another type it is not the WASI function, and cannot be linked.
+                    let declared = module.types.get(type_index as usize);
+                    let wasi_func_type = parse_wasi_function(&import.name)
+                        .filter(|f| declared.is_some_and(|t| t.type_match(&f.expected_func_type())));
+                    if let Some(wasi_func_type) = wasi_func_type {
                         module.num_imported_funcs += 1;
                         ImportDesc::WasiFunc(wasi_func_type)
                     } else {
-- 
2.43.0


From 30393a57f0b5dbf0aabadf2405380e750569dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 40/41] fix: a module with several memories is refused instead
 of using the first for all

---
 src/execution/module.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index c2e49b8..ff16508 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -58,6 +58,13 @@ impl ModuleInst {
         imports: ImportObjects,
         argv: Vec<String>,
     ) -> Result<Rc<ModuleInst>, RuntimeError> {
+        // Every memory instruction is taken to mean memory 0
+        if module.mems.len() > 1 {
+            return Err(RuntimeError::InvalidWasm(
+                "Multiple memories are not supported",
+            ));
+        }
+
         let mut module_inst = ModuleInst {
             types: module.types.clone(),
             func_addrs: Vec::new(),
-- 
2.43.0


From 41c8ccc98600b4db5210dccc6efba28c7ba45e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:24 +0000
Subject: [PATCH 41/41] fix: a parameter with anything around its type and
 value is refused

---
 src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f09b80b..9337d6e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -81,11 +81,13 @@ fn parse_args_string(args: &str) -> Vec<String> {
 
 fn parse_params(params: Vec<String>) -> Vec<Val> {
     let mut parsed: Vec<Val> = Vec::new();
-    let re = Regex::new(r"(?<=\().*(?=\))").unwrap();
+    // The whole parameter is a type and a value in parentheses
+    let re = Regex::new(r"(?<=^[IF]\d\d\().*(?=\)$)").unwrap();
     for param in params {
+        let param = param.trim();
         if param.contains("I32") {
             let captures = re
-                .captures(&param)
+                .captures(param)
                 .expect("Error running regex")
                 .expect("No match found")
                 .get(0)
@@ -95,7 +97,7 @@ fn parse_params(params: Vec<String>) -> Vec<Val> {
             )));
         } else if param.contains("I64") {
             let captures = re
-                .captures(&param)
+                .captures(param)
                 .expect("Error running regex")
                 .expect("No match found")
                 .get(0)
@@ -105,7 +107,7 @@ fn parse_params(params: Vec<String>) -> Vec<Val> {
             )));
         } else if param.contains("F32") {
             let captures = re
-                .captures(&param)
+                .captures(param)
                 .expect("Error running regex")
                 .expect("No match found")
                 .get(0)
@@ -115,7 +117,7 @@ fn parse_params(params: Vec<String>) -> Vec<Val> {
             )));
         } else if param.contains("F64") {
             let captures = re
-                .captures(&param)
+                .captures(param)
                 .expect("Error running regex")
                 .expect("No match found")
                 .get(0)
-- 
2.43.0

