From 7884e893eb5e15f885c4208b967766b19458c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:14 +0000
Subject: [PATCH 01/35] fix: global DCE qualifies functions of nested modules
 by sym_name

Nested core.module ops carry their name in sym_name; reading the
non-existent name attribute left their functions unqualified, so functions
referenced by their qualified symbol were removed as unreachable.
---
 crates/trunk-ir/src/transforms/global_dce.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/trunk-ir/src/transforms/global_dce.rs b/crates/trunk-ir/src/transforms/global_dce.rs
index 7f77398..ec4b285 100644
--- a/crates/trunk-ir/src/transforms/global_dce.rs
+++ b/crates/trunk-ir/src/transforms/global_dce.rs
@@ -73,7 +73,6 @@ struct Syms {
     callee: Symbol,
     func_ref: Symbol,
     func_attr: Symbol,
-    name_attr: Symbol,
     abi: Symbol,
     main: Symbol,
     start: Symbol,
@@ -95,7 +94,6 @@ impl Syms {
             callee: Symbol::new("callee"),
             func_ref: Symbol::new("func_ref"),
             func_attr: Symbol::new("func"),
-            name_attr: Symbol::new("name"),
             abi: Symbol::new("abi"),
             main: Symbol::new("main"),
             start: Symbol::new("_start"),
@@ -296,7 +294,7 @@ impl GlobalDcePass {
         op: OpRef,
         current_path: &[Symbol],
     ) -> Vec<Symbol> {
-        let nested_name = self.extract_symbol_attr(ctx, op, &self.syms.name_attr);
+        let nested_name = self.extract_symbol_attr(ctx, op, &self.syms.sym_name);
         if let Some(n) = nested_name {
             let mut p = current_path.to_vec();
             p.push(n);
-- 
2.43.0


From 89592ea4c729e40a56eb5308c03745e31aca640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:14 +0000
Subject: [PATCH 02/35] fix: inliner leaves calls alone when return and result
 arity differ

A core.nil function ending in an operand-less func.return, called with a
nil result, made the pattern inliner panic in erase_op and made
inline_single_call drop a result that may still be used.
---
 crates/trunk-ir/src/transforms/inline.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/trunk-ir/src/transforms/inline.rs b/crates/trunk-ir/src/transforms/inline.rs
index 793b211..6f269f1 100644
--- a/crates/trunk-ir/src/transforms/inline.rs
+++ b/crates/trunk-ir/src/transforms/inline.rs
@@ -44,6 +44,11 @@ pub enum InlineError {
         callee_params: usize,
         call_operands: usize,
     },
+    /// The call-site result count does not match the callee's `func.return`.
+    ResultArityMismatch {
+        call_results: usize,
+        return_operands: usize,
+    },
     /// The call op is not attached to a block (malformed state).
     CallOpDetached,
     /// The callee op is not a `func.func`.
@@ -159,6 +164,19 @@ fn splice_callee_body_before(
     if !func::Return::matches(ctx, *ret_op) {
         return Err(InlineError::CalleeHasNoReturn);
     }
+    // A `core.nil`-returning callee may end in an operand-less `func.return`
+    // while the call site still carries a nil result: there is no value to
+    // replace that result with, so leave the call alone.
+    if func::Call::matches(ctx, call_op) {
+        let call_results = ctx.op_results(call_op).len();
+        let return_operands = ctx.op_operands(*ret_op).len();
+        if call_results != return_operands {
+            return Err(InlineError::ResultArityMismatch {
+                call_results,
+                return_operands,
+            });
+        }
+    }
 
     // Mapping: callee params → call-site operands. External references in the
     // cloned body pass through via `lookup_value_or_default`.
-- 
2.43.0


From bef8452395b30e0b440b6ec89b941221a64e09d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:55 +0000
Subject: [PATCH 03/35] fix: IR parser does not take the next operation's
 results for operands

An operation without operands, attributes and results followed by
'%0 = ...' was read as having %0 as its operand.
---
 crates/trunk-ir/src/parser/raw.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index 64836ad..d17ddac 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -538,8 +538,9 @@ pub fn raw_operation<'a>(input: &mut &'a str) -> ModalResult<RawOperation<'a>> {
         } else if empty_parens.parse_next(input).is_ok() {
             // Empty parens: no params, no operands
         }
-    } else if input.starts_with('%') {
-        // Operand list
+    } else if input.starts_with('%') && result_list.parse_peek(*input).is_err() {
+        // Operand list. A `%0 =` here belongs to the next operation: this one
+        // has no operands at all.
         operands = opt(operand_list).parse_next(input)?.unwrap_or_default();
     }
 
-- 
2.43.0


From 51f65addc1f54192cc774eb4c63bbe1b44cd5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:55 +0000
Subject: [PATCH 04/35] fix: IR printer keeps the label of empty and
 self-branching blocks

A single empty block printed as a bare '{}', which reads back as an
attribute dictionary; a block branching to itself printed without the
label its branch names.
---
 crates/trunk-ir/src/printer.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 076eace..1d0a0e0 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -243,7 +243,10 @@ impl<'a, 'ctx> OpPrintHelper<'a, 'ctx> {
             self.state.assign_block_label(block);
         }
 
-        let is_single_block = blocks.len() == 1;
+        // An empty block keeps its label: a bare `{}` would read back as an
+        // attribute dictionary or as a region without blocks.
+        let is_single_block =
+            blocks.len() == 1 && !self.state.ctx.block(blocks[0]).ops.is_empty();
 
         for (i, &block) in blocks.iter().enumerate() {
             if i == 0 && is_single_block {
@@ -838,7 +841,18 @@ fn print_region(
         state.assign_block_label(block);
     }
 
-    let can_elide_label = blocks.len() == 1 && state.ctx.block_args(blocks[0]).is_empty();
+    // An empty block keeps its label: a bare `{}` would read back as an
+    // attribute dictionary or as a region without blocks. So does a block
+    // that branches to itself, or the branch would name an unknown label.
+    let can_elide_label = blocks.len() == 1
+        && state.ctx.block_args(blocks[0]).is_empty()
+        && !state.ctx.block(blocks[0]).ops.is_empty()
+        && state
+            .ctx
+            .block(blocks[0])
+            .ops
+            .iter()
+            .all(|&op| state.ctx.op(op).successors.is_empty());
 
     for (i, &block) in blocks.iter().enumerate() {
         if !can_elide_label {
-- 
2.43.0


From cf837533594602e375becca91b626b3a60af69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:43 +0000
Subject: [PATCH 05/35] fix: remap operands of cloned regions defined in later
 blocks

---
 crates/trunk-ir/src/context.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/trunk-ir/src/context.rs b/crates/trunk-ir/src/context.rs
index fc15b4b..b9c0b46 100644
--- a/crates/trunk-ir/src/context.rs
+++ b/crates/trunk-ir/src/context.rs
@@ -804,6 +804,12 @@ impl IrContext {
             }
         }
 
+        // Pass 3: a value may be used in a block laid out before the block
+        // that defines it, so those operands could not be remapped in pass 2.
+        for (&src_block, &new_block) in src_blocks.iter().zip(new_blocks.iter()) {
+            self.remap_forward_operands(src_block, new_block, mapping);
+        }
+
         self.create_region(RegionData {
             location: loc,
             blocks: new_blocks.into(),
@@ -811,6 +817,30 @@ impl IrContext {
         })
     }
 
+    /// Remap operands of a cloned block that were left pointing at a source
+    /// value because its defining operation was cloned later.
+    fn remap_forward_operands(&mut self, src: BlockRef, new: BlockRef, mapping: &IrMapping) {
+        let src_ops = self.blocks[src].ops.clone();
+        let new_ops = self.blocks[new].ops.clone();
+        for (src_op, new_op) in src_ops.into_iter().zip(new_ops) {
+            for index in 0..self.op_operands(src_op).len() {
+                let mapped = mapping.lookup_value_or_default(self.op_operands(src_op)[index]);
+                if self.op_operands(new_op)[index] != mapped {
+                    self.set_op_operand(new_op, index as u32, mapped);
+                }
+            }
+            let src_regions = self.ops[src_op].regions.clone();
+            let new_regions = self.ops[new_op].regions.clone();
+            for (src_region, new_region) in src_regions.into_iter().zip(new_regions) {
+                let src_blocks = self.regions[src_region].blocks.clone();
+                let new_blocks = self.regions[new_region].blocks.clone();
+                for (src_block, new_block) in src_blocks.into_iter().zip(new_blocks) {
+                    self.remap_forward_operands(src_block, new_block, mapping);
+                }
+            }
+        }
+    }
+
     /// Clone an operation and append it to a destination block.
     ///
     /// Convenience wrapper around [`clone_op`] + [`push_op`].
-- 
2.43.0


From 584c40e1f77934209b48f18188eb5bbae3c8ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:09 +0000
Subject: [PATCH 06/35] fix: nested pass managers skip targets erased by an
 earlier pass

---
 crates/trunk-ir/src/pass.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/pass.rs b/crates/trunk-ir/src/pass.rs
index 92fa180..d58b0fe 100644
--- a/crates/trunk-ir/src/pass.rs
+++ b/crates/trunk-ir/src/pass.rs
@@ -242,8 +242,9 @@ impl<T: DialectOp + 'static> NestedRunner for TypedNested<T> {
         let targets = collect_targets::<T>(ctx, parent_op);
         for target in targets {
             // Skip stale refs: a previous pass in this nested manager may
-            // have erased the op.
-            if !T::matches(ctx, target.op_ref()) {
+            // have erased the op. Erasing only detaches it, so its name
+            // alone does not tell.
+            if !T::matches(ctx, target.op_ref()) || !is_nested_in(ctx, target.op_ref(), parent_op) {
                 continue;
             }
             ensure_nested_anchor_is_isolated(ctx, target.op_ref())?;
@@ -270,6 +271,23 @@ fn target_still_alive<T: DialectOp>(ctx: &IrContext, op: OpRef, pre_attached: bo
     !pre_attached || ctx.op(op).parent_block.is_some()
 }
 
+/// Whether `op` is `root` or still attached somewhere below it.
+fn is_nested_in(ctx: &IrContext, op: OpRef, root: OpRef) -> bool {
+    let mut current = op;
+    while current != root {
+        let parent = ctx
+            .op(current)
+            .parent_block
+            .and_then(|block| ctx.block(block).parent_region)
+            .and_then(|region| ctx.region(region).parent_op);
+        let Some(parent) = parent else {
+            return false;
+        };
+        current = parent;
+    }
+    true
+}
+
 fn collect_targets<T: DialectOp>(ctx: &IrContext, root: OpRef) -> Vec<T> {
     let mut found = Vec::new();
     let _ = walk_op::<()>(ctx, root, &mut |op| {
-- 
2.43.0


From ec0e9091005578980b7a3cb25642ad84143a158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:33 +0000
Subject: [PATCH 07/35] fix: accessors of multi-result dialect operations did
 not compile

---
 crates/trunk-ir-macros/src/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/trunk-ir-macros/src/codegen.rs b/crates/trunk-ir-macros/src/codegen.rs
index f5f74c4..f4869a4 100644
--- a/crates/trunk-ir-macros/src/codegen.rs
+++ b/crates/trunk-ir-macros/src/codegen.rs
@@ -208,9 +208,10 @@ fn gen_result_accessors(crate_path: &TokenStream, results: &ResultDef) -> TokenS
                 .map(|(idx, name)| {
                     let name_ident = format_ident!("{name}");
                     let ty_name = format_ident!("{name}_ty");
+                    let result_idx = idx as u32;
                     quote! {
                         pub fn #name_ident(&self, ctx: &#crate_path::IrContext) -> #crate_path::ValueRef {
-                            ctx.op_result(self.0, #idx)
+                            ctx.op_result(self.0, #result_idx)
                         }
 
                         pub fn #ty_name(&self, ctx: &#crate_path::IrContext) -> #crate_path::TypeRef {
-- 
2.43.0


From f85c00c6a5f0e467ce4df5620c1633944123a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:50 +0000
Subject: [PATCH 08/35] fix: retry interrupted and partial writes in the print
 functions

---
 crates/tribute-runtime/src/lib.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/crates/tribute-runtime/src/lib.rs b/crates/tribute-runtime/src/lib.rs
index 1520e5b..a8c5fd7 100644
--- a/crates/tribute-runtime/src/lib.rs
+++ b/crates/tribute-runtime/src/lib.rs
@@ -141,10 +141,8 @@ unsafe extern "C" {
 pub extern "C" fn __tribute_print_int(value: i32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print an unsigned 32-bit integer to stdout, followed by a newline.
@@ -156,10 +154,8 @@ pub extern "C" fn __tribute_print_int(value: i32) {
 pub extern "C" fn __tribute_print_nat(value: u32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print a 64-bit float to stdout, followed by a newline.
@@ -171,10 +167,8 @@ pub extern "C" fn __tribute_print_nat(value: u32) {
 pub extern "C" fn __tribute_print_float(value: f64) {
     let mut buf = zmij::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print raw bytes to stdout (no newline appended).
@@ -197,9 +191,7 @@ pub unsafe extern "C" fn __tribute_print_bytes(ptr: *const u8, len: u64) {
     let Ok(len) = usize::try_from(len) else {
         return;
     };
-    unsafe {
-        write(1, ptr, len);
-    }
+    write_stdout_all(unsafe { core::slice::from_raw_parts(ptr, len) });
 }
 
 /// Print a newline character to stdout.
-- 
2.43.0


From 6af6f5a0f5a16356fd70691807b771f23a0bf45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:00 +0000
Subject: [PATCH 09/35] fix: adt.variant_is result has the converted boolean
 width in native lowering

---
 .../src/passes/adt_to_clif.rs                       | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
index 157e1c9..0abf5e2 100644
--- a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
+++ b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
@@ -223,7 +223,18 @@ impl RewritePattern for VariantIsPattern {
 
         rewriter.insert_op(tag_load.op_ref());
         rewriter.insert_op(expected.op_ref());
-        rewriter.replace_op(cmp_op.op_ref());
+        // Cranelift's icmp returns i8; widen when booleans have a wider
+        // converted type so later uses see the expected width.
+        let result_ty = rewriter
+            .type_converter()
+            .convert_type_or_identity(ctx, i1_ty);
+        if result_ty == i1_ty {
+            rewriter.replace_op(cmp_op.op_ref());
+        } else {
+            rewriter.insert_op(cmp_op.op_ref());
+            let extended = clif::uextend(ctx, loc, cmp_op.result(ctx), result_ty);
+            rewriter.replace_op(extended.op_ref());
+        }
         true
     }
 }
-- 
2.43.0


From 6e6e9e62e98f78983205587cd5e6a396f439cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:06 +0000
Subject: [PATCH 10/35] fix: retain managed values that stay live across a jump
 passing them as block arguments

---
 .../tribute-passes/src/native/rc_insertion.rs | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index b98854b..2f9d18d 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -1333,6 +1333,38 @@ fn insert_rc_in_block(
         }
     }
 
+    // 3. Retain before a jump: every managed block argument owns one unit. A
+    //    dying operand hands over its own unit; an operand that stays live (or
+    //    is passed more than once) needs a fresh unit per argument.
+    if let Some(&jump) = ops.last()
+        && clif::Jump::matches(ctx, jump)
+        && let Some(&target) = ctx.op(jump).successors.first()
+    {
+        let mut passed: HashMap<ValueRef, usize> = HashMap::new();
+        let operands = ctx.op_operands(jump).to_vec();
+        for (argument, &parameter) in operands.into_iter().zip(ctx.block_args(target)) {
+            let owned = ptr_alias_map.get(&argument).copied().unwrap_or(argument);
+            if is_anyref_value(ctx, parameter) && ptr_values.contains(&owned) {
+                *passed.entry(owned).or_default() += 1;
+            }
+        }
+        let mut passed: Vec<_> = passed.into_iter().collect();
+        passed.sort();
+        let op_loc = ctx.op(jump).location;
+        for (value, count) in passed {
+            let hands_over = !live_out.contains(&value)
+                && !borrow_info.parameters.contains(&value)
+                && !borrow_info.temporaries.contains(&value);
+            for _ in 0..count - usize::from(hands_over) {
+                let retain_op = tribute_rt::retain(ctx, op_loc, value, ptr_ty);
+                plan.before
+                    .entry(ops.len() - 1)
+                    .or_default()
+                    .push(retain_op.op_ref());
+            }
+        }
+    }
+
     let defs_in_block = liveness.def_set.get(&block).cloned().unwrap_or_default();
 
     // --- Release insertions ---
-- 
2.43.0


From 688aedae2cd62f276af9ab6fcecd3e514e2389f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:52 +0000
Subject: [PATCH 11/35] fix: native code generation no longer depends on hash
 iteration order

---
 crates/tribute-passes/src/native/rc_insertion.rs   | 8 ++++++--
 crates/trunk-ir-cranelift-backend/src/translate.rs | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index 2f9d18d..bc0bd04 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -1262,6 +1262,8 @@ fn insert_rc_in_block(
                     .and_modify(|(_, count)| *count += 1)
                     .or_insert((argument, 1));
             }
+            let mut transfers: Vec<_> = transfers.into_iter().collect();
+            transfers.sort();
             for (owned, (argument, count)) in transfers {
                 let borrowed = borrow_info.parameters.contains(&owned)
                     || borrow_info.parameters.contains(&argument)
@@ -1394,10 +1396,12 @@ fn insert_rc_in_block(
 
     let mut dying_sorted: Vec<ValueRef> = dying_values.into_iter().collect();
     dying_sorted.sort_by_key(|v| match ctx.value_def(*v) {
-        ValueDef::BlockArg(_, idx) => (0usize, idx),
+        // `*v` breaks ties between values of other blocks, so that the order
+        // never depends on hash iteration.
+        ValueDef::BlockArg(_, idx) => (0usize, idx, *v),
         ValueDef::OpResult(def_op, idx) => {
             let pos = ops.iter().position(|&o| o == def_op).unwrap_or(usize::MAX);
-            (pos.saturating_add(1), idx)
+            (pos.saturating_add(1), idx, *v)
         }
     });
 
diff --git a/crates/trunk-ir-cranelift-backend/src/translate.rs b/crates/trunk-ir-cranelift-backend/src/translate.rs
index 18538ac..5e5688a 100644
--- a/crates/trunk-ir-cranelift-backend/src/translate.rs
+++ b/crates/trunk-ir-cranelift-backend/src/translate.rs
@@ -3,7 +3,7 @@
 //! This module provides functions for validating and emitting native object files
 //! from TrunkIR modules that have already been lowered to the clif dialect.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use cranelift_codegen::ir::types as cl_types;
 use cranelift_codegen::ir::{self as cl_ir, InstBuilder, UserFuncName};
@@ -71,7 +71,8 @@ struct RttiEmitInfo {
     /// DataId for the RTTI function pointer table (None if no release functions exist).
     rtti_table_data_id: Option<cranelift_module::DataId>,
     /// Mapping from rtti_idx to the corresponding release function's FuncId.
-    release_functions: HashMap<u32, FuncId>,
+    /// Ordered by RTTI index so that relocations are emitted deterministically.
+    release_functions: BTreeMap<u32, FuncId>,
     /// Maximum rtti_idx seen (determines table size). 0 if no release functions.
     max_rtti_idx: u32,
 }
@@ -91,7 +92,7 @@ fn collect_and_declare_rtti(
     let ptr_ty = obj_module.target_config().pointer_type();
 
     // Scan func_ids for __tribute_release_<N> functions
-    let mut release_functions: HashMap<u32, FuncId> = HashMap::new();
+    let mut release_functions: BTreeMap<u32, FuncId> = BTreeMap::new();
     let mut max_rtti_idx: u32 = 0;
 
     for (sym, &func_id) in func_ids.iter() {
-- 
2.43.0


From 3f5af7c0525a9290c9ecb0c9c03e1b52c8e5d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:33 +0000
Subject: [PATCH 12/35] fix: folded boolean constants stay 0 or 1

---
 crates/trunk-ir/src/dialect/arith.rs | 80 +++++++++++++++++-----------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/crates/trunk-ir/src/dialect/arith.rs b/crates/trunk-ir/src/dialect/arith.rs
index 1d794e7..4e01ab0 100644
--- a/crates/trunk-ir/src/dialect/arith.rs
+++ b/crates/trunk-ir/src/dialect/arith.rs
@@ -122,9 +122,10 @@ pub(crate) fn fold_addi(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
     }
     let (a, b) = (const_int_value(ctx, lhs)?, const_int_value(ctx, rhs)?);
     let width = core_int_width(ctx, single_result_type(ctx, op)?)?;
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(a.wrapping_add(b), width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        a.wrapping_add(b),
+        width,
+    ))))
 }
 
 /// `arith.subi` folds:
@@ -139,9 +140,10 @@ pub(crate) fn fold_subi(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
     }
     let (a, b) = (const_int_value(ctx, lhs)?, const_int_value(ctx, rhs)?);
     let width = core_int_width(ctx, single_result_type(ctx, op)?)?;
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(a.wrapping_sub(b), width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        a.wrapping_sub(b),
+        width,
+    ))))
 }
 
 /// `arith.muli` folds:
@@ -162,9 +164,10 @@ pub(crate) fn fold_muli(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
     }
     let (a, b) = (const_int_value(ctx, lhs)?, const_int_value(ctx, rhs)?);
     let width = core_int_width(ctx, single_result_type(ctx, op)?)?;
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(a.wrapping_mul(b), width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        a.wrapping_mul(b),
+        width,
+    ))))
 }
 
 /// `arith.divsi const(a), const(b)` → `arith.const(a/b)` at the result width.
@@ -188,9 +191,10 @@ pub(crate) fn fold_divsi(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
     if is_signed_overflow_at_width(a, b, width) {
         return None;
     }
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(a.wrapping_div(b), width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        a.wrapping_div(b),
+        width,
+    ))))
 }
 
 /// `arith.divui const(a), const(b)` → `arith.const(a/b)` at the result
@@ -207,9 +211,10 @@ pub(crate) fn fold_divui(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
         return None;
     }
     let result = a_u.wrapping_div(b_u);
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(result as i128, width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        result as i128,
+        width,
+    ))))
 }
 
 /// `arith.remsi const(a), const(b)` → `arith.const(a%b)` at the result width.
@@ -227,9 +232,10 @@ pub(crate) fn fold_remsi(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
     if is_signed_overflow_at_width(a, b, width) {
         return None;
     }
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(a.wrapping_rem(b), width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        a.wrapping_rem(b),
+        width,
+    ))))
 }
 
 /// `arith.remui const(a), const(b)` → `arith.const(a%b)` at the result
@@ -246,9 +252,10 @@ pub(crate) fn fold_remui(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
         return None;
     }
     let result = a_u.wrapping_rem(b_u);
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(result as i128, width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        result as i128,
+        width,
+    ))))
 }
 
 /// `arith.and` folds:
@@ -272,9 +279,10 @@ pub(crate) fn fold_and(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
     }
     let (a, b) = (const_int_value(ctx, lhs)?, const_int_value(ctx, rhs)?);
     let width = core_int_width(ctx, single_result_type(ctx, op)?)?;
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(a & b, width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        a & b,
+        width,
+    ))))
 }
 
 /// `arith.or` folds:
@@ -296,9 +304,10 @@ pub(crate) fn fold_or(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
     }
     let (a, b) = (const_int_value(ctx, lhs)?, const_int_value(ctx, rhs)?);
     let width = core_int_width(ctx, single_result_type(ctx, op)?)?;
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(a | b, width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        a | b,
+        width,
+    ))))
 }
 
 /// `arith.xor` folds:
@@ -319,9 +328,10 @@ pub(crate) fn fold_xor(ctx: &IrContext, op: OpRef) -> Option<FoldResult> {
     }
     let (a, b) = (const_int_value(ctx, lhs)?, const_int_value(ctx, rhs)?);
     let width = core_int_width(ctx, single_result_type(ctx, op)?)?;
-    Some(FoldResult::ArithConst(Attribute::Int(
-        wrap_signed_to_width(a ^ b, width),
-    )))
+    Some(FoldResult::ArithConst(Attribute::Int(wrap_const_to_width(
+        a ^ b,
+        width,
+    ))))
 }
 
 // =========================================================================
@@ -399,6 +409,16 @@ fn wrap_signed_to_width(value: i128, width: u32) -> i128 {
     (value << shift) >> shift
 }
 
+/// Value of the `arith.const` that a fold at `width` bits produces. Boolean
+/// constants are `0` and `1` throughout the compiler (the backends widen them
+/// to a machine integer as they are), so `width == 1` does not sign-extend.
+fn wrap_const_to_width(value: i128, width: u32) -> i128 {
+    if width == 1 {
+        return value & 1;
+    }
+    wrap_signed_to_width(value, width)
+}
+
 /// Bottom `N` bits all set, the rest zero — used to truncate an i128 to
 /// its unsigned `N`-bit interpretation in `divui`/`remui` folds.
 fn width_mask_u128(width: u32) -> u128 {
-- 
2.43.0


From 8dc53212afb7595c085bedf376eba7863eede2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:39 +0000
Subject: [PATCH 13/35] fix: lower the unsigned comparisons that arith.cmpi has
 to wasm

---
 crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
index a344721..e2f91bf 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
@@ -254,6 +254,13 @@ impl RewritePattern for ArithCmpPattern {
                 ("i32", "sge") => wasm_dialect::i32_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i64", "sge") => wasm_dialect::i64_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i32", "ult") => wasm_dialect::i32_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ult") => wasm_dialect::i64_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ule") => wasm_dialect::i32_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ule") => wasm_dialect::i64_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ugt") => wasm_dialect::i32_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ugt") => wasm_dialect::i64_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "uge") => wasm_dialect::i32_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "uge") => wasm_dialect::i64_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 _ => return false,
             };
             rewriter.replace_op(new_op);
-- 
2.43.0


From 63fbaa23481c7a3c1a7cbb9e1ff1e8059cf91892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:45 +0000
Subject: [PATCH 14/35] fix: emit nothing for a nil-typed wasm.nop

---
 crates/trunk-ir-wasm-backend/src/emit.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index 1b7001e..e89e1cd 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -958,12 +958,9 @@ fn emit_op_nested(
                 }));
                 set_result_local(ctx, op, emit_ctx, function)?;
             } else if is_nil_type(ctx, result_ty) {
-                debug!("wasm.nop: emitting ref.null none for nil type");
-                function.instruction(&Instruction::RefNull(HeapType::Abstract {
-                    shared: false,
-                    ty: AbstractHeapType::None,
-                }));
-                set_result_local(ctx, op, emit_ctx, function)?;
+                // The nil local is null from the start. Pushing a value here would
+                // leave it on the stack, which nested regions do not allow.
+                debug!("wasm.nop: nothing to emit for nil type");
             } else {
                 debug!("wasm.nop: skipping (unknown primitive type)");
             }
-- 
2.43.0


From 93a575d46440fe44d84a8fbef1c6cf20d78c7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:52 +0000
Subject: [PATCH 15/35] fix: resolve the type index of wasm.call_indirect when
 emitting

---
 .../src/emit/handlers/call_handlers.rs        | 41 ++++++++-----------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
index c4fb863..b083b87 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
@@ -192,32 +192,23 @@ pub(crate) fn handle_call_indirect(
         ctx.types.get(result_ty).name
     );
 
-    // Get or compute type_idx
+    // Resolve the type index from the registry, like return_call_indirect. The
+    // `type_idx` attribute is only a placeholder that func_to_wasm sets to 0.
     let attrs = &ctx.op(op).attributes;
-    let type_idx = match attr_u32(attrs, Symbol::new("type_idx")) {
-        Ok(idx) => {
-            debug!("call_indirect emit: using type_idx from attribute: {}", idx);
-            idx
-        }
-        Err(_) => {
-            // Look up type index
-            let idx = module_info
-                .type_idx_by_type
-                .get(&func_type)
-                .copied()
-                .ok_or_else(|| {
-                    debug!(
-                        "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
-                        func_type
-                    );
-                    CompilationError::invalid_module(
-                        "wasm.call_indirect function type not registered in type section",
-                    )
-                })?;
-            debug!("call_indirect emit: looked up type_idx: {}", idx);
-            idx
-        }
-    };
+    let type_idx = module_info
+        .type_idx_by_type
+        .get(&func_type)
+        .copied()
+        .ok_or_else(|| {
+            debug!(
+                "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
+                func_type
+            );
+            CompilationError::invalid_module(
+                "wasm.call_indirect function type not registered in type section",
+            )
+        })?;
+    debug!("call_indirect emit: looked up type_idx: {}", type_idx);
 
     // call_indirect with i32 table index
     // IR operand order: [table_idx, arg1, arg2, ...]
-- 
2.43.0


From 8272b83667854f81ccf18c2bf2a733ed357d348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:59 +0000
Subject: [PATCH 16/35] fix: represent nominal and abstract references alike
 across a wasm module

---
 .../src/emit/gc_types_collection.rs           | 30 ++++++++++++++-----
 .../src/emit/handlers/struct_handlers.rs      |  4 ++-
 .../trunk-ir-wasm-backend/src/emit/helpers.rs | 10 +++++++
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index c3aee1c..d99c07b 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -80,7 +80,21 @@ fn try_get_builder(builders: &mut Vec<GcTypeBuilder>, idx: u32) -> Option<&mut G
 }
 
 /// Register a type in the type_idx_by_type map
-fn register_type(type_idx_by_type: &mut HashMap<TypeRef, u32>, idx: u32, ty: TypeRef) {
+///
+/// Abstract references (`wasm.anyref`, `wasm.structref`, `adt.typeref`) may
+/// denote values of any struct type and never stand for one concrete index.
+fn register_type(
+    ctx: &IrContext,
+    type_idx_by_type: &mut HashMap<TypeRef, u32>,
+    idx: u32,
+    ty: TypeRef,
+) {
+    if helpers::is_type(ctx, ty, "wasm", "anyref")
+        || helpers::is_type(ctx, ty, "wasm", "structref")
+        || helpers::is_type(ctx, ty, "adt", "typeref")
+    {
+        return;
+    }
     type_idx_by_type.entry(ty).or_insert(idx);
 }
 
@@ -394,7 +408,7 @@ pub(crate) fn collect_gc_types(
                 }
 
                 if let Some(result_ty) = result_type {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 for (field_idx, &value) in operands.iter().enumerate() {
                     let ty = helpers::value_type(ctx, value);
@@ -426,7 +440,7 @@ pub(crate) fn collect_gc_types(
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record field type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -456,7 +470,7 @@ pub(crate) fn collect_gc_types(
                 }
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&second_operand) = operands.get(1) {
                     let ty = helpers::value_type(ctx, second_operand);
@@ -476,7 +490,7 @@ pub(crate) fn collect_gc_types(
             if let Some(builder) = try_get_builder(&mut builders, type_idx) {
                 builder.kind = GcKind::Array;
                 if let Some(&result_ty) = result_types.first() {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&second_operand) = operands.get(1) {
@@ -498,7 +512,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record element type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -516,7 +530,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&third_operand) = operands.get(2) {
                     let ty = helpers::value_type(ctx, third_operand);
@@ -546,7 +560,7 @@ pub(crate) fn collect_gc_types(
                 continue;
             };
             if let Some(&result_ty) = result_types.first() {
-                register_type(&mut type_idx_by_type, type_idx, result_ty);
+                register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
             }
             if let Some(builder) = try_get_builder(&mut builders, type_idx)
                 && builder.kind == GcKind::Unknown
diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs
index fdbc70b..a5f5cf3 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs
@@ -57,7 +57,9 @@ pub(crate) fn handle_struct_get(
         let ty = value_type(ctx, *op_val);
         if helpers::is_type(ctx, ty, "wasm", "anyref") {
             Some("anyref")
-        } else if helpers::is_type(ctx, ty, "wasm", "structref") {
+        } else if helpers::is_type(ctx, ty, "wasm", "structref")
+            || helpers::is_type(ctx, ty, "adt", "typeref")
+        {
             Some("structref")
         } else {
             None
diff --git a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
index 1fffc9b..5224fcb 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
@@ -236,6 +236,16 @@ pub(crate) fn type_to_valtype(
             nullable: true,
             heap_type: HeapType::Concrete(CLOSURE_STRUCT_IDX),
         }))
+    } else if is_type(ctx, ty, "adt", "typeref") {
+        // A nominal reference has the representation the type converter gives
+        // it in signatures and struct fields.
+        Ok(ValType::Ref(RefType {
+            nullable: true,
+            heap_type: HeapType::Abstract {
+                shared: false,
+                ty: AbstractHeapType::Struct,
+            },
+        }))
     } else if ctx.types.get(ty).dialect == Symbol::new("adt") {
         Ok(ValType::Ref(RefType::ANYREF))
     } else if is_nil_type(ctx, ty) {
-- 
2.43.0


From ba8615e9a4eddd5c25fb9926529f049f62c25aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:05 +0000
Subject: [PATCH 17/35] fix: give i1 and i32 struct fields one wasm
 representation

---
 .../src/emit/gc_types_collection.rs                   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index d99c07b..41dded3 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -120,6 +120,17 @@ fn normalize_type_for_gc(ctx: &mut IrContext, ty: TypeRef) -> TypeRef {
         return intern_wasm_structref(ctx);
     }
 
+    // Booleans are stored as i32, and constants of either type reach this point
+    // as i32.
+    if helpers::is_type(ctx, ty, "core", "i1") {
+        return ctx.types.intern(TypeData {
+            dialect: Symbol::new("core"),
+            name: Symbol::new("i32"),
+            params: Default::default(),
+            attrs: Default::default(),
+        });
+    }
+
     // Note: tribute_rt types (int, nat, bool, float, any, intref) should be
     // converted to core/wasm types by normalize_primitive_types pass before emit.
     ty
-- 
2.43.0


From 2a53dfc33c75b9e3eb799042fb8e282116ac8327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:12 +0000
Subject: [PATCH 18/35] fix: order the declared functions of a wasm module by
 index

---
 crates/trunk-ir-wasm-backend/src/emit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index e89e1cd..1e2629f 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -513,11 +513,13 @@ pub fn emit_wasm(ctx: &mut IrContext, module: IrModule) -> CompilationResult<Vec
     }
 
     if !module_info.ref_funcs.is_empty() {
-        let func_idxs: Vec<u32> = module_info
+        let mut func_idxs: Vec<u32> = module_info
             .ref_funcs
             .iter()
             .filter_map(|name| module_info.func_indices.get(name).copied())
             .collect();
+        // Hash iteration order must not show in the binary.
+        func_idxs.sort_unstable();
         if !func_idxs.is_empty() {
             element_section.declared(Elements::Functions(Cow::Owned(func_idxs)));
         }
-- 
2.43.0


From a50e81608be27ef6ee3be6b8147c1ba14c078bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:35 +0000
Subject: [PATCH 19/35] fix: evidence of a finished handle no longer reaches
 the code after it

---
 crates/tribute-passes/src/resolve_evidence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index f7bb44a..a5d557e 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -893,11 +893,12 @@ fn transform_shifts_in_block(
 
             // Always transform handler body region, even when abilities is
             // empty, so that any shifts inside are properly resolved.
+            // The body has finished by then, so its handlers are no longer in scope.
             let handler_body = dispatch_op.body(ctx);
             transform_shifts_in_region(
                 ctx,
                 handler_body,
-                current_ev,
+                ev_value,
                 fns_with_evidence,
                 prepend_evidence,
             )?;
-- 
2.43.0


From 71ec9eeedc4db1fc973ef646556dd83202e3a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:41 +0000
Subject: [PATCH 20/35] fix: evidence resolution leaves the environment of
 direct closures alone

---
 crates/tribute-passes/src/resolve_evidence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index a5d557e..e81fae2 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -953,7 +953,10 @@ fn transform_shifts_in_block(
             let current_operands = ctx.op_operands(op).to_vec();
             if current_operands.len() >= 2 {
                 let current_ev = current_operands[1];
-                if current_ev != ev_value {
+                // Direct-convention closures take no evidence argument.
+                if current_ev != ev_value
+                    && ability::is_evidence_type_ref(ctx, ctx.value_ty(current_ev))
+                {
                     let loc = ctx.op(op).location;
                     let result_ty = ctx
                         .op_result_types(op)
-- 
2.43.0


From ae7b157ada323f926901453d9f9d8753aed85eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:48 +0000
Subject: [PATCH 21/35] fix: handler roots do not pass evidence twice to calls
 that carry it

---
 crates/tribute-passes/src/resolve_evidence.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index e81fae2..5b144f5 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -919,7 +919,9 @@ fn transform_shifts_in_block(
                         .copied()
                         .unwrap_or_else(|| core::nil(ctx).as_type_ref());
 
-                    let new_args = if prepend_evidence {
+                    let has_evidence_arg = first_arg
+                        .is_some_and(|arg| ability::is_evidence_type_ref(ctx, ctx.value_ty(arg)));
+                    let new_args = if prepend_evidence && !has_evidence_arg {
                         // Handler root: evidence_calls couldn't add evidence,
                         // so PREPEND it before all existing args.
                         let mut args = vec![ev_value];
-- 
2.43.0


From 897ab4e2a7b1716d0119cec6eb24003358c8d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:54 +0000
Subject: [PATCH 22/35] fix: a managed cast of someone else's pointer owns its
 own unit

---
 .../tribute-passes/src/native/rc_insertion.rs | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index bc0bd04..86b47ee 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -24,6 +24,7 @@
 //! | Other `clif.call` result (anyref) | No retain (ownership transfer) |
 //! | `clif.store` with anyref value | `retain` before store |
 //! | `clif.load` with anyref result | `retain` after load |
+//! | Cast of another owner's unmanaged pointer to anyref | `retain` after cast |
 //!
 //! ### Release (reference drop)
 //!
@@ -134,6 +135,30 @@ fn is_alloc_intermediate(ctx: &IrContext, value: ValueRef) -> bool {
     false
 }
 
+/// Check if a cast of an unmanaged pointer to a managed reference takes over the
+/// unit of a fresh allocation that nothing else refers to. Any other unmanaged
+/// pointer (a closure loaded from an environment, a parameter, ...) belongs to
+/// somebody else, so that the managed reference needs a unit of its own.
+fn takes_over_allocation(ctx: &IrContext, cast: OpRef) -> bool {
+    let mut value = ctx.op_operands(cast)[0];
+    while ctx.uses(value).len() == 1 {
+        let ValueDef::OpResult(def_op, _) = ctx.value_def(value) else {
+            return false;
+        };
+        if !core::UnrealizedConversionCast::matches(ctx, def_op)
+            && !clif::Iadd::matches(ctx, def_op)
+        {
+            return false;
+        }
+        value = ctx.op_operands(def_op)[0];
+        // The allocation sequence itself uses its pointer to store the fields.
+        if is_alloc_intermediate(ctx, value) {
+            return true;
+        }
+    }
+    false
+}
+
 /// Infer allocation size by tracing the def chain.
 fn infer_alloc_size(ctx: &IrContext, value: ValueRef) -> u64 {
     let ValueDef::OpResult(def_op, _) = ctx.value_def(value) else {
@@ -1333,6 +1358,18 @@ fn insert_rc_in_block(
                     .push(retain_op.op_ref());
             }
         }
+
+        if core::UnrealizedConversionCast::matches(ctx, op) {
+            let result = ctx.op_result(op, 0);
+            if ptr_values.contains(&result) && !takes_over_allocation(ctx, op) {
+                let op_loc = ctx.op(op).location;
+                let retain_op = tribute_rt::retain(ctx, op_loc, result, ptr_ty);
+                plan.after
+                    .entry(op_idx)
+                    .or_default()
+                    .push(retain_op.op_ref());
+            }
+        }
     }
 
     // 3. Retain before a jump: every managed block argument owns one unit. A
-- 
2.43.0


From d4e2b37bb73a4a4141773af3ccaa8f4b8f6ffcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:15 +0000
Subject: [PATCH 23/35] fix: a managed reference to a fresh struct or variant
 stays managed

---
 crates/tribute-passes/src/native/adt_rc_header.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/tribute-passes/src/native/adt_rc_header.rs b/crates/tribute-passes/src/native/adt_rc_header.rs
index efd9a05..8547dcd 100644
--- a/crates/tribute-passes/src/native/adt_rc_header.rs
+++ b/crates/tribute-passes/src/native/adt_rc_header.rs
@@ -15,7 +15,7 @@
 
 use std::collections::HashMap;
 
-use tribute_ir::dialect::tribute_rt::{RC_HEADER_SIZE, REFCOUNT_OFFSET, RTTI_IDX_OFFSET};
+use tribute_ir::dialect::tribute_rt::{self, RC_HEADER_SIZE, REFCOUNT_OFFSET, RTTI_IDX_OFFSET};
 use trunk_ir::Symbol;
 use trunk_ir::adt_layout::{compute_enum_layout, compute_struct_layout, find_variant_layout};
 use trunk_ir::context::IrContext;
@@ -185,7 +185,8 @@ impl RewritePattern for StructNewPattern {
         let zero_val = zero_op.result(ctx);
         ops.push(zero_op.op_ref());
 
-        let identity_op = clif::iadd(ctx, loc, payload_val, zero_val, self.ptr_ty);
+        let result_ty = managed_result_type(ctx, op).unwrap_or(self.ptr_ty);
+        let identity_op = clif::iadd(ctx, loc, payload_val, zero_val, result_ty);
         ops.push(identity_op.op_ref());
 
         let last = ops.pop().unwrap();
@@ -197,6 +198,13 @@ impl RewritePattern for StructNewPattern {
     }
 }
 
+/// The result type of an allocation that RC insertion manages. The identity
+/// pass-through keeps it, so that the reference stays managed.
+fn managed_result_type(ctx: &mut IrContext, op: OpRef) -> Option<TypeRef> {
+    let anyref_ty = tribute_rt::anyref(ctx).as_type_ref();
+    (ctx.op_result_types(op)[0] == anyref_ty).then_some(anyref_ty)
+}
+
 /// Pattern for `adt.variant_new(fields...)` -> heap allocation + RC header + tag + stores.
 ///
 /// Generates:
@@ -325,7 +333,8 @@ impl RewritePattern for VariantNewPattern {
         let zero_val = zero_op.result(ctx);
         ops.push(zero_op.op_ref());
 
-        let identity_op = clif::iadd(ctx, loc, payload_val, zero_val, self.ptr_ty);
+        let result_ty = managed_result_type(ctx, op).unwrap_or(self.ptr_ty);
+        let identity_op = clif::iadd(ctx, loc, payload_val, zero_val, result_ty);
         ops.push(identity_op.op_ref());
 
         let last = ops.pop().unwrap();
-- 
2.43.0


From cc7fe4b53b3e70b4031b1e8980ee5b7d34c3eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:22 +0000
Subject: [PATCH 24/35] fix: native byte access zero-extends the byte

---
 .../src/native/intrinsic_to_native.rs         | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/tribute-passes/src/native/intrinsic_to_native.rs b/crates/tribute-passes/src/native/intrinsic_to_native.rs
index 85f98b3..2bfa3b2 100644
--- a/crates/tribute-passes/src/native/intrinsic_to_native.rs
+++ b/crates/tribute-passes/src/native/intrinsic_to_native.rs
@@ -19,7 +19,7 @@ use trunk_ir::rewrite::{
     ConversionError, ConversionTarget, LegalityDecision, Module, PatternApplicator,
     PatternRewriter, RewritePattern, TypeConverter,
 };
-use trunk_ir::types::TypeDataBuilder;
+use trunk_ir::types::{Attribute, TypeDataBuilder};
 
 /// Lower bytes intrinsic calls to native mem operations.
 ///
@@ -77,7 +77,8 @@ pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError>
 ///   %data_ptr = mem.load %bytes, offset=0 : core.ptr
 ///   %addr = arith.addi %data_ptr, %index : core.ptr
 ///   %byte = mem.load %addr, offset=0 : core.i8
-///   %result = arith.extend %byte : result_ty (Nat/i32)
+///   %wide = arith.extend %byte : result_ty (Nat/i32)
+///   %result = arith.and %wide, 255 : result_ty
 struct BytesGetOrPanicPattern;
 
 impl RewritePattern for BytesGetOrPanicPattern {
@@ -129,9 +130,20 @@ impl RewritePattern for BytesGetOrPanicPattern {
         let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
         rewriter.insert_op(byte_val.op_ref());
 
-        // Zero-extend i8 → result type (Nat = i32)
+        // Zero-extend i8 → result type (Nat = i32). `arith.extend` sign-extends
+        // integers, so mask the result back to the byte range 0-255.
         let extended = trunk_ir::dialect::arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
-        rewriter.replace_op(extended.op_ref());
+        rewriter.insert_op(extended.op_ref());
+        let mask = trunk_ir::dialect::arith::r#const(ctx, loc, result_ty, Attribute::Int(0xFF));
+        rewriter.insert_op(mask.op_ref());
+        let masked = trunk_ir::dialect::arith::and(
+            ctx,
+            loc,
+            extended.result(ctx),
+            mask.result(ctx),
+            result_ty,
+        );
+        rewriter.replace_op(masked.op_ref());
 
         true
     }
-- 
2.43.0


From 2b98a840cee6dbb5dc890c0158838f382ca06d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:28 +0000
Subject: [PATCH 25/35] fix: native byte access traps when the index is out of
 bounds

---
 .../src/native/intrinsic_to_native.rs         | 123 +++++++++++++-----
 1 file changed, 87 insertions(+), 36 deletions(-)

diff --git a/crates/tribute-passes/src/native/intrinsic_to_native.rs b/crates/tribute-passes/src/native/intrinsic_to_native.rs
index 2bfa3b2..be4a3db 100644
--- a/crates/tribute-passes/src/native/intrinsic_to_native.rs
+++ b/crates/tribute-passes/src/native/intrinsic_to_native.rs
@@ -10,16 +10,16 @@ use std::collections::HashSet;
 use std::rc::Rc;
 
 use trunk_ir::Symbol;
-use trunk_ir::context::IrContext;
-use trunk_ir::dialect::func;
-use trunk_ir::dialect::mem;
+use trunk_ir::context::{BlockData, IrContext, RegionData};
+use trunk_ir::dialect::{arith, func, mem, scf};
 use trunk_ir::ops::DialectOp;
-use trunk_ir::refs::OpRef;
+use trunk_ir::refs::{OpRef, RegionRef};
 use trunk_ir::rewrite::{
     ConversionError, ConversionTarget, LegalityDecision, Module, PatternApplicator,
     PatternRewriter, RewritePattern, TypeConverter,
 };
-use trunk_ir::types::{Attribute, TypeDataBuilder};
+use trunk_ir::smallvec::smallvec;
+use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
 
 /// Lower bytes intrinsic calls to native mem operations.
 ///
@@ -73,12 +73,16 @@ pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError>
 ///   offset 0: ptr (*const u8) - 8 bytes
 ///   offset 8: len (u64)       - 8 bytes
 ///
-/// Emits:
-///   %data_ptr = mem.load %bytes, offset=0 : core.ptr
-///   %addr = arith.addi %data_ptr, %index : core.ptr
-///   %byte = mem.load %addr, offset=0 : core.i8
-///   %wide = arith.extend %byte : result_ty (Nat/i32)
-///   %result = arith.and %wide, 255 : result_ty
+/// Emits a bounds check that traps for an index past the end, then the access:
+///   %len = mem.load %bytes, offset=8 : core.i64
+///   %oob = arith.cmpi uge %index, %len
+///   %result = scf.if %oob { func.unreachable } else {
+///     %data_ptr = mem.load %bytes, offset=0 : core.ptr
+///     %addr = arith.addi %data_ptr, %index : core.ptr
+///     %byte = mem.load %addr, offset=0 : core.i8
+///     %wide = arith.extend %byte : result_ty (Nat/i32)
+///     scf.yield (arith.and %wide, 255)
+///   }
 struct BytesGetOrPanicPattern;
 
 impl RewritePattern for BytesGetOrPanicPattern {
@@ -108,47 +112,94 @@ impl RewritePattern for BytesGetOrPanicPattern {
             .types
             .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i8")).build());
 
-        // Load data pointer from TributeBytes (offset 0)
-        let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
-        rewriter.insert_op(data_ptr.op_ref());
-
-        // Extend index (Nat = i32) to pointer width (i64)
-        let index_ext = trunk_ir::dialect::arith::extend(ctx, loc, index, ptr_ty);
+        let i64_ty = ctx
+            .types
+            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i64")).build());
+        let i1_ty = ctx
+            .types
+            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i1")).build());
+
+        // Zero-extend the index (Nat = i32): `arith.extend` sign-extends integers.
+        let index_wide = arith::extend(ctx, loc, index, i64_ty);
+        rewriter.insert_op(index_wide.op_ref());
+        let index_mask = arith::r#const(ctx, loc, i64_ty, Attribute::Int(0xFFFF_FFFF));
+        rewriter.insert_op(index_mask.op_ref());
+        let (index_wide, index_mask) = (index_wide.result(ctx), index_mask.result(ctx));
+        let index_ext = arith::and(ctx, loc, index_wide, index_mask, i64_ty);
         rewriter.insert_op(index_ext.op_ref());
+        let index_ext = index_ext.result(ctx);
+
+        // Compare with the length in TributeBytes (offset 8)
+        let len = mem::load(ctx, loc, bytes, i64_ty, 8);
+        rewriter.insert_op(len.op_ref());
+        let len = len.result(ctx);
+        let out_of_bounds = arith::cmpi(ctx, loc, index_ext, len, i1_ty, Symbol::new("uge"));
+        rewriter.insert_op(out_of_bounds.op_ref());
 
+        let trap = func::unreachable(ctx, loc);
+        let trap_region = single_block_region(ctx, loc, [trap.op_ref()]);
+
+        // Load data pointer from TributeBytes (offset 0)
+        let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
         // Compute address: data_ptr + index
-        let addr = trunk_ir::dialect::arith::addi(
+        let addr = arith::addi(ctx, loc, data_ptr.result(ctx), index_ext, ptr_ty);
+        // Load byte (i8) from computed address
+        let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
+        // Zero-extend i8 → result type (Nat = i32), in the same way
+        let extended = arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
+        let mask = arith::r#const(ctx, loc, result_ty, Attribute::Int(0xFF));
+        let (wide, mask_value) = (extended.result(ctx), mask.result(ctx));
+        let masked = arith::and(ctx, loc, wide, mask_value, result_ty);
+        let yield_op = scf::r#yield(ctx, loc, [masked.result(ctx)]);
+        let access_region = single_block_region(
             ctx,
             loc,
-            data_ptr.result(ctx),
-            index_ext.result(ctx),
-            ptr_ty,
+            [
+                data_ptr.op_ref(),
+                addr.op_ref(),
+                byte_val.op_ref(),
+                extended.op_ref(),
+                mask.op_ref(),
+                masked.op_ref(),
+                yield_op.op_ref(),
+            ],
         );
-        rewriter.insert_op(addr.op_ref());
 
-        // Load byte (i8) from computed address
-        let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
-        rewriter.insert_op(byte_val.op_ref());
-
-        // Zero-extend i8 → result type (Nat = i32). `arith.extend` sign-extends
-        // integers, so mask the result back to the byte range 0-255.
-        let extended = trunk_ir::dialect::arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
-        rewriter.insert_op(extended.op_ref());
-        let mask = trunk_ir::dialect::arith::r#const(ctx, loc, result_ty, Attribute::Int(0xFF));
-        rewriter.insert_op(mask.op_ref());
-        let masked = trunk_ir::dialect::arith::and(
+        let checked = scf::r#if(
             ctx,
             loc,
-            extended.result(ctx),
-            mask.result(ctx),
+            out_of_bounds.result(ctx),
             result_ty,
+            trap_region,
+            access_region,
         );
-        rewriter.replace_op(masked.op_ref());
+        rewriter.replace_op(checked.op_ref());
 
         true
     }
 }
 
+fn single_block_region<const N: usize>(
+    ctx: &mut IrContext,
+    loc: Location,
+    ops: [OpRef; N],
+) -> RegionRef {
+    let block = ctx.create_block(BlockData {
+        location: loc,
+        args: vec![],
+        ops: smallvec![],
+        parent_region: None,
+    });
+    for op in ops {
+        ctx.push_op(block, op);
+    }
+    ctx.create_region(RegionData {
+        location: loc,
+        blocks: smallvec![block],
+        parent_op: None,
+    })
+}
+
 /// Pattern that removes `func.func` declarations for bytes intrinsics.
 struct BytesIntrinsicFuncDeclPattern {
     intrinsic_names: Rc<HashSet<Symbol>>,
-- 
2.43.0


From 7cc65bb7133b3a1d79c694c56b60168d3634d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:26 +0000
Subject: [PATCH 26/35] fix: paired RC elimination keeps a retain that outlives
 the value's owner

---
 .../src/native/rc_optimization.rs             | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/tribute-passes/src/native/rc_optimization.rs b/crates/tribute-passes/src/native/rc_optimization.rs
index 6b315c7..cdb026d 100644
--- a/crates/tribute-passes/src/native/rc_optimization.rs
+++ b/crates/tribute-passes/src/native/rc_optimization.rs
@@ -2,9 +2,10 @@
 //!
 //! This pass runs immediately after RC insertion. It removes a retain/release
 //! pair only when both operations are in the same block, refer to the same SSA
-//! value, and every intervening use is explicitly known not to let the value
-//! escape. Unknown uses are barriers by design; later RC optimization work can
-//! widen the safe-use set with dedicated borrow and alias analyses.
+//! value, no intervening operation may drop another reference, and every
+//! intervening use is explicitly known not to let the value escape. Unknown
+//! uses are barriers by design; later RC optimization work can widen the
+//! safe-use set with dedicated borrow and alias analyses.
 
 use tribute_ir::dialect::tribute_rt;
 use trunk_ir::context::IrContext;
@@ -74,6 +75,12 @@ fn is_barrier_for(ctx: &IrContext, op: OpRef, ptr: ValueRef, retained: ValueRef)
         return true;
     }
 
+    // The value may be owned by another object. Dropping that owner, here or
+    // in a callee, would free the value if the retain were gone.
+    if may_release(ctx, op) {
+        return true;
+    }
+
     ctx.op_operands(op)
         .iter()
         .enumerate()
@@ -83,6 +90,14 @@ fn is_barrier_for(ctx: &IrContext, op: OpRef, ptr: ValueRef, retained: ValueRef)
         })
 }
 
+/// Whether `op` may drop a reference to some object.
+fn may_release(ctx: &IrContext, op: OpRef) -> bool {
+    if let Ok(call) = clif::Call::from_op(ctx, op) {
+        return call.callee(ctx) != "__tribute_alloc";
+    }
+    tribute_rt::Release::matches(ctx, op) || clif::CallIndirect::matches(ctx, op)
+}
+
 fn is_proven_non_escaping_use(ctx: &IrContext, op: OpRef, operand_index: usize) -> bool {
     // Reading through a reference does not transfer ownership.
     if clif::Load::matches(ctx, op) {
-- 
2.43.0


From 4afdc93f80f4e17f2c255dba2f5a257ef387249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:49 +0000
Subject: [PATCH 27/35] fix: type alias names that need quoting print and parse
 back

---
 crates/trunk-ir/src/parser/raw.rs | 11 ++++++-----
 crates/trunk-ir/src/printer.rs    |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index d17ddac..3db4d02 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -639,12 +639,13 @@ fn is_type_alias_def(input: &str) -> bool {
         return false;
     }
     let rest = &input[1..];
-    let after_name = if let Some(quoted) = rest.strip_prefix('"') {
-        // Quoted: skip to closing quote (simplified — no escape handling needed for lookahead)
-        match quoted.find('"') {
-            Some(end) => &quoted[end + 1..],
-            None => return false,
+    let after_name = if rest.starts_with('"') {
+        // Quoted: skip the whole literal, escaped quotes included
+        let mut quoted = rest;
+        if string_lit.parse_next(&mut quoted).is_err() {
+            return false;
         }
+        quoted
     } else {
         // Bare ident
         let after_ident = rest.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '_');
diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 1d0a0e0..9c22de5 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -439,8 +439,9 @@ pub(crate) fn write_escaped_string(f: &mut dyn Write, s: &str) -> fmt::Result {
 
 /// Write a type alias name with `!` prefix. Quotes if name contains non-ident chars.
 fn write_type_alias_name(f: &mut dyn Write, name: &str) -> fmt::Result {
-    let needs_quoting =
-        name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
+    let needs_quoting = name.is_empty()
+        || name.starts_with(|c: char| c.is_ascii_digit())
+        || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
     if needs_quoting {
         f.write_str("!\"")?;
         write_escaped_string(f, name)?;
-- 
2.43.0


From e37ea263eee61b888491688c799df6592952f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:06 +0000
Subject: [PATCH 28/35] fix: automatic type aliases never reuse a registered
 alias name

---
 crates/trunk-ir/src/printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 9c22de5..677a582 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -570,7 +570,9 @@ fn generate_auto_aliases(
     candidates.sort_by(|a, b| b.1.cmp(&a.1).then(b.2.cmp(&a.2)).then(a.3.cmp(&b.3)));
 
     // Name assignment
+    // A type may have several registered names; all of them are taken.
     let mut used_names: HashSet<String> = existing.values().cloned().collect();
+    used_names.extend(ctx.type_aliases().iter().map(|(name, _)| name.to_string()));
     let mut next_num = 0usize;
     let mut result = Vec::new();
 
-- 
2.43.0


From 863d05634b3c4360bf9ed48c51356c8caf6048af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:12 +0000
Subject: [PATCH 29/35] fix: wasm boxing of int, nat and bool keeps the anyref
 type

---
 .../tribute-passes/src/wasm/tribute_rt_to_wasm.rs  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/tribute-passes/src/wasm/tribute_rt_to_wasm.rs b/crates/tribute-passes/src/wasm/tribute_rt_to_wasm.rs
index 4f6f974..30b448a 100644
--- a/crates/tribute-passes/src/wasm/tribute_rt_to_wasm.rs
+++ b/crates/tribute-passes/src/wasm/tribute_rt_to_wasm.rs
@@ -113,10 +113,10 @@ impl RewritePattern for BoxIntPattern {
         let location = ctx.op(op).location;
         let value = box_op.value(ctx);
 
-        let i31ref_ty = wasm_dialect::i31ref(ctx).as_type_ref();
+        let anyref_ty = wasm_dialect::anyref(ctx).as_type_ref();
 
-        // wasm.ref_i31: i32 -> i31ref
-        let new_op = wasm_dialect::ref_i31(ctx, location, value, i31ref_ty);
+        // wasm.ref_i31: i32 -> i31ref, typed anyref like every boxed value
+        let new_op = wasm_dialect::ref_i31(ctx, location, value, anyref_ty);
 
         rewriter.replace_op(new_op.op_ref());
         true
@@ -175,9 +175,9 @@ impl RewritePattern for BoxNatPattern {
 
         let location = ctx.op(op).location;
         let value = box_op.value(ctx);
-        let i31ref_ty = wasm_dialect::i31ref(ctx).as_type_ref();
+        let anyref_ty = wasm_dialect::anyref(ctx).as_type_ref();
 
-        let new_op = wasm_dialect::ref_i31(ctx, location, value, i31ref_ty);
+        let new_op = wasm_dialect::ref_i31(ctx, location, value, anyref_ty);
         rewriter.replace_op(new_op.op_ref());
         true
     }
@@ -308,9 +308,9 @@ impl RewritePattern for BoxBoolPattern {
 
         let location = ctx.op(op).location;
         let value = box_op.value(ctx);
-        let i31ref_ty = wasm_dialect::i31ref(ctx).as_type_ref();
+        let anyref_ty = wasm_dialect::anyref(ctx).as_type_ref();
 
-        let new_op = wasm_dialect::ref_i31(ctx, location, value, i31ref_ty);
+        let new_op = wasm_dialect::ref_i31(ctx, location, value, anyref_ty);
         rewriter.replace_op(new_op.op_ref());
         true
     }
-- 
2.43.0


From e1d28922c0dab37fb040777e6226ac0845f9598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:48 +0000
Subject: [PATCH 30/35] fix: allow op -> never handlers to contain nested
 handlers that resume

---
 .../tribute-ir/src/dialect/tribute_control.rs | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/tribute-ir/src/dialect/tribute_control.rs b/crates/tribute-ir/src/dialect/tribute_control.rs
index 27e0ad7..2330fce 100644
--- a/crates/tribute-ir/src/dialect/tribute_control.rs
+++ b/crates/tribute-ir/src/dialect/tribute_control.rs
@@ -1458,12 +1458,22 @@ fn validate_handle(ctx: &IrContext, op: OpRef, errors: &mut Vec<ValidationError>
     }
 }
 
+/// Whether `region` resumes on behalf of its own handler. Handler clauses nested
+/// inside it own their own tokens and are checked on their own.
 fn region_contains_resume(ctx: &IrContext, region: RegionRef) -> bool {
-    let mut found = false;
-    walk_region_ops(ctx, region, &mut |op| {
-        found |= is_control_op(ctx, op, "resume");
-    });
-    found
+    ctx.region(region)
+        .blocks
+        .iter()
+        .flat_map(|block| ctx.block(*block).ops.iter().copied())
+        .any(|op| {
+            is_control_op(ctx, op, "resume")
+                || (!is_control_op(ctx, op, "handler")
+                    && ctx
+                        .op(op)
+                        .regions
+                        .iter()
+                        .any(|nested| region_contains_resume(ctx, *nested)))
+        })
 }
 
 fn validate_handler(ctx: &IrContext, op: OpRef, errors: &mut Vec<ValidationError>) {
-- 
2.43.0


From cd88281eb84265ae1ca9f9f3d93bcdb3be2902f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:45 +0000
Subject: [PATCH 31/35] fix: keep the closure type of closure.lambda in its
 text form

---
 crates/tribute-ir/src/dialect/closure.rs | 33 +++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-ir/src/dialect/closure.rs b/crates/tribute-ir/src/dialect/closure.rs
index 69c8d74..80b6bda 100644
--- a/crates/tribute-ir/src/dialect/closure.rs
+++ b/crates/tribute-ir/src/dialect/closure.rs
@@ -131,12 +131,40 @@ fn print_closure_lambda(
         write!(h, "]")?;
     }
 
+    // " : result_type" — only when the signature above does not determine it
+    let result_ty = h.ctx().op_result_types(op)[0];
+    if !is_plain_closure_type(h.ctx(), result_ty, &entry_args) {
+        write!(h, " : ")?;
+        h.write_type(result_ty)?;
+    }
+
     // " { body }" — entry label elided
     writeln!(h, " {{")?;
     h.print_region_eliding_entry(region, indent + 2)?;
     writeln!(h, "{indent_str}}}")
 }
 
+/// Whether `ty` is the attribute-free `closure.closure(core.func(ret, params...))`
+/// that the parser rebuilds from the printed signature.
+fn is_plain_closure_type(
+    ctx: &trunk_ir::IrContext,
+    ty: trunk_ir::TypeRef,
+    args: &[trunk_ir::ValueRef],
+) -> bool {
+    let closure = ctx.types.get(ty);
+    let [func_ty] = closure.params.as_slice() else {
+        return false;
+    };
+    let func = ctx.types.get(*func_ty);
+    closure.attrs.is_empty()
+        && func.attrs.is_empty()
+        && func.params.len() == args.len() + 1
+        && args
+            .iter()
+            .zip(&func.params[1..])
+            .all(|(arg, param)| ctx.value_ty(*arg) == *param)
+}
+
 /// Lookahead: does the input start with an attribute dict `{key = ...}`?
 ///
 /// Distinguishes `{key = val}` (attr dict) from `{ ops... }` (body region).
@@ -197,6 +225,9 @@ fn parse_closure_lambda<'a>(
         vec![]
     };
 
+    // " : result_type" (optional)
+    let result_ty = opt((ws, ':', ws, raw_type).map(|(_, _, _, ty)| ty)).parse_next(input)?;
+
     // "{ body }"
     ws.parse_next(input)?;
     let mut regions = Vec::new();
@@ -250,7 +281,7 @@ fn parse_closure_lambda<'a>(
         return_type: None,
         operands: captures,
         attributes,
-        result_types: vec![closure_raw_ty],
+        result_types: vec![result_ty.unwrap_or(closure_raw_ty)],
         regions,
         successors: vec![],
     })
-- 
2.43.0


From 75a5b931f3b51a956348c99ec05c90d393cad9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:40 +0000
Subject: [PATCH 32/35] fix: ability ids distinguish nominal type arguments

---
 crates/tribute-ir/src/dialect/ability.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/tribute-ir/src/dialect/ability.rs b/crates/tribute-ir/src/dialect/ability.rs
index aecff48..cc05fa0 100644
--- a/crates/tribute-ir/src/dialect/ability.rs
+++ b/crates/tribute-ir/src/dialect/ability.rs
@@ -243,9 +243,32 @@ fn hash_type(ctx: &IrContext, ty: TypeRef) -> u32 {
         hash_type(ctx, param).hash(&mut hasher);
     }
 
+    // Nominal types (`adt.typeref`, ...) are identified by their attributes.
+    for (key, value) in data.attrs.iter() {
+        key.hash(&mut hasher);
+        hash_attribute(ctx, value, &mut hasher);
+    }
+
     hasher.finish() as u32
 }
 
+/// Hash an attribute of a type by content, so that the result does not depend
+/// on type interning order.
+fn hash_attribute(ctx: &IrContext, attr: &Attribute, hasher: &mut rustc_hash::FxHasher) {
+    use std::hash::Hash;
+
+    match attr {
+        Attribute::Type(ty) => hash_type(ctx, *ty).hash(hasher),
+        Attribute::List(items) => {
+            items.len().hash(hasher);
+            for item in items {
+                hash_attribute(ctx, item, hasher);
+            }
+        }
+        other => other.hash(hasher),
+    }
+}
+
 // === Pure operation registrations ===
 
 inventory::submit! { trunk_ir::op_interface::PureOps::register("ability", "evidence_lookup") }
-- 
2.43.0


From 8886119f62550b93398d5550b9f08312afbf2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:37 +0000
Subject: [PATCH 33/35] fix: convert the type arguments of abilities in
 tribute_control_to_cps

---
 crates/tribute-passes/src/tribute_control_to_cps.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tribute-passes/src/tribute_control_to_cps.rs b/crates/tribute-passes/src/tribute_control_to_cps.rs
index 7b8d437..863719e 100644
--- a/crates/tribute-passes/src/tribute_control_to_cps.rs
+++ b/crates/tribute-passes/src/tribute_control_to_cps.rs
@@ -2067,6 +2067,7 @@ impl<'a> Converter<'a> {
             .attributes
             .get_type("ability_ref")
             .expect("pre-CPS validation checked perform ability");
+        let ability_ref = self.convert_type(ability_ref);
         let op_name = self
             .ctx
             .op(source)
@@ -2144,6 +2145,7 @@ impl<'a> Converter<'a> {
             .attributes
             .get_type("ability_ref")
             .unwrap();
+        let ability_ref = self.convert_type(ability_ref);
         let op_name = self
             .ctx
             .op(source)
@@ -2709,6 +2711,7 @@ impl<'a> Converter<'a> {
                             .attributes
                             .get_type("ability_ref")
                             .expect("pre-CPS validation checked perform ability");
+                        let ability_ref = self.convert_type(ability_ref);
                         let op_name = self
                             .ctx
                             .op(source)
-- 
2.43.0


From e8a1baf4692c80d1792ff02333c919a87569e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:31 +0000
Subject: [PATCH 34/35] fix: emit wasm.array_new with its initial value below
 the size

The operation takes (size, init); array.new pops the size first.
---
 .../src/emit/handlers/array_handlers.rs                      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/array_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/array_handlers.rs
index 6d08524..5db4ade 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/array_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/array_handlers.rs
@@ -22,8 +22,9 @@ pub(crate) fn handle_array_new(
     function: &mut Function,
 ) -> CompilationResult<()> {
     let op = array_new_op.op_ref();
-    let operands = ctx.op_operands(op);
-    emit_operands(ctx, operands, emit_ctx, function)?;
+    // The operation takes (size, init); array.new pops the size first.
+    let operands = [array_new_op.init(ctx), array_new_op.size(ctx)];
+    emit_operands(ctx, &operands, emit_ctx, function)?;
 
     function.instruction(&Instruction::ArrayNew(array_new_op.type_idx(ctx)));
     set_result_local(ctx, op, emit_ctx, function)?;
-- 
2.43.0


From 020137cb2d08c93857e1c9956ad2f40656784895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:39 +0000
Subject: [PATCH 35/35] fix: keep the result of a wasm.if whose then region
 leaves early

---
 .../emit/handlers/control_flow_handlers.rs    | 20 ++++---------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
index fbdb6bc..f87b698 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
@@ -73,24 +73,12 @@ pub(crate) fn handle_if(
     let operands = ctx.op_operands(op);
     let result_ty = ctx.op_result_types(op).first().copied();
 
-    // Check if we can actually get a result value from the then region
     let regions = &ctx.op(op).regions;
-    let then_region_result = regions.first().and_then(|r| region_result_value(ctx, *r));
-    let then_has_result_value = then_region_result.is_some();
 
-    debug!(
-        "wasm.if: then_has_result_value={}, result_ty={:?}",
-        then_has_result_value,
-        result_ty.map(|ty| {
-            let data = ctx.types.get(ty);
-            format!("{}.{}", data.dialect, data.name)
-        })
-    );
-
-    // Determine if we should use a result type
-    // Use IR result type directly - type variables are resolved at AST level
-    let has_result =
-        then_has_result_value && matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
+    // Use IR result type directly - type variables are resolved at AST level.
+    // A region may leave early instead of yielding; the other one, or a branch
+    // to the end of this op, still produces the result.
+    let has_result = matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
 
     let block_type = compute_block_type(ctx, has_result, result_ty, module_info)?;
 
-- 
2.43.0

