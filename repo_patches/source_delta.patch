From 32f99d086a4b8291aa035ca0d0634705af193d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:20 +0000
Subject: [PATCH 01/17] fix: keep the inspected stack in sync when
 RETURN/REVERT has constant operands

---
 crates/revmc-codegen/src/compiler/translate/peephole.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/revmc-codegen/src/compiler/translate/peephole.rs b/crates/revmc-codegen/src/compiler/translate/peephole.rs
index a407dcb..8ee836e 100644
--- a/crates/revmc-codegen/src/compiler/translate/peephole.rs
+++ b/crates/revmc-codegen/src/compiler/translate/peephole.rs
@@ -328,6 +328,7 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
             let ir_const = self.bcx.iconst(self.i8_type, ir as i64);
             let offset = self.bcx.iconst(self.isize_type, offset as i64);
             let len = self.bcx.iconst(self.isize_type, len as i64);
+            self.sync_diverging_stack_effect();
             let _ = self.call_builtin(Builtin::DoReturnCC, &[self.ecx, offset, len, ir_const]);
             self.bcx.unreachable();
             true
-- 
2.43.0


From 062bc2543d8db3b9ff358622173adaa4519663d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:20 +0000
Subject: [PATCH 02/17] fix: LOG1..LOG4 take offset and length from the top of
 the stack in memory sections

---
 crates/revmc-codegen/src/bytecode/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 2b8c5e8..7a086a2 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -710,9 +710,14 @@ impl<'a> Bytecode<'a> {
         let operand =
             |depth| self.const_operand(inst, depth).and_then(|value| u64::try_from(value).ok());
         match data.opcode {
-            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0 => {
-                [Some((operand(0), operand(1))), None]
-            }
+            op::KECCAK256
+            | op::RETURN
+            | op::REVERT
+            | op::LOG0
+            | op::LOG1
+            | op::LOG2
+            | op::LOG3
+            | op::LOG4 => [Some((operand(0), operand(1))), None],
             op::MLOAD | op::MSTORE => [Some((operand(0), Some(32))), None],
             op::MSTORE8 => [Some((operand(0), Some(1))), None],
             op::CALLDATACOPY | op::CODECOPY | op::RETURNDATACOPY => {
@@ -723,10 +728,6 @@ impl<'a> Bytecode<'a> {
                 Some((operand(0).zip(operand(1)).map(|(dst, src)| dst.max(src)), operand(2))),
                 None,
             ],
-            op::LOG1 => [Some((operand(1), operand(2))), None],
-            op::LOG2 => [Some((operand(2), operand(3))), None],
-            op::LOG3 => [Some((operand(3), operand(4))), None],
-            op::LOG4 => [Some((operand(4), operand(5))), None],
             op::CREATE | op::CREATE2 => [Some((operand(1), operand(2))), None],
             op::CALL | op::CALLCODE => {
                 [Some((operand(3), operand(4))), Some((operand(5), operand(6)))]
-- 
2.43.0


From 5c796284ad2463ff2921c4d196ca9827a98d316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 03/17] fix: a PUSH byte in the place of a DUPN/SWAPN/EXCHANGE
 immediate masks its data for jump destinations

---
 crates/revmc-codegen/src/bytecode/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 7a086a2..6fa7e04 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -304,12 +304,13 @@ impl<'a> Bytecode<'a> {
 
             // EIP-8024: JUMPDEST analysis is unchanged by DUPN/SWAPN/EXCHANGE. Their
             // immediate byte is NOT masked, so 0x5b in that position is a valid jump
-            // target. When the immediate is 0x5b, rewind the iterator so it is re-yielded
-            // and processed as a normal JUMPDEST by the loop.
+            // target, and a PUSH in that position masks its own data. In both cases the
+            // immediate is invalid; rewind the iterator so that the byte is re-yielded
+            // and processed as a normal instruction by the loop.
             if matches!(opcode, op::DUPN | op::SWAPN | op::EXCHANGE)
                 && !info.is_unknown()
                 && !info.is_disabled()
-                && immediate == Some(&[op::JUMPDEST])
+                && matches!(immediate, Some(&[op::JUMPDEST | op::PUSH1..=op::PUSH32]))
             {
                 // SAFETY: we just consumed the 1-byte immediate.
                 unsafe { iter.rewind(1) };
-- 
2.43.0


From f5d819331e048f2a2c5736fe3c9d53f1e77dc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:37 +0000
Subject: [PATCH 04/17] fix: treat DUPN/SWAPN/EXCHANGE with an invalid
 immediate as diverging

---
 crates/revmc-codegen/src/bytecode/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 6fa7e04..b294dba 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -1159,12 +1159,24 @@ impl InstData {
         (self.opcode == op::JUMP && self.flags.contains(InstFlags::INVALID_JUMP))
             || self.flags.contains(InstFlags::DISABLED)
             || self.flags.contains(InstFlags::UNKNOWN)
+            || self.has_invalid_imm()
             || matches!(
                 self.opcode,
                 op::STOP | op::RETURN | op::REVERT | op::INVALID | op::SELFDESTRUCT
             )
     }
 
+    /// Returns `true` if this is a `DUPN`/`SWAPN`/`EXCHANGE` whose immediate is invalid, which
+    /// always halts.
+    #[inline]
+    pub(crate) fn has_invalid_imm(&self) -> bool {
+        match self.opcode {
+            op::DUPN | op::SWAPN => crate::decode_single(self.imm_byte()).is_none(),
+            op::EXCHANGE => crate::decode_pair(self.imm_byte()).is_none(),
+            _ => false,
+        }
+    }
+
     /// Returns `true` if this instruction may suspend execution.
     #[inline]
     pub(crate) const fn may_suspend(&self) -> bool {
-- 
2.43.0


From dcb7d9ccbd33836e862e1b1ed6e7ca931b0208d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:37 +0000
Subject: [PATCH 05/17] fix: do not take a pop below the clamped abstract stack
 for an underflow

---
 .../src/bytecode/passes/block_analysis.rs     | 42 +++++++++++++++----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index cb8afa3..7f5767a 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -173,7 +173,11 @@ enum BlockState {
     /// Block has not been reached yet.
     Bottom,
     /// Block has been reached with a known stack state (top-aligned).
-    Known(Vec<AbsValue>),
+    Known {
+        stack: Vec<AbsValue>,
+        /// Whether entries below `stack` may have been discarded by [`MAX_ABS_STACK_DEPTH`].
+        clamped: bool,
+    },
 }
 
 impl BlockState {
@@ -183,17 +187,25 @@ impl BlockState {
     /// bottom-padded with `Top`. This handles the common Solidity dispatch pattern where
     /// the "no selector match" fallthrough leaves an extra item on the stack that the
     /// fallback ignores.
-    fn join(&mut self, incoming: &[AbsValue], sets: &mut ConstSetInterner) -> bool {
+    ///
+    /// `clamped` is whether `incoming` itself may be missing entries at the bottom.
+    fn join(&mut self, incoming: &[AbsValue], clamped: bool, sets: &mut ConstSetInterner) -> bool {
+        let clamped = clamped || incoming.len() > MAX_ABS_STACK_DEPTH;
         match self {
             Self::Bottom => {
                 let start = incoming.len().saturating_sub(MAX_ABS_STACK_DEPTH);
-                *self = Self::Known(incoming[start..].to_vec());
+                *self = Self::Known { stack: incoming[start..].to_vec(), clamped };
                 true
             }
-            Self::Known(existing) => {
+            Self::Known { stack: existing, clamped: existing_clamped } => {
                 let new_len = existing.len().max(incoming.len());
                 let mut changed = false;
 
+                if clamped && !*existing_clamped {
+                    *existing_clamped = true;
+                    changed = true;
+                }
+
                 // Clamp to MAX_ABS_STACK_DEPTH by only joining the top portion;
                 // elements below that are unreachable by any EVM instruction and
                 // discarding them preserves soundness.
@@ -705,7 +717,7 @@ impl Bytecode<'_> {
         // Initialize block states. Entry block starts with an empty stack.
         let mut block_states: IndexVec<Block, BlockState> =
             index_vec![BlockState::Bottom; num_blocks];
-        block_states[Block::from_usize(0)] = BlockState::Known(Vec::new());
+        block_states[Block::from_usize(0)] = BlockState::Known { stack: Vec::new(), clamped: false };
 
         // Collect unresolved jumps, plus static JUMPI instructions whose condition
         // may become constant only after CFG fixpoint.
@@ -1009,12 +1021,24 @@ impl Bytecode<'_> {
 
             // Copy input state into reusable buffer.
             stack_buf.clear();
-            match &block_states[bid] {
-                BlockState::Known(s) => stack_buf.extend_from_slice(s),
+            let block = &self.cfg.blocks[bid];
+            let clamped = match &block_states[bid] {
+                BlockState::Known { stack, clamped } => {
+                    // Discarded entries are unknown, but they are there: the block does not
+                    // underflow when it pops below the tracked part.
+                    if *clamped {
+                        let section = StackSection::from_stack_io(
+                            block.insts().map(|i| self.insts[i].stack_io()),
+                        );
+                        let missing = (section.inputs as usize).saturating_sub(stack.len());
+                        stack_buf.resize(missing, AbsValue::Top);
+                    }
+                    stack_buf.extend_from_slice(stack);
+                    *clamped
+                }
                 BlockState::Bottom => continue,
             };
 
-            let block = &self.cfg.blocks[bid];
             if !self.interpret_block(block.insts(), &mut stack_buf) {
                 continue;
             }
@@ -1038,7 +1062,7 @@ impl Bytecode<'_> {
 
             // Propagate to static CFG successors and discovered dynamic-jump targets.
             for &succ in block.succs.iter().chain(&discovered[bid]) {
-                if block_states[succ].join(&stack_buf, const_sets) {
+                if block_states[succ].join(&stack_buf, clamped, const_sets) {
                     worklist.push(succ);
                 }
             }
-- 
2.43.0


From 5054d246726155136d1d131785ac13a323ba3998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:25 +0000
Subject: [PATCH 06/17] fix: encode EXCHANGE pairs whose second index is above
 16

---
 crates/revmc-codegen/src/bytecode/opcode.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/opcode.rs b/crates/revmc-codegen/src/bytecode/opcode.rs
index 6237bc6..25c2bf2 100644
--- a/crates/revmc-codegen/src/bytecode/opcode.rs
+++ b/crates/revmc-codegen/src/bytecode/opcode.rs
@@ -258,12 +258,8 @@ pub fn encode_pair(n: u8, m: u8) -> Option<u8> {
     };
 
     // Case 1: q < r → n = q+1, m = r+1.
-    if n < m {
-        try_k(n - 1, m - 1)
-    } else {
-        // Case 2: q >= r → n = r+1, m = 29-q.
-        if let Some(q) = 29u8.checked_sub(m) { try_k(q, n - 1) } else { None }
-    }
+    // Case 2: q >= r → n = r+1, m = 29-q.
+    try_k(n - 1, m - 1).or_else(|| try_k(29u8.checked_sub(m)?, n - 1))
 }
 
 /// Returns a string representation of the given bytecode.
-- 
2.43.0


From 3b65d504c39d2fb40ac0b07f0dcf8dab5cdbdb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:20 +0000
Subject: [PATCH 07/17] fix: leave the new generation's entry alone when a
 stale compile result arrives

A result from before a clear drained the notifiers of, and removed, whatever
entry was under its key, including one admitted after the clear: synchronous
callers of the new job returned before it finished and the key could be
dispatched twice.
---
 crates/revmc-runtime/src/runtime/backend.rs | 27 +++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index b827df4..78df675 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -494,6 +494,20 @@ impl BackendState {
     fn handle_worker_result(&mut self, result: WorkerResult) {
         self.pending_jobs = self.pending_jobs.saturating_sub(1);
 
+        // Discard stale results from a previous generation (e.g. after clear). The clear already
+        // dropped that generation's entries, so an entry found under this key now, along with its
+        // notifiers, belongs to a newer job and must be left alone.
+        if result.generation != self.generation {
+            debug!(
+                code_hash = %result.key.code_hash,
+                result_gen = result.generation,
+                current_gen = self.generation,
+                "discarding stale worker result",
+            );
+            result.sync_notifier.notify();
+            return;
+        }
+
         // Drain pending notifiers from the entry before processing.
         let pending_notifiers = self
             .entries
@@ -508,19 +522,6 @@ impl BackendState {
             }
         };
 
-        // Discard stale results from a previous generation (e.g. after clear).
-        if result.generation != self.generation {
-            debug!(
-                code_hash = %result.key.code_hash,
-                result_gen = result.generation,
-                current_gen = self.generation,
-                "discarding stale worker result",
-            );
-            self.entries.remove(&result.key);
-            notify();
-            return;
-        }
-
         let kind = result.kind;
         let success = result.outcome.is_ok();
 
-- 
2.43.0


From 4a81401f955d76771dc098ffdbb9b4fa2413d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:20 +0000
Subject: [PATCH 08/17] fix: count discarded compile results as completed in
 pending_jobs

Results discarded after a clear were neither successes nor failures, so
pending_jobs never returned to zero.
---
 crates/revmc-runtime/src/runtime/backend.rs | 1 +
 crates/revmc-runtime/src/runtime/stats.rs   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 78df675..2ac0a08 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -504,6 +504,7 @@ impl BackendState {
                 current_gen = self.generation,
                 "discarding stale worker result",
             );
+            self.inner.stats.compilations_discarded.fetch_add(1, Ordering::Relaxed);
             result.sync_notifier.notify();
             return;
         }
diff --git a/crates/revmc-runtime/src/runtime/stats.rs b/crates/revmc-runtime/src/runtime/stats.rs
index 89de1d4..2c8f566 100644
--- a/crates/revmc-runtime/src/runtime/stats.rs
+++ b/crates/revmc-runtime/src/runtime/stats.rs
@@ -21,6 +21,8 @@ pub(crate) struct RuntimeStats {
     pub(crate) compilations_succeeded: AtomicU64,
     /// Total number of failed compilations (JIT + AOT).
     pub(crate) compilations_failed: AtomicU64,
+    /// Total number of compilations whose result was discarded because of a clear (JIT + AOT).
+    pub(crate) compilations_discarded: AtomicU64,
     /// Total number of out-of-process JIT helper processes spawned successfully.
     pub(crate) jit_helper_spawns: AtomicU64,
     /// Total number of failed out-of-process JIT helper spawn attempts.
@@ -136,7 +138,9 @@ impl RuntimeStats {
         let dispatched = self.compilations_dispatched.load(Ordering::Relaxed);
         let succeeded = self.compilations_succeeded.load(Ordering::Relaxed);
         let failed = self.compilations_failed.load(Ordering::Relaxed);
-        let pending_jobs = dispatched.saturating_sub(succeeded.saturating_add(failed));
+        let discarded = self.compilations_discarded.load(Ordering::Relaxed);
+        let completed = succeeded.saturating_add(failed).saturating_add(discarded);
+        let pending_jobs = dispatched.saturating_sub(completed);
 
         RuntimeStatsSnapshot {
             lookup_hits: self.lookup_hits.load(Ordering::Relaxed),
-- 
2.43.0


From a6404a3ee31d4bd1ec21f169c7903d77c0343bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 09/17] fix: give every in-process JIT compilation its own
 symbol

A program that was cleared or evicted while a caller still held it keeps its
symbol defined, so compiling the same code again on the same worker failed
with a duplicate definition.
---
 crates/revmc-runtime/src/runtime/backend.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 2ac0a08..067dba6 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -218,6 +218,8 @@ struct BackendState {
     pending_jobs: usize,
     /// Monotonically increasing generation counter, bumped on clear/invalidation.
     generation: u64,
+    /// Suffix of the next JIT symbol name.
+    next_jit_symbol_id: u64,
     /// Last time an eviction sweep was run.
     last_sweep: Instant,
     /// Optional user callback for compilation events.
@@ -348,15 +350,20 @@ impl BackendState {
             return;
         }
 
-        let prefix = match kind {
-            CompilationKind::Jit => "jit",
-            CompilationKind::Aot => "aot",
-        };
         let opt_level = match kind {
             CompilationKind::Jit => self.tuning.jit_opt_level,
             CompilationKind::Aot => self.tuning.aot_opt_level,
         };
-        let symbol = format!("{prefix}_{:x}_{:?}", key.code_hash, key.spec_id);
+        let symbol = match kind {
+            // A previously evicted or cleared program may still be held by a caller, along with
+            // its symbol, so JIT symbols must be unique.
+            CompilationKind::Jit => {
+                let id = self.next_jit_symbol_id;
+                self.next_jit_symbol_id += 1;
+                format!("jit_{:x}_{:?}_{id}", key.code_hash, key.spec_id)
+            }
+            CompilationKind::Aot => format!("aot_{:x}_{:?}", key.code_hash, key.spec_id),
+        };
         let job = CompileJob {
             kind,
             key,
@@ -838,6 +845,7 @@ pub(crate) fn run(
         aot: config.aot,
         pending_jobs: 0,
         generation: 0,
+        next_jit_symbol_id: 0,
         last_sweep: now,
         on_compilation: config.on_compilation,
     };
-- 
2.43.0


From 0faf58eda58e2c77ac33338a41bb70f4e0204382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:35 +0000
Subject: [PATCH 10/17] fix: replace stored artifacts atomically instead of
 rewriting them in place

Storing an artifact again truncated the file that a running program may have
mapped.
---
 crates/revmc-runtime/src/runtime/storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/storage.rs b/crates/revmc-runtime/src/runtime/storage.rs
index 5b85f30..dc3520f 100644
--- a/crates/revmc-runtime/src/runtime/storage.rs
+++ b/crates/revmc-runtime/src/runtime/storage.rs
@@ -4,7 +4,7 @@ use crate::{OptimizationLevel, eyre};
 use alloy_primitives::B256;
 use dashmap::DashMap;
 use revm_primitives::hardfork::SpecId;
-use std::{fs, path::PathBuf};
+use std::{fs, io::Write, path::PathBuf};
 
 /// Runtime cache key: the minimal identity for a compiled program at runtime.
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
@@ -142,7 +142,10 @@ impl ArtifactStore for RuntimeArtifactStore {
         dylib_bytes: &[u8],
     ) -> eyre::Result<()> {
         let path = self.artifact_path(key);
-        fs::write(&path, dylib_bytes)?;
+        // Never write to an existing file in place: it may be loaded by a running program.
+        let mut file = tempfile::NamedTempFile::new_in(self.dir.path())?;
+        file.write_all(dylib_bytes)?;
+        file.persist(&path)?;
         self.artifacts
             .insert(key.clone(), StoredArtifact { manifest: manifest.clone(), dylib_path: path });
         Ok(())
-- 
2.43.0


From 73019e3687b14060b7b2f6805972376e263cbeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:57 +0000
Subject: [PATCH 11/17] fix: do not start another helper for queued jobs at
 shutdown

Shutting down killed the current helper only; queued jobs then started a new
one, which never finishes while paused, so shutdown timed out and leaked the
backend thread and the stopped helper process.
---
 .../src/runtime/out_of_process.rs             | 24 ++++++++++++++++++-
 crates/revmc-runtime/src/runtime/worker.rs    | 13 +++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index 25e8e2c..da0f1a2 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -94,17 +94,27 @@ struct HelperIo {
 pub(super) struct HelperProcess {
     inner: Mutex<Option<Arc<HelperProcessInner>>>,
     paused: Arc<AtomicBool>,
+    shutdown: AtomicBool,
     stats: Arc<RuntimeStats>,
 }
 
 impl HelperProcess {
     pub(super) fn new(stats: Arc<RuntimeStats>) -> Self {
-        Self { inner: Mutex::new(None), paused: Arc::new(AtomicBool::new(false)), stats }
+        Self {
+            inner: Mutex::new(None),
+            paused: Arc::new(AtomicBool::new(false)),
+            shutdown: AtomicBool::new(false),
+            stats,
+        }
     }
 
     fn compile(&self, job: &CompileJob, config: &RuntimeConfig) -> Result<HelperJobResult, String> {
         let helper = {
             let mut slot = self.inner.lock().unwrap();
+            // Checked with the lock held so that no helper is spawned after `shutdown` returns.
+            if self.shutdown.load(Ordering::Relaxed) {
+                return Err("JIT helper is shut down".into());
+            }
             if slot.as_ref().is_none_or(|helper| !helper.matches_config(config)) {
                 let restarting = slot.is_some();
                 debug!("spawning JIT helper");
@@ -148,6 +158,18 @@ impl HelperProcess {
         }
     }
 
+    /// Cancels in-flight jobs and fails all later ones.
+    pub(super) fn shutdown(&self) {
+        let helper = {
+            let mut slot = self.inner.lock().unwrap();
+            self.shutdown.store(true, Ordering::Relaxed);
+            slot.take()
+        };
+        if let Some(helper) = helper {
+            helper.kill();
+        }
+    }
+
     pub(super) fn pause(&self) {
         self.stats.jit_helper_pause_requests.fetch_add(1, Ordering::Relaxed);
         self.paused.store(true, Ordering::Relaxed);
diff --git a/crates/revmc-runtime/src/runtime/worker.rs b/crates/revmc-runtime/src/runtime/worker.rs
index afc3227..2a57e0e 100644
--- a/crates/revmc-runtime/src/runtime/worker.rs
+++ b/crates/revmc-runtime/src/runtime/worker.rs
@@ -268,7 +268,8 @@ impl WorkerPool {
     /// Shuts down all workers after draining queued jobs.
     pub(crate) fn shutdown(&mut self) {
         self.shutdown.store(true, Ordering::Release);
-        self.cancel_in_flight();
+        // Queued jobs must not start another helper: it would never finish while paused.
+        shutdown_out_of_process_helper(&self.out_of_process_helper);
         if let Some(pool) = &self.pool {
             pool.broadcast(|_| clear_thread_local_compilers());
         }
@@ -323,6 +324,16 @@ fn cancel_out_of_process_helper(helper: &OutOfProcessHelper) {
 #[cfg(not(all(feature = "llvm", unix)))]
 fn cancel_out_of_process_helper(_helper: &OutOfProcessHelper) {}
 
+#[cfg(all(feature = "llvm", unix))]
+fn shutdown_out_of_process_helper(helper: &OutOfProcessHelper) {
+    if let Some(helper) = helper {
+        helper.shutdown();
+    }
+}
+
+#[cfg(not(all(feature = "llvm", unix)))]
+fn shutdown_out_of_process_helper(_helper: &OutOfProcessHelper) {}
+
 #[cfg(all(feature = "llvm", unix))]
 fn pause_out_of_process_helper(helper: &OutOfProcessHelper) {
     if let Some(helper) = helper {
-- 
2.43.0


From eab081ca9e8254e52d36b5f33b0f1981fd9ad6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:58 +0000
Subject: [PATCH 12/17] fix: clear a runtime that was never started directly

Clears sent to a runtime whose backend thread is not running were only queued:
they took effect after the startup preload, and blocked the caller forever
once the command channel was full.
---
 crates/revmc-runtime/src/runtime/mod.rs | 31 ++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/mod.rs b/crates/revmc-runtime/src/runtime/mod.rs
index d44e5b5..fbc6b8f 100644
--- a/crates/revmc-runtime/src/runtime/mod.rs
+++ b/crates/revmc-runtime/src/runtime/mod.rs
@@ -344,17 +344,42 @@ impl JitBackend {
     /// All compiled programs are removed from the map. Active references
     /// held by callers remain valid until dropped.
     pub fn clear_resident(&self) {
-        let _ = self.inner.tx.send(Command::ClearResident);
+        if !self.clear_unstarted(false) {
+            let _ = self.inner.tx.send(Command::ClearResident);
+        }
     }
 
     /// Clears persisted artifacts from the artifact store.
     pub fn clear_persisted(&self) {
-        let _ = self.inner.tx.send(Command::ClearPersisted);
+        if !self.clear_unstarted(true) {
+            let _ = self.inner.tx.send(Command::ClearPersisted);
+        }
     }
 
     /// Clears both the resident map and persisted artifacts.
     pub fn clear_all(&self) {
-        let _ = self.inner.tx.send(Command::ClearAll);
+        if !self.clear_unstarted(true) {
+            let _ = self.inner.tx.send(Command::ClearAll);
+        }
+    }
+
+    /// Handles a clear if the backend thread has not been started, in which case nothing is
+    /// resident and nothing drains the command channel: queued clears would take effect only after
+    /// the startup preload, and block the caller forever once the channel is full.
+    ///
+    /// Returns whether the clear was handled.
+    fn clear_unstarted(&self, persisted: bool) -> bool {
+        let guard = self.inner.lazy_spawn.lock().unwrap();
+        let Some(lazy) = guard.as_ref() else {
+            return false;
+        };
+        if persisted
+            && let Some(store) = &lazy.config.store
+            && let Err(e) = store.clear()
+        {
+            warn!(error = %e, "failed to clear artifact store");
+        }
+        true
     }
 
     /// Returns whether the runtime is enabled.
-- 
2.43.0


From 549fd5b868836c540f696bc861a26afcc198e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:41 +0000
Subject: [PATCH 13/17] fix: block de-duplication fingerprints immediates at
 fixed width

Leading zero bytes of an immediate were dropped without a length, so the
immediate of one block could read as the instructions of another: PUSH3
0x5f5f80 was merged with PUSH3 0; PUSH0; PUSH0; DUP1.
---
 crates/revmc-codegen/src/bytecode/passes/dedup.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/dedup.rs b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
index ac0d70d..a3860cd 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dedup.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
@@ -203,11 +203,8 @@ fn block_fingerprint(insts: &IndexVec<Inst, InstData>, block: &BlockData) -> Sma
         let data = &insts[i];
         buf.push(data.opcode);
         if data.imm_len() > 0 {
-            let mut imm = &data.data.to_ne_bytes()[..];
-            while let [0, rest @ ..] = imm {
-                imm = rest;
-            }
-            buf.extend_from_slice(imm);
+            // Fixed width, so that an immediate can never be read as following instructions.
+            buf.extend_from_slice(&data.data.to_ne_bytes());
         }
     }
     buf
-- 
2.43.0


From d1882707f43be9efd4fd6897bc60cdc0fef45633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:20 +0000
Subject: [PATCH 14/17] fix: gas sections can cost more than u32::MAX

With a gas schedule override the folded dynamic cost of EXP can exceed 32
bits; the section was then charged u32::MAX.
---
 crates/revmc-codegen/src/bytecode/fmt.rs       |  4 ++--
 .../src/bytecode/passes/sections.rs            | 18 ++++++++++++++----
 .../src/compiler/translate/mod.rs              |  2 +-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/fmt.rs b/crates/revmc-codegen/src/bytecode/fmt.rs
index 1e23163..e73aef6 100644
--- a/crates/revmc-codegen/src/bytecode/fmt.rs
+++ b/crates/revmc-codegen/src/bytecode/fmt.rs
@@ -129,7 +129,7 @@ impl Bytecode<'_> {
                 write!(comment, "ic={:>ic_width$}", inst.index()).unwrap();
                 write!(comment, " pc={:>pc_width$}", self.pc(inst)).unwrap();
                 if !data.gas_section.is_empty() {
-                    write!(comment, " gas={}", data.gas_section.gas_cost).unwrap();
+                    write!(comment, " gas={}", data.gas_section.total_gas_cost()).unwrap();
                 }
                 if inst != block.insts.start && data.is_stack_section_head() {
                     write!(
@@ -422,7 +422,7 @@ impl<'a> Bytecode<'a> {
                 let mut op_str =
                     abbreviate_hex(&opcode.to_string()).replace('>', "\\>").replace('<', "\\<");
                 if !data.gas_section.is_empty() {
-                    write!(op_str, " [g={}]", data.gas_section.gas_cost).unwrap();
+                    write!(op_str, " [g={}]", data.gas_section.total_gas_cost()).unwrap();
                 }
                 write!(w, "{op_str}\\l")?;
             }
diff --git a/crates/revmc-codegen/src/bytecode/passes/sections.rs b/crates/revmc-codegen/src/bytecode/passes/sections.rs
index 40adb3b..f165261 100644
--- a/crates/revmc-codegen/src/bytecode/passes/sections.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/sections.rs
@@ -11,6 +11,9 @@ use revm_primitives::U256;
 pub(crate) struct GasSection {
     /// The total base gas cost of all instructions in the section.
     pub(crate) gas_cost: u32,
+    /// The part of the cost that does not fit in `gas_cost`, e.g. because of a gas schedule
+    /// override.
+    pub(crate) excess_gas_cost: u64,
 }
 
 impl fmt::Debug for GasSection {
@@ -18,7 +21,7 @@ impl fmt::Debug for GasSection {
         if self.is_empty() {
             f.write_str("GasSection::EMPTY")
         } else {
-            f.debug_struct("GasSection").field("gas_cost", &self.gas_cost).finish()
+            f.debug_struct("GasSection").field("gas_cost", &self.total_gas_cost()).finish()
         }
     }
 }
@@ -29,6 +32,12 @@ impl GasSection {
     pub(crate) fn is_empty(self) -> bool {
         self == Self::default()
     }
+
+    /// Returns the whole cost of the section.
+    #[inline]
+    pub(crate) fn total_gas_cost(self) -> u64 {
+        (self.gas_cost as u64).saturating_add(self.excess_gas_cost)
+    }
 }
 
 /// A stack section tracks stack height requirements for a sequence of instructions.
@@ -90,13 +99,13 @@ impl GasSectionAnalysis {
     /// Accumulates a base gas cost.
     #[inline]
     pub(crate) fn process(&mut self, base_gas: u16) {
-        self.gas_cost += base_gas as u64;
+        self.gas_cost = self.gas_cost.saturating_add(base_gas as u64);
     }
 
     /// Accumulates extra gas (e.g. pre-computed dynamic gas for folded instructions).
     #[inline]
     pub(crate) fn process_extra(&mut self, gas: u64) {
-        self.gas_cost += gas;
+        self.gas_cost = self.gas_cost.saturating_add(gas);
     }
 
     fn save_to_reset(&mut self, bytecode: &mut Bytecode<'_>, next_section_inst: Inst) {
@@ -132,7 +141,8 @@ impl GasSectionAnalysis {
 
     /// Returns the current gas section.
     pub(crate) fn section(&self) -> GasSection {
-        GasSection { gas_cost: self.gas_cost.try_into().unwrap_or(u32::MAX) }
+        let gas_cost = self.gas_cost.try_into().unwrap_or(u32::MAX);
+        GasSection { gas_cost, excess_gas_cost: self.gas_cost - gas_cost as u64 }
     }
 }
 
diff --git a/crates/revmc-codegen/src/compiler/translate/mod.rs b/crates/revmc-codegen/src/compiler/translate/mod.rs
index 13f2bb1..6be0ec4 100644
--- a/crates/revmc-codegen/src/compiler/translate/mod.rs
+++ b/crates/revmc-codegen/src/compiler/translate/mod.rs
@@ -574,7 +574,7 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
         }
 
         // Pay static gas for the current section.
-        self.gas_cost_imm(data.gas_section.gas_cost as u64);
+        self.gas_cost_imm(data.gas_section.total_gas_cost());
 
         // Compute len_before for this instruction.
         // At section heads: load from the alloca once and reset the section offset.
-- 
2.43.0


From 04b87afa75b602abe8d3bef5159adf0eecb717aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:06 +0000
Subject: [PATCH 15/17] fix: builtins are defined before others rely on them

define_builtins released its lock between noting a builtin as defined and
defining it, so a compilation on another thread could skip the definition and
fail to link ("Failed to materialize symbols").
---
 crates/revmc-llvm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-llvm/src/lib.rs b/crates/revmc-llvm/src/lib.rs
index 1257eb0..9894e62 100644
--- a/crates/revmc-llvm/src/lib.rs
+++ b/crates/revmc-llvm/src/lib.rs
@@ -334,7 +334,8 @@ impl GlobalOrcJit {
                 )
             })
             .collect();
-        drop(defined);
+        // Keep the lock until the symbols are defined: others skip the names in `defined`, and
+        // link against them right away.
         if !new_syms.is_empty()
             && let Err((e, _)) =
                 self.builtins_jd.define(orc::MaterializationUnit::absolute_symbols(new_syms))
-- 
2.43.0


From 34a32fa686866ee4dce279b3d0276214d9e405e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:30 +0000
Subject: [PATCH 16/17] fix: blockchain tests check the access list of every
 block

The access list builder was taken at the end of the first block and never
put back, so that the lists of the later blocks were not compared.
---
 crates/revmc-statetest/src/btest/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-statetest/src/btest/mod.rs b/crates/revmc-statetest/src/btest/mod.rs
index 3ff662d..57c23b7 100644
--- a/crates/revmc-statetest/src/btest/mod.rs
+++ b/crates/revmc-statetest/src/btest/mod.rs
@@ -907,7 +907,8 @@ fn execute_blockchain_test(
         // insert present block hash.
         state.block_hashes.insert(block_env.number.to::<u64>(), block_hash.unwrap_or_default());
 
-        if let Some(bal) = state.bal_state.bal_builder.take() {
+        // The next block starts with an empty access list.
+        if let Some(bal) = state.bal_state.bal_builder.replace(Bal::new()) {
             if let Some(state_bal) = bal_test {
                 if &bal != state_bal.as_ref() {
                     println!("Bal mismatch");
-- 
2.43.0


From ab4483bdfd6cff2a599e5eb0ac7d478b77180d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:57 +0000
Subject: [PATCH 17/17] fix: a library's code is used for the entry-point
 contract only

load_from_library registered the one symbol of the library as the code of
every contract in the fixture, so that calls to the others ran the entry
point's code.
---
 crates/revmc-cli/src/fixture.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-cli/src/fixture.rs b/crates/revmc-cli/src/fixture.rs
index a87903a..25ea8fa 100644
--- a/crates/revmc-cli/src/fixture.rs
+++ b/crates/revmc-cli/src/fixture.rs
@@ -193,7 +193,8 @@ impl PreparedBench {
 
     /// Load a benchmark from a pre-compiled shared library instead of JIT-compiling.
     ///
-    /// The `symbol_name` is looked up in the library for each non-empty contract bytecode.
+    /// The library holds the entry-point contract under `symbol_name`; the other contracts are
+    /// interpreted.
     /// The caller must keep `_lib` alive as long as the returned `PreparedBench` is used.
     pub fn load_from_library(
         bench: &Bench,
@@ -206,9 +207,8 @@ impl PreparedBench {
 
         let lib = unsafe { libloading::Library::new(lib_path) }.expect("failed to load library");
         let mut functions = B256Map::default();
-        let mut seen = HashSet::new();
         for acct in &accounts {
-            if acct.bytecode.is_empty() || !seen.insert(acct.code_hash) {
+            if acct.bytecode.is_empty() || tx.kind.to() != Some(&acct.address) {
                 continue;
             }
             let f: libloading::Symbol<'_, revmc::EvmCompilerFn> =
-- 
2.43.0

