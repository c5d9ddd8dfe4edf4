From 3184505bd1ec1096a80b89f0e14a5f89042d9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 1/7] fix: reject multiproofs deeper than a 64-bit generalized
 index can address

Below 63 levels the generalized indices of a proof's nodes wrap around in
release builds, so a node inside an attacker-chosen subtree can be reported
under the index of any field (e.g. the state root of a finalized block whose
graffiti is the root of such a subtree).
---
 ssz-multiproofs/src/multiproof.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index c4dbac6..08540d6 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -22,6 +22,9 @@ use crate::error::{Error, Result};
 
 const CHUNK_SIZE: usize = 32; // Size of each chunk in bytes, used for SSZ serialization
 
+/// Deepest tree level whose generalized indices still fit into 64 bits.
+const MAX_DEPTH: usize = u64::BITS as usize - 1;
+
 /// An abstraction around a SSZ merkle multi-proof
 ///
 /// This is deserializable and borrows its data to supports zero-copy deserialization.
@@ -198,6 +201,7 @@ fn calculate_compact_multi_merkle_root(
     stack_depth_hint: usize,
 ) -> Result<[u8; CHUNK_SIZE]> {
     let mut stack = Vec::with_capacity(stack_depth_hint);
+    let mut depth = 0;
     let mut node_index = 0;
     let mut hasher = Sha256::new();
     for bit in descriptor.iter() {
@@ -216,6 +220,7 @@ fn calculate_compact_multi_merkle_root(
                 let right = stack.pop().unwrap();
                 let left = stack.pop().unwrap();
                 stack.pop(); // pop the internal node and replace with the hashed children
+                depth -= 1;
 
                 match left {
                     TreeNode::Leaf(node) => hasher.update(node),
@@ -231,6 +236,11 @@ fn calculate_compact_multi_merkle_root(
                 stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
             }
         } else {
+            // the generalized indices of deeper nodes would overflow and alias other nodes
+            if depth == MAX_DEPTH {
+                return Err(Error::InvalidProof);
+            }
+            depth += 1;
             stack.push(TreeNode::Internal);
         }
     }
-- 
2.43.0


From 3b42846713fe0e221ca67745aa8be09be140ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 2/7] fix: reconstruct the first link that leaves the genesis
 consensus state

---
 core/src/consensus_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 057eb41..4dcba22 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -177,8 +177,10 @@ impl ConsensusState {
 
         // Case 2: Justification only (skipped epoch).
         // The source must be our previous `current_justified_checkpoint`.
+        // At genesis, the source is already finalized, so the next epoch is not skipped.
         ensure!(
-            target.epoch() - self.current_justified_checkpoint.epoch() > 1,
+            target.epoch() - self.current_justified_checkpoint.epoch() > 1
+                || self.current_justified_checkpoint == self.finalized_checkpoint,
             ConsensusError::InvalidTransition
         );
 
-- 
2.43.0


From 4427f6eaecff76479556b6937bd1756d1c28acca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 3/7] fix: report an invalid ABI-encoded consensus state as an
 error instead of panicking

---
 core/src/abi.rs             |  6 ++----
 core/src/consensus_state.rs | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/src/abi.rs b/core/src/abi.rs
index 2c86824..4aed8f0 100644
--- a/core/src/abi.rs
+++ b/core/src/abi.rs
@@ -14,7 +14,7 @@
 
 use alloy_sol_types::SolValue;
 
-use crate::{ConsensusError, ConsensusState, ensure};
+use crate::{ConsensusError, ConsensusState};
 
 // Defines the Solidity struct layouts for public types
 alloy_sol_types::sol! {
@@ -68,9 +68,7 @@ impl TryFrom<State> for crate::ConsensusState {
     type Error = ConsensusError;
 
     fn try_from(state: State) -> Result<Self, Self::Error> {
-        let state = ConsensusState::new(state.current_justified.into(), state.finalized.into());
-        ensure!(state.is_valid(), ConsensusError::InvalidState);
-        Ok(state)
+        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())
     }
 }
 
diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 4dcba22..056f678 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -64,6 +64,21 @@ impl ConsensusState {
         state
     }
 
+    /// Constructs a new `ConsensusState` or returns an error if the checkpoints form an invalid
+    /// state.
+    #[inline]
+    pub fn try_new(
+        current_justified_checkpoint: Checkpoint,
+        finalized_checkpoint: Checkpoint,
+    ) -> Result<Self, ConsensusError> {
+        let state = Self {
+            current_justified_checkpoint,
+            finalized_checkpoint,
+        };
+        ensure!(state.is_valid(), ConsensusError::InvalidState);
+        Ok(state)
+    }
+
     /// Returns the finalized checkpoint of the consensus state.
     #[inline]
     pub fn finalized_checkpoint(&self) -> Checkpoint {
-- 
2.43.0


From f7a56c89a73e2ec898c9c9f17489caca49697838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 4/7] fix: compare a patched exit epoch with the latest earlier
 patch of the validator

---
 core/src/input_reader/guest_input_reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index c018b3b..b04d0f9 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -285,10 +285,12 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 let validator = validators
                     .get(idx)
                     .expect("patched exit_epoch for missing validator");
+                // the most recent earlier patch of that validator, epochs may be skipped
                 let &prev_exit_epoch = self
                     .patches
-                    .get(&(patch_epoch - 1))
-                    .and_then(|p| p.validator_exits.get(idx))
+                    .range(..patch_epoch)
+                    .rev()
+                    .find_map(|(_, p)| p.validator_exits.get(idx))
                     .unwrap_or(&validator.exit_epoch);
 
                 // ignore not changing patches
-- 
2.43.0


From de62ae9b7a26bd8d1c12975719121f9c406c013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 5/7] fix: collect votes included up to the end of the epoch
 after the target

The host read blocks only up to the first slot of the epoch after the last
target, so votes included later in that epoch (allowed since EIP-7045) were
lost, and with them links that were justified late.
---
 host/src/input_reader/host_input_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/host/src/input_reader/host_input_reader.rs b/host/src/input_reader/host_input_reader.rs
index 059bcde..16b5e18 100644
--- a/host/src/input_reader/host_input_reader.rs
+++ b/host/src/input_reader/host_input_reader.rs
@@ -299,8 +299,8 @@ async fn collect_attestations_for_links<E: EthSpec, CR: ChainReader>(
     // The attestation must be no newer than MIN_ATTESTATION_INCLUSION_DELAY slots.
     // It is safe to ignore this and assume MIN_ATTESTATION_INCLUSION_DELAY = 0
     let start_slot = min_epoch * E::slots_per_epoch();
-    // The attestation must be no older than SLOTS_PER_EPOCH slots.
-    let end_slot = (max_epoch + 1) * E::slots_per_epoch();
+    // Since Deneb (EIP-7045), an attestation may be included until the end of the epoch after its target.
+    let end_slot = (max_epoch + 2) * E::slots_per_epoch() - 1;
 
     // 1. Fetch all blocks concurrently
     let block_futs =
-- 
2.43.0


From f8a7de8f03f3f45db2be6f1b257f3b8196f1527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 6/7] fix: write beacon state files atomically

A save interrupted by a crash or a full disk left a partial file under the
final name. It blocked every later read and save of that slot, and a file
cut at an element of the last list was even accepted as a different state.
---
 host/src/state_provider/file_provider.rs | 33 +++++++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index aa96b27..ff43d7e 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -16,8 +16,14 @@ use crate::beacon_state::mainnet::BeaconState;
 use crate::state_provider::{StateProvider, StateProviderError, StateRef};
 use anyhow::{Context, ensure};
 use beacon_types::EthSpec;
-use std::path::PathBuf;
-use std::{fs, marker::PhantomData};
+use std::{
+    fs,
+    io::{self, Write},
+    marker::PhantomData,
+    path::{Path, PathBuf},
+    process,
+    sync::atomic::{AtomicU64, Ordering},
+};
 use tracing::debug;
 use z_core::{Epoch, Slot};
 
@@ -48,8 +54,20 @@ impl<E: EthSpec> FileProvider<E> {
             file.display()
         );
         debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
-        fs::write(&file, ssz_rs::serialize(state)?)?;
-        Ok(())
+        // An interrupted write must not leave a partial state behind: write everything to a
+        // temporary file first and only then move it to its final name.
+        static COUNTER: AtomicU64 = AtomicU64::new(0);
+        let tmp_file = self.directory.join(format!(
+            "{slot}_beacon_state.{}-{}.tmp",
+            process::id(),
+            COUNTER.fetch_add(1, Ordering::Relaxed)
+        ));
+        let result = write_synced(&tmp_file, &ssz_rs::serialize(state)?)
+            .and_then(|_| fs::rename(&tmp_file, &file));
+        if result.is_err() {
+            let _ = fs::remove_file(&tmp_file);
+        }
+        Ok(result?)
     }
 
     pub fn clear_states_before(&self, epoch: Epoch) -> Result<(), anyhow::Error> {
@@ -77,6 +95,13 @@ impl<E: EthSpec> FileProvider<E> {
     }
 }
 
+/// Writes `bytes` to a new file and flushes them to disk.
+fn write_synced(path: &Path, bytes: &[u8]) -> io::Result<()> {
+    let mut file = fs::File::create(path)?;
+    file.write_all(bytes)?;
+    file.sync_all()
+}
+
 impl<E: EthSpec> StateProvider for FileProvider<E> {
     type Spec = E;
     fn state_at_slot(&self, slot: Slot) -> Result<StateRef, StateProviderError> {
-- 
2.43.0


From 0003efcb5525b64867000551e6e0c55cb396304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:59 +0000
Subject: [PATCH 7/7] fix: keep the recorded epochs when a guest input is built

to_input took the epochs whose validators and randomness the verification
had read, so an input built again (after a state could not be read, say)
had no state patches and was refused by the guest.
---
 host/src/input_reader/preflight_input_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/host/src/input_reader/preflight_input_reader.rs b/host/src/input_reader/preflight_input_reader.rs
index c4b600b..439e4e4 100644
--- a/host/src/input_reader/preflight_input_reader.rs
+++ b/host/src/input_reader/preflight_input_reader.rs
@@ -134,15 +134,15 @@ where
 
         info!("Building state patches");
         let mut patch_builder: BTreeMap<Epoch, StatePatchBuilder> = BTreeMap::new();
-        for (epoch, indices) in self.mix_epochs.take() {
+        for (&epoch, indices) in self.mix_epochs.borrow().iter() {
             let patch = patch_builder
                 .entry(epoch)
                 .or_insert(self.patch_builder(epoch)?);
-            for idx in indices {
+            for &idx in indices {
                 patch.randao_mix(idx)?;
             }
         }
-        for epoch in self.validator_epochs.take() {
+        for &epoch in self.validator_epochs.borrow().iter() {
             if epoch != self.trusted_checkpoint.epoch() {
                 let patch = patch_builder
                     .entry(epoch)
-- 
2.43.0

