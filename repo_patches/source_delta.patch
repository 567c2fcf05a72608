From a0727d20fe0ae3ea66a95980b89b4b9a0414439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:49 +0000
Subject: [PATCH 1/8] fix: avoid overflow when the block range ends in the last
 u64 epoch

---
 bin/portal-bridge/src/types/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/portal-bridge/src/types/range.rs b/bin/portal-bridge/src/types/range.rs
index bd279d6..9620601 100644
--- a/bin/portal-bridge/src/types/range.rs
+++ b/bin/portal-bridge/src/types/range.rs
@@ -23,7 +23,7 @@ pub fn block_range_to_epochs(start_block: u64, end_block: u64) -> HashMap<u64, O
     for epoch in start_epoch..=end_epoch {
         // Calculate the first and last block of the current epoch
         let epoch_first_block = epoch * SLOTS_PER_HISTORICAL_ROOT;
-        let epoch_last_block = epoch_first_block + SLOTS_PER_HISTORICAL_ROOT - 1;
+        let epoch_last_block = epoch_first_block + (SLOTS_PER_HISTORICAL_ROOT - 1);
 
         // Determine if the epoch is fully or partially covered
         if epoch_first_block >= start_block && epoch_last_block <= end_block {
-- 
2.43.0


From eb593f3dced7286aff32eaa784fcba58c4f8cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:04 +0000
Subject: [PATCH 2/8] fix: report malformed bridge block ranges as errors
 instead of panicking

---
 bin/portal-bridge/src/types/mode.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bin/portal-bridge/src/types/mode.rs b/bin/portal-bridge/src/types/mode.rs
index 4c8dc49..7c6cd6c 100644
--- a/bin/portal-bridge/src/types/mode.rs
+++ b/bin/portal-bridge/src/types/mode.rs
@@ -60,16 +60,16 @@ impl FromStr for ModeType {
         if s.is_empty() {
             return Err("Invalid bridge mode arg: empty string".to_string());
         }
-        match &s[..1] {
-            "r" => {
+        match s.get(..1) {
+            Some("r") => {
                 let range_vec = s[1..]
                     .split('-')
                     .map(|range_input| {
-                        range_input.parse().expect(
-                            "Range format invalid, expected backfill:rX-Y (eg. backfill:r10-100)",
-                        )
+                        range_input.parse().map_err(|_| {
+                            "Range format invalid, expected backfill:rX-Y (eg. backfill:r10-100)"
+                        })
                     })
-                    .collect::<Vec<u64>>();
+                    .collect::<Result<Vec<u64>, _>>()?;
 
                 if range_vec.len() != 2 {
                     return Err("Invalid bridge mode arg: expected 2 numbers in range".to_string());
-- 
2.43.0


From b3cf881756efaea50dfc0fa9be165618cd6d3715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:51:13 +0000
Subject: [PATCH 3/8] fix: refuse a proof slot beyond the historical roots
 instead of panicking

---
 crates/validation/src/header_validator.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/validation/src/header_validator.rs b/crates/validation/src/header_validator.rs
index c1dc9c9..2484a4e 100644
--- a/crates/validation/src/header_validator.rs
+++ b/crates/validation/src/header_validator.rs
@@ -308,15 +308,21 @@ impl HeaderValidator {
         let block_root_index = slot % SLOTS_PER_HISTORICAL_ROOT;
         let gen_index = 2 * SLOTS_PER_HISTORICAL_ROOT + block_root_index;
         let historical_root_index = slot / SLOTS_PER_HISTORICAL_ROOT;
-        let historical_root =
-            self.historical_roots_acc.historical_roots[historical_root_index as usize];
+        let Some(historical_root) = self
+            .historical_roots_acc
+            .historical_roots
+            .get(historical_root_index as usize)
+        else {
+            error!("Slot {slot} is not covered by historical roots");
+            return false;
+        };
 
         verify_merkle_proof(
             beacon_block_root,
             beacon_block_proof,
             14,
             gen_index as usize,
-            historical_root,
+            *historical_root,
         )
     }
 
-- 
2.43.0


From 7733275c2f9171fc1ac173b1409d60d558dd2edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:57:21 +0000
Subject: [PATCH 4/8] fix: refuse an archive entry shorter than its header
 instead of panicking

---
 crates/e2store/src/e2store/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/e2store/src/e2store/types.rs b/crates/e2store/src/e2store/types.rs
index b41becd..f74d9aa 100644
--- a/crates/e2store/src/e2store/types.rs
+++ b/crates/e2store/src/e2store/types.rs
@@ -57,6 +57,11 @@ impl Entry {
 
     /// Deserialize from a byte slice.
     pub fn deserialize(bytes: &[u8]) -> anyhow::Result<Self> {
+        ensure!(
+            bytes.len() >= Header::SERIALIZED_SIZE as usize,
+            "buf too short for entry header: {}",
+            bytes.len()
+        );
         let header = Header::deserialize(&bytes[0..8])?;
         if header.length as usize + Header::SERIALIZED_SIZE as usize != bytes.len() {
             return Err(anyhow!(
-- 
2.43.0


From d62d70ddf55ce1b49f7cb5d97c9a5a9ef98216b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:57:21 +0000
Subject: [PATCH 5/8] fix: refuse archive data ending in a truncated or
 oversized entry instead of panicking

---
 crates/e2store/src/e2store/memory.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/e2store/src/e2store/memory.rs b/crates/e2store/src/e2store/memory.rs
index 5eca438..3e85752 100644
--- a/crates/e2store/src/e2store/memory.rs
+++ b/crates/e2store/src/e2store/memory.rs
@@ -42,13 +42,20 @@ impl E2StoreMemory {
         let mut entries = Vec::new();
         let mut offset = 0;
         while offset < bytes.len() {
+            if bytes.len() - offset < Header::SERIALIZED_SIZE as usize {
+                return Err(anyhow!(
+                    "invalid buf length: {} - truncated header at {offset}",
+                    bytes.len()
+                ));
+            }
             let entry_length = u32::from_le_bytes([
                 bytes[offset + 2],
                 bytes[offset + 3],
                 bytes[offset + 4],
                 bytes[offset + 5],
-            ]) + Header::SERIALIZED_SIZE as u32;
-            let terminating_entry_index = offset + entry_length as usize;
+            ]) as usize
+                + Header::SERIALIZED_SIZE as usize;
+            let terminating_entry_index = offset + entry_length;
             if bytes.len() < terminating_entry_index {
                 return Err(anyhow!(
                     "invalid buf length: {} - expected {}",
@@ -57,7 +64,7 @@ impl E2StoreMemory {
                 ));
             }
             let entry = Entry::deserialize(&bytes[offset..terminating_entry_index])?;
-            offset += entry_length as usize;
+            offset += entry_length;
             entries.push(entry);
         }
         Ok(Self { entries })
-- 
2.43.0


From ace9e2b7e79d1dfadacf65d82e4e5c6d95299754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:37:17 +0000
Subject: [PATCH 6/8] fix: do not allocate more than the received bytes for an
 announced content length

---
 crates/portalnet/src/utils/portal_wire.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/portalnet/src/utils/portal_wire.rs b/crates/portalnet/src/utils/portal_wire.rs
index 3f524bc..f7528bc 100644
--- a/crates/portalnet/src/utils/portal_wire.rs
+++ b/crates/portalnet/src/utils/portal_wire.rs
@@ -12,8 +12,10 @@ fn decode_next_content_item(reader: &mut Reader<Bytes>) -> io::Result<Option<Byt
     // Read LEB128 index
     let varint = read_varint(reader)?;
 
-    // Read the content item
-    let mut buf = BytesMut::zeroed(varint as usize);
+    // Read the content item. Reading fails if there are fewer bytes left than announced, in which
+    // case there is no need to set aside all the announced bytes.
+    let remaining = reader.get_ref().len();
+    let mut buf = BytesMut::zeroed((varint as usize).min(remaining + 1));
     reader.read_exact(&mut buf)?;
     Ok(Some(buf.freeze().into()))
 }
-- 
2.43.0


From 44d56add7fe3fc8f6b477bd8b876ea8f7c7b1282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:50 +0000
Subject: [PATCH 7/8] fix: do not count content again when it is already stored

---
 crates/storage/src/versioned/ephemeral_v1/store.rs  | 7 +++++--
 crates/storage/src/versioned/id_indexed_v1/store.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/storage/src/versioned/ephemeral_v1/store.rs b/crates/storage/src/versioned/ephemeral_v1/store.rs
index 75a0921..bcf4b5e 100644
--- a/crates/storage/src/versioned/ephemeral_v1/store.rs
+++ b/crates/storage/src/versioned/ephemeral_v1/store.rs
@@ -155,7 +155,7 @@ impl<TContentKey: OverlayContentKey> EphemeralV1Store<TContentKey> {
         let content_size = Self::calculate_content_size(&content_id, &content_key, &content_value);
 
         let insert_timer = self.metrics.start_process_timer("insert");
-        self.config.sql_connection_pool.get()?.execute(
+        let inserted_rows = self.config.sql_connection_pool.get()?.execute(
             &sql::insert(&self.config.content_type),
             named_params! {
                 ":content_id": content_id,
@@ -168,7 +168,10 @@ impl<TContentKey: OverlayContentKey> EphemeralV1Store<TContentKey> {
         )?;
         self.metrics.stop_process_timer(insert_timer);
 
-        self.usage_stats.on_store(content_size);
+        // Content that is already stored is left as it is, and must not be counted again.
+        if inserted_rows > 0 {
+            self.usage_stats.on_store(content_size);
+        }
         self.usage_stats.report_metrics(&self.metrics);
 
         Ok(())
diff --git a/crates/storage/src/versioned/id_indexed_v1/store.rs b/crates/storage/src/versioned/id_indexed_v1/store.rs
index f848597..725720d 100644
--- a/crates/storage/src/versioned/id_indexed_v1/store.rs
+++ b/crates/storage/src/versioned/id_indexed_v1/store.rs
@@ -268,7 +268,7 @@ impl<TContentKey: OverlayContentKey, TMetric: Metric> IdIndexedV1Store<TContentK
         let content_size = Self::calculate_content_size(&content_id, &content_key, &content_value);
 
         let insert_timer = self.metrics.start_process_timer("insert");
-        self.config.sql_connection_pool.get()?.execute(
+        let inserted_rows = self.config.sql_connection_pool.get()?.execute(
             &sql::insert(&self.config.content_type),
             named_params! {
                 ":content_id": content_id,
@@ -280,7 +280,10 @@ impl<TContentKey: OverlayContentKey, TMetric: Metric> IdIndexedV1Store<TContentK
         )?;
         self.metrics.stop_process_timer(insert_timer);
 
-        self.usage_stats.on_store(content_size);
+        // Content that is already stored is left as it is, and must not be counted again.
+        if inserted_rows > 0 {
+            self.usage_stats.on_store(content_size);
+        }
         self.usage_stats.report_metrics(&self.metrics);
 
         let dropped_content = if self.pruning_strategy.should_prune(&self.usage_stats) {
-- 
2.43.0


From 8235aba4c32b6f53c863f3b3eb8f89f7e9b79c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:35 +0000
Subject: [PATCH 8/8] fix: check sync committee signatures under the fork of
 the preceding slot

The sync committee signs the block of the slot before the signature slot, so
the signature domain uses the fork version of that earlier slot. Updates
signed in the first slot of a fork were rejected.
---
 crates/light-client/src/consensus/consensus_client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/light-client/src/consensus/consensus_client.rs b/crates/light-client/src/consensus/consensus_client.rs
index 52e907a..42450a0 100644
--- a/crates/light-client/src/consensus/consensus_client.rs
+++ b/crates/light-client/src/consensus/consensus_client.rs
@@ -263,7 +263,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
             &update,
             expected_current_slot,
             self.config.chain.genesis_root,
-            self.config.fork_version(update.signature_slot),
+            self.config
+                .fork_version(update.signature_slot.saturating_sub(1)),
         )
     }
 
@@ -275,7 +276,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
             &update,
             expected_current_slot,
             self.config.chain.genesis_root,
-            self.config.fork_version(update.signature_slot),
+            self.config
+                .fork_version(update.signature_slot.saturating_sub(1)),
         )
     }
 
@@ -287,7 +289,8 @@ impl<R: ConsensusRpc> ConsensusLightClient<R> {
             &update,
             expected_current_slot,
             self.config.chain.genesis_root,
-            self.config.fork_version(update.signature_slot),
+            self.config
+                .fork_version(update.signature_slot.saturating_sub(1)),
         )
     }
 
-- 
2.43.0

