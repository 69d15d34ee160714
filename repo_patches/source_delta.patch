From cd2921efbf5dcc141aa5738714b79d915531c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 01/30] fix: fraos: reading a record number past the end never
 overflows

---
 fraos/src/seqno.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index be3b673..b2dd440 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -88,7 +88,10 @@ impl SeqNoIndex {
         &self,
         seqno: usize,
     ) -> Result<Option<(usize, usize)>, FraosError> {
-        let offset = seqno * Self::SIZE_OF_USIZE * 2;
+        let offset = match seqno.checked_mul(Self::SIZE_OF_USIZE * 2) {
+            None => return Ok(None),
+            Some(offset) => offset,
+        };
 
         let result = self.inner.get_data(offset, |mmap| {
             let mut offset_buffer = [0u8; Self::SIZE_OF_USIZE];
-- 
2.43.0


From 6975f2d5ea6f98da96878a8db85b92e24c24a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 02/30] fix: fraos: dropping one handle does not cut the files
 under the other handles and iterators

---
 fraos/src/appender.rs | 9 +++++++++
 fraos/src/database.rs | 7 -------
 fraos/src/flatfile.rs | 4 ----
 fraos/src/seqno.rs    | 4 ----
 4 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/fraos/src/appender.rs b/fraos/src/appender.rs
index 85cd50e..f8fd42e 100644
--- a/fraos/src/appender.rs
+++ b/fraos/src/appender.rs
@@ -111,4 +111,13 @@ impl Appender {
     }
 }
 
+// The files are cut to the actual data size only when nobody uses them anymore: clones of the
+// database and iterators share the appender, and accessing a mapped page behind the end of the
+// file is an error.
+impl Drop for Appender {
+    fn drop(&mut self) {
+        let _ = self.shrink_to_size();
+    }
+}
+
 unsafe impl Sync for Appender {}
diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 1860907..886df8d 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -161,13 +161,6 @@ impl Database {
     }
 }
 
-impl Drop for Database {
-    fn drop(&mut self) {
-        let _ = self.seqno_index.shrink_to_size();
-        let _ = self.flatfile.shrink_to_size();
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::Database;
diff --git a/fraos/src/flatfile.rs b/fraos/src/flatfile.rs
index 3804d4b..a7ab0c3 100644
--- a/fraos/src/flatfile.rs
+++ b/fraos/src/flatfile.rs
@@ -77,10 +77,6 @@ impl FlatFile {
         self.inner.memory_size()
     }
 
-    pub fn shrink_to_size(&self) -> Result<(), FraosError> {
-        self.inner.shrink_to_size()
-    }
-
     #[allow(unused)]
     pub(crate) fn mmaps_count(&self) -> Result<usize, FraosError> {
         self.inner.mmaps_count()
diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index b2dd440..ece5e89 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -140,10 +140,6 @@ impl SeqNoIndex {
         self.get_offset_and_length(self.len().saturating_sub(1))
     }
 
-    pub fn shrink_to_size(&self) -> Result<(), FraosError> {
-        self.inner.shrink_to_size()
-    }
-
     #[allow(unused)]
     pub(crate) fn mmaps_count(&self) -> Result<usize, FraosError> {
         self.inner.mmaps_count()
-- 
2.43.0


From 63fb453a275a7b43a0ae6089f54a03b25e317f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 03/30] fix: fraos: a failed append leaves the log as it was

---
 fraos/src/growable_mmap.rs  | 30 +++++++++++++++++++++++-------
 fraos/src/index_on_mmaps.rs |  4 ++++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/fraos/src/growable_mmap.rs b/fraos/src/growable_mmap.rs
index 39bfcb3..f044b85 100644
--- a/fraos/src/growable_mmap.rs
+++ b/fraos/src/growable_mmap.rs
@@ -185,16 +185,32 @@ impl GrowableMmap {
         match storage_guard.active_map.as_mut() {
             None => return Err(FraosError::DataFileDamaged),
             Some(active_mmap) => {
-                f(&mut active_mmap.mmap.as_mut()[start_write_from..])?;
-
-                active_mmap
-                    .mmap
-                    .flush()
-                    .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))?;
+                let written =
+                    f(&mut active_mmap.mmap.as_mut()[start_write_from..]).and_then(|()| {
+                        active_mmap
+                            .mmap
+                            .flush()
+                            .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))
+                    });
+
+                if let Err(err) = written {
+                    // nothing was appended: take back the space and what was written there
+                    active_mmap.mmap.as_mut()[start_write_from..start_write_from + extension]
+                        .fill(0);
+                    active_mmap.bounds.remove_last();
+                    if active_mmap.bounds.is_empty() {
+                        storage_guard.active_map = None;
+                    }
+                    return Err(err);
+                }
             }
         }
 
-        self.rearrange_mmaps(storage_guard)
+        // The data is already appended. If the mmaps can't be merged now it's done after one of the
+        // next appends.
+        let _ = self.rearrange_mmaps(storage_guard);
+
+        Ok(())
     }
 
     pub fn get_ref_and_apply<F, U>(&self, address: usize, f: F) -> Result<Option<U>, FraosError>
diff --git a/fraos/src/index_on_mmaps.rs b/fraos/src/index_on_mmaps.rs
index a94b156..46b6dc1 100644
--- a/fraos/src/index_on_mmaps.rs
+++ b/fraos/src/index_on_mmaps.rs
@@ -134,6 +134,10 @@ impl MmapChunkAddressMapper {
         Ok(())
     }
 
+    pub fn remove_last(&mut self) {
+        self.relative_internal_bounds.pop();
+    }
+
     #[allow(unused)]
     pub fn is_empty(&self) -> bool {
         self.size() == 0
-- 
2.43.0


From 1a88901fa06075723ac86911b30ac96ee1a2e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 04/30] fix: fraos: what a died process left unsynchronized is
 synchronized before it is built upon

---
 fraos/src/appender.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fraos/src/appender.rs b/fraos/src/appender.rs
index f8fd42e..7d79922 100644
--- a/fraos/src/appender.rs
+++ b/fraos/src/appender.rs
@@ -42,6 +42,13 @@ impl Appender {
                 .open(&path)
                 .map_err(|err| FraosError::FileError(FileError::FileOpen(path.clone(), err)))?;
 
+            // A process that died may have left data that was written but not synchronized yet.
+            // What is added from now on relies on it, so it must not get lost before.
+            if writable {
+                file.sync_all()
+                    .map_err(|err| FraosError::FileError(FileError::FileOpen(path.clone(), err)))?;
+            }
+
             Some(file)
         } else {
             None
-- 
2.43.0


From b379d6b1c67f78259f6ce1313d99532e894d1ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 05/30] fix: fraos: an iterator kept after the last handle was
 closed does not cut the files later

---
 fraos/src/appender.rs |  9 ---------
 fraos/src/database.rs | 21 +++++++++++++++++++++
 fraos/src/flatfile.rs |  4 ++++
 fraos/src/seqno.rs    |  4 ++++
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/fraos/src/appender.rs b/fraos/src/appender.rs
index 7d79922..91e9ff0 100644
--- a/fraos/src/appender.rs
+++ b/fraos/src/appender.rs
@@ -118,13 +118,4 @@ impl Appender {
     }
 }
 
-// The files are cut to the actual data size only when nobody uses them anymore: clones of the
-// database and iterators share the appender, and accessing a mapped page behind the end of the
-// file is an error.
-impl Drop for Appender {
-    fn drop(&mut self) {
-        let _ = self.shrink_to_size();
-    }
-}
-
 unsafe impl Sync for Appender {}
diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 886df8d..58013d8 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -11,6 +11,7 @@ pub struct Database {
     flatfile: Arc<FlatFile>,
     seqno_index: Arc<SeqNoIndex>,
     write_lock: Arc<Mutex<()>>,
+    _shrink: Arc<ShrinkOnClose>,
 }
 
 impl Database {
@@ -62,11 +63,16 @@ impl Database {
         let flatfile = Arc::new(FlatFile::new(flatfile_path, existing_length, writable)?);
 
         let write_lock = Arc::new(Mutex::new(()));
+        let shrink = Arc::new(ShrinkOnClose {
+            flatfile: flatfile.clone(),
+            seqno_index: seqno_index.clone(),
+        });
 
         Ok(Database {
             flatfile,
             seqno_index,
             write_lock,
+            _shrink: shrink,
         })
     }
 
@@ -161,6 +167,21 @@ impl Database {
     }
 }
 
+/// Shared by all clones of a database: the files are cut to the actual data size once the last
+/// one is dropped. Iterators do not take part, they never access anything behind that size and may
+/// outlive the database.
+struct ShrinkOnClose {
+    flatfile: Arc<FlatFile>,
+    seqno_index: Arc<SeqNoIndex>,
+}
+
+impl Drop for ShrinkOnClose {
+    fn drop(&mut self) {
+        let _ = self.seqno_index.shrink_to_size();
+        let _ = self.flatfile.shrink_to_size();
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::Database;
diff --git a/fraos/src/flatfile.rs b/fraos/src/flatfile.rs
index a7ab0c3..3804d4b 100644
--- a/fraos/src/flatfile.rs
+++ b/fraos/src/flatfile.rs
@@ -77,6 +77,10 @@ impl FlatFile {
         self.inner.memory_size()
     }
 
+    pub fn shrink_to_size(&self) -> Result<(), FraosError> {
+        self.inner.shrink_to_size()
+    }
+
     #[allow(unused)]
     pub(crate) fn mmaps_count(&self) -> Result<usize, FraosError> {
         self.inner.mmaps_count()
diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index ece5e89..b2dd440 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -140,6 +140,10 @@ impl SeqNoIndex {
         self.get_offset_and_length(self.len().saturating_sub(1))
     }
 
+    pub fn shrink_to_size(&self) -> Result<(), FraosError> {
+        self.inner.shrink_to_size()
+    }
+
     #[allow(unused)]
     pub(crate) fn mmaps_count(&self) -> Result<usize, FraosError> {
         self.inner.mmaps_count()
-- 
2.43.0


From a6b191d30e7a2fe6ae443f27d54a4229c99a3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:09 +0000
Subject: [PATCH 06/30] fix: indexed-log-map: concurrent inserts of one key
 leave the key at its latest value

---
 indexed-log-map/src/storage.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/indexed-log-map/src/storage.rs b/indexed-log-map/src/storage.rs
index f1bc521..7dd8e3a 100644
--- a/indexed-log-map/src/storage.rs
+++ b/indexed-log-map/src/storage.rs
@@ -77,14 +77,22 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         match index {
             None => Err(anyhow!("Value is not inserted")),
             Some(position) => {
+                let encoded_position = deps::serde_json::to_vec(&position)
+                    .context("we should always be able to encode")?;
+                // another thread may have inserted a later value for the same key already
                 self.key_to_seqno
                     .as_ref()
                     .unwrap()
-                    .insert(
-                        serialized_key.as_slice(),
-                        deps::serde_json::to_vec(&position)
-                            .context("we should always be able to encode")?,
-                    )
+                    .fetch_and_update(serialized_key.as_slice(), |current| {
+                        let current: Option<usize> =
+                            current.and_then(|pos| deps::serde_json::from_slice(pos).ok());
+                        match current {
+                            Some(current) if current > position => {
+                                deps::serde_json::to_vec(&current).ok()
+                            }
+                            _ => Some(encoded_position.clone()),
+                        }
+                    })
                     .context("can't insert key mapping into index")?;
                 Ok(())
             }
-- 
2.43.0


From df98f9f7f9671e0e2b3044e658ac4836db44b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 07/30] fix: multiverse: the ordered traversal visits all
 variants of a block number

---
 multiverse/src/visitor/depth_ordered.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/visitor/depth_ordered.rs b/multiverse/src/visitor/depth_ordered.rs
index 330628d..8d5988e 100644
--- a/multiverse/src/visitor/depth_ordered.rs
+++ b/multiverse/src/visitor/depth_ordered.rs
@@ -32,7 +32,9 @@ where
             let (bn, set) = self.tree.iter_mut().next()?;
             let bn = *bn;
 
-            if let Some(entry_ref) = set.drain().next() {
+            if let Some(entry_ref) = set.iter().next().cloned() {
+                // only take this one: its siblings are still to be visited
+                set.remove(&entry_ref);
                 let entry = self.inner.all.get(&entry_ref)?;
                 return Some(&entry.value);
             }
-- 
2.43.0


From 5070fca6f7a4e691b1ffddb8057d224b3b89dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 08/30] fix: multiverse: a removed variant is no parent
 anymore, also when somebody holds its key

---
 multiverse/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7acbbe8..11ead2f 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -413,6 +413,14 @@ where
             return Err(MultiverseError::NotFound);
         };
 
+        // the children are left without a parent, even if someone else still holds a reference to
+        // the key we are removing
+        for child in &entry.children {
+            if let Some(child) = self.all.get_mut(child) {
+                child.parent = EntryWeakRef::new();
+            }
+        }
+
         if self.roots.remove(key) {
             // Removing the entry makes all the children "orphaned". So they
             // need to become root themselves. Iterate through all the children
-- 
2.43.0


From 78dea06a0bff422b2f1e985f3b50f675c5019d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 09/30] fix: core: MicroAlgo::to_algo gives Algo

---
 core/src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index d0c1eaf..6adf106 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -363,7 +363,7 @@ impl Value<algo::MicroAlgo> {
     }
 
     #[inline]
-    pub fn to_algo(&self) -> Value<evm::Ether> {
+    pub fn to_algo(&self) -> Value<algo::Algo> {
         Value {
             value: scale(&self.value, algo::ALGO_MICRO_SCALE_FACTOR),
             phantom_data: PhantomData,
-- 
2.43.0


From 426d174c2fef587c122827d0b43dcbb9c908a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 10/30] fix: refuse a change output that the excess cannot pay
 for

The balancer returned a change output with a negative value when the excess was
smaller than the fee of that output.
---
 .../src/algorithms/balance_change_single_output.rs          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utxo-selection/src/algorithms/balance_change_single_output.rs b/utxo-selection/src/algorithms/balance_change_single_output.rs
index e04a411..cb76287 100644
--- a/utxo-selection/src/algorithms/balance_change_single_output.rs
+++ b/utxo-selection/src/algorithms/balance_change_single_output.rs
@@ -110,6 +110,12 @@ impl InputSelectionAlgorithm for SingleOutputChangeBalancer {
         };
 
         let fee_for_change = estimator.fee_for_output(&change)?;
+        if change.value < fee_for_change {
+            return Err(anyhow!(
+                "there's lack of main asset selected, can't pay for the change output: {}",
+                fee_for_change
+            ));
+        }
         change.value -= &fee_for_change;
         fee += &fee_for_change;
 
-- 
2.43.0


From 72c5bf53615747ab019ca184cc70de925ca986ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 11/30] fix: offer the inputs given to
 RandomImprove::set_available_inputs

The indices of the previous inputs were kept, so new inputs were not offered, or
indices out of bounds were used.
---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 26a32c4..6465a4e 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -47,7 +47,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         &mut self,
         available_inputs: Vec<Self::InputUtxo>,
     ) -> anyhow::Result<()> {
-        let _available_indices = BTreeSet::from_iter(0..available_inputs.len());
+        self.available_indices = BTreeSet::from_iter(0..available_inputs.len());
         self.available_inputs = available_inputs;
         Ok(())
     }
-- 
2.43.0


From de9dc335eb5ee099e9c98a10d312f485778a559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 12/30] fix: find tokens by their fingerprint in RandomImprove

Tokens were looked up under the text "policy:name", which is not a fingerprint, so
no input was selected for them and the result did not cover the outputs.
---
 .../src/algorithms/random_improve.rs          | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 6465a4e..bc9d21e 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -73,18 +73,20 @@ impl InputSelectionAlgorithm for RandomImprove {
         let mut rng = rand::thread_rng();
         let mut policy_ids_to_asset_names = asset_output_balance
             .values()
-            .map(|asset: &TransactionAsset| (asset.policy_id.clone(), asset.asset_name.clone()))
-            .collect::<Vec<(PolicyId, AssetName)>>();
-        policy_ids_to_asset_names.sort_by(
-            |left: &(PolicyId, AssetName), right: &(PolicyId, AssetName)| match left.0.cmp(&right.0)
-            {
-                Ordering::Equal => left.1.cmp(&right.1),
-                x => x,
-            },
-        );
+            .map(|asset: &TransactionAsset| {
+                (
+                    asset.policy_id.clone(),
+                    asset.asset_name.clone(),
+                    asset.fingerprint.clone(),
+                )
+            })
+            .collect::<Vec<(PolicyId, AssetName, TokenId)>>();
+        policy_ids_to_asset_names.sort_by(|left, right| match left.0.cmp(&right.0) {
+            Ordering::Equal => left.1.cmp(&right.1),
+            x => x,
+        });
 
-        for (policy_id, asset_name) in policy_ids_to_asset_names.iter() {
-            let token = TokenId::new(format!("{policy_id}:{asset_name}"));
+        for (_, _, token) in policy_ids_to_asset_names.iter() {
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
                 &mut self.available_indices,
@@ -97,14 +99,14 @@ impl InputSelectionAlgorithm for RandomImprove {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 |value: &UTxOBuilder| {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 &mut rng,
-- 
2.43.0


From e38db5cd530f953080ac6eca191bc72137568db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 13/30] fix: select inputs for the fee in RandomImprove

The last phase, which adds inputs for the fee, stopped as soon as the outputs alone
were covered.
---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index bc9d21e..06e1966 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -133,7 +133,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // Phase 3: add extra inputs needed for fees (not covered by CIP-2)
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
-        while input_balance < output_balance {
+        while input_balance < &output_balance + &fee {
             if self.available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-- 
2.43.0


From 82959cf24c19ee43ac78825f69542f7ddc76be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 14/30] fix: keep the inputs available after a failed
 RandomImprove selection

A failed selection took the inputs it had tried out of the available ones.
---
 utxo-selection/src/algorithms/random_improve.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 06e1966..3d51b4f 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -69,6 +69,8 @@ impl InputSelectionAlgorithm for RandomImprove {
         let explicit_outputs = input_output_setup.fixed_outputs.clone();
 
         let mut chosen_indices = HashSet::<usize>::new();
+        // only a successful selection takes inputs out of the available ones
+        let mut available_indices = self.available_indices.clone();
 
         let mut rng = rand::thread_rng();
         let mut policy_ids_to_asset_names = asset_output_balance
@@ -89,7 +91,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         for (_, _, token) in policy_ids_to_asset_names.iter() {
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
-                &mut self.available_indices,
+                &mut available_indices,
                 &explicit_outputs,
                 estimator,
                 &mut asset_input_balance,
@@ -118,7 +120,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // add in remaining ADA
         let ada_chosen_indices = select_input_and_update_balances(
             &self.available_inputs,
-            &mut self.available_indices,
+            &mut available_indices,
             &explicit_outputs,
             estimator,
             &mut asset_input_balance,
@@ -134,15 +136,14 @@ impl InputSelectionAlgorithm for RandomImprove {
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
         while input_balance < &output_balance + &fee {
-            if self.available_indices.is_empty() {
+            if available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-            let i = *self
-                .available_indices
+            let i = *available_indices
                 .iter()
-                .nth(rng.gen_range(0..self.available_indices.len()))
+                .nth(rng.gen_range(0..available_indices.len()))
                 .unwrap();
-            self.available_indices.remove(&i);
+            available_indices.remove(&i);
             let input = &self.available_inputs[i];
             let input_fee = estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
@@ -161,6 +162,8 @@ impl InputSelectionAlgorithm for RandomImprove {
             chosen_indices.insert(i);
         }
 
+        self.available_indices = available_indices;
+
         Ok(InputSelectionResult {
             fixed_inputs: input_output_setup.fixed_inputs,
             fixed_outputs: input_output_setup.fixed_outputs,
-- 
2.43.0


From a5aa998e8e98b563aff96fe1b7f2d0dfd3507eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 15/30] fix: keep the inputs of equal outputs apart in
 RandomImprove

The inputs were stored under the output itself, so equal outputs shared them and each
counted all of them: the totals and the fee were too high, and inputs were missing.
An output that needs nothing had no entry and made the selection fail.
---
 .../src/algorithms/random_improve.rs          | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 3d51b4f..a7b2ce0 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -7,7 +7,7 @@ use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
     available_inputs: Vec<UTxODetails>,
@@ -219,14 +219,15 @@ where
         .cloned()
         .collect::<Vec<usize>>();
 
-    let mut associated_indices: BTreeMap<UTxOBuilder, Vec<usize>> = BTreeMap::new();
     let mut outputs = explicit_outputs
         .iter()
         .filter(|output| by_output(output).is_some())
         .cloned()
         .collect::<Vec<UTxOBuilder>>();
     outputs.sort_by_key(|output| by_output(output).expect("filtered above"));
-    for output in outputs.iter().rev() {
+    // the inputs of each output, by its position: two outputs can be equal
+    let mut associated_indices: Vec<Vec<usize>> = vec![vec![]; outputs.len()];
+    for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()).rev() {
         // TODO: how should we adapt this to inputs being associated when running for other assets?
         // if we do these two phases for each asset and don't take into account the other runs for other assets
         // then we over-add (and potentially fail if we don't have plenty of inputs)
@@ -255,19 +256,13 @@ where
             let input = &available_inputs[i];
             added +=
                 &by_input(input).expect("do not call on asset types that aren't in the output");
-            associated_indices
-                .entry(output.clone())
-                .or_default()
-                .push(i);
+            associated.push(i);
         }
     }
 
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
-        for output in outputs.iter_mut() {
-            let associated = associated_indices
-                .get_mut(output)
-                .ok_or_else(|| anyhow!("Associated index by output key not found"))?;
+        for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -297,12 +292,8 @@ where
     }
 
     // after finalizing the improvement we need to actually add these results to the builder
-    for output in outputs.iter() {
-        for i in associated_indices
-            .get(output)
-            .ok_or_else(|| anyhow!("Transaction output key not found"))?
-            .iter()
-        {
+    for associated in associated_indices.iter() {
+        for i in associated.iter() {
             let input = &available_inputs[*i];
             let input_fee = &estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
-- 
2.43.0


From 78e866e5e5aa522b8e1c8401fb6acf7ec3531de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 16/30] fix: keep outputs covered when RandomImprove swaps
 their inputs

The improvement phase compared the main coin of single inputs only, so a swap could
leave less of the token, or of the main coin, than the output needs.
---
 utxo-selection/src/algorithms/random_improve.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index a7b2ce0..a08376b 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -263,6 +263,12 @@ where
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
         for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
+            let needed = by_output(output)
+                .ok_or_else(|| anyhow!("Transaction output proper amount is not found"))?;
+            let mut added = associated
+                .iter()
+                .filter_map(|i| by_input(&available_inputs[*i]))
+                .fold(dcspark_core::Value::zero(), |sum, value| sum + value);
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -271,6 +277,10 @@ where
                 let should_improve = {
                     let input = &available_inputs[*i];
                     let new_input = &available_inputs[*j];
+                    // the output has to stay covered
+                    let new_added = &added - &by_input(input).unwrap_or_default()
+                        + &by_input(new_input).unwrap_or_default();
+                    let still_covered = new_added >= needed;
                     let cur = input.value.raw().to_u64().unwrap();
                     let new = new_input.value.raw().to_u64().unwrap();
                     let min = output.value.raw().to_u64().unwrap();
@@ -280,9 +290,10 @@ where
                         (ideal as i128 - new as i128).abs() < (ideal as i128 - cur as i128).abs();
                     let not_exceed_max = new < max;
 
-                    move_closer && not_exceed_max
+                    (move_closer && not_exceed_max && still_covered).then_some(new_added)
                 };
-                if should_improve {
+                if let Some(new_added) = should_improve {
+                    added = new_added;
                     available_indices.insert(*i);
                     available_indices.remove(j);
                     std::mem::swap(i, j);
-- 
2.43.0


From 96c2d588fa9845c4a42f4332351cf7b3afb21762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 17/30] fix: keep the tokens of a thermostat change that is not
 split

When a change held too little main coin to be split in two, half of its tokens had
already been taken out of it and were lost.
---
 utxo-selection/src/algorithms/thermostat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index d1f322c..3b4adf2 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -420,7 +420,7 @@ impl Thermostat {
                     if asset.quantity > pivot {
                         let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
                         *quantity = (quantity.clone() / 2).truncate();
-                        asset.quantity -= quantity.clone();
+                        let split_quantity = quantity.clone();
 
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
@@ -433,6 +433,7 @@ impl Thermostat {
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
+                        asset.quantity -= split_quantity;
                         new.value = &value - &fee_new;
                         change.value = &change.value - &new.value - &fee_for_output;
                         self.balance += &fee_for_output;
-- 
2.43.0


From a569c74199b89dcd3b20a6052e7820272bcce680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 18/30] fix: give back tokens of fixed inputs that the
 thermostat's store never held

The policy and name of the token were only looked up in the store of available UTxOs,
and the selection panicked for a token that only a fixed input has.
---
 utxo-selection/src/algorithms/thermostat.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 3b4adf2..1f3d638 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -43,6 +43,7 @@ pub struct Thermostat {
 
     balance: Balance<Regulated>,
     asset_balance: HashMap<TokenId, Balance<Regulated>>,
+    input_assets: HashMap<TokenId, TransactionAsset>,
     config: ThermostatAlgoConfig,
     available_utxos: UTxOStore,
 }
@@ -61,6 +62,7 @@ impl Thermostat {
             selected_inputs_value: Value::zero(),
             balance: Balance::Balanced,
             asset_balance: HashMap::new(),
+            input_assets: HashMap::new(),
             config,
             available_utxos: Default::default(),
         }
@@ -308,6 +310,12 @@ impl Thermostat {
                     let (policy_id, asset_name) = utxos
                         .get_asset_ids(&asset)
                         .cloned()
+                        .or_else(|| {
+                            // the asset of a fixed input might not be in the store
+                            self.input_assets
+                                .get(&asset)
+                                .map(|a| (a.policy_id.clone(), a.asset_name.clone()))
+                        })
                         .expect("Always expect to retrieve the policy_id/asset_name");
 
                     entry.assets.push(TransactionAsset {
@@ -570,6 +578,7 @@ impl Thermostat {
         self.selected_inputs_value = Value::zero();
         self.balance = Balance::Balanced;
         self.asset_balance = HashMap::new();
+        self.input_assets = HashMap::new();
     }
 }
 
@@ -599,6 +608,7 @@ impl InputSelectionAlgorithm for Thermostat {
     ) -> anyhow::Result<InputSelectionResult<Self::InputUtxo, Self::OutputUtxo>> {
         self.reset();
         self.outputs = input_output_setup.fixed_outputs.clone();
+        self.input_assets = input_output_setup.input_asset_balance.clone();
         for (token, asset) in input_output_setup.input_asset_balance.iter() {
             *self
                 .asset_balance
-- 
2.43.0


From 71f2cb0f9099f0f61a2707134a08f9447c821410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 19/30] fix: refuse thermostat selections that do not pay the
 required fee

Building the changes after the inputs were selected could leave less than the required
fee, or a debt. The first was returned as a success, the second failed only after the
selected inputs had been taken out of the available ones.
---
 utxo-selection/src/algorithms/thermostat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 1f3d638..5a37b60 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -566,6 +566,11 @@ impl Thermostat {
 
         self.balance_excess(estimator)?;
         self.split_accumulators(&utxos, estimator)?;
+
+        // building the changes can use up what the fee needs
+        if self.current_balance(estimator)?.in_debt() {
+            return Err(anyhow!("Unbalanced ada"));
+        }
         self.available_utxos = utxos;
         Ok(())
     }
-- 
2.43.0


From e6f27de769bd43b309fc69676243bc15af9404a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 20/30] fix: count the slots of an epoch by the era's slot
 length

---
 blockchain-source/src/cardano/time.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/cardano/time.rs b/blockchain-source/src/cardano/time.rs
index 68dc94f..2851b91 100644
--- a/blockchain-source/src/cardano/time.rs
+++ b/blockchain-source/src/cardano/time.rs
@@ -55,16 +55,22 @@ impl Era {
         self.known_time + (slot - self.first_slot) * self.slot_length
     }
 
+    // `epoch_length_seconds` is a duration, the number of slots in an epoch depends on how long a
+    // slot of the era is
+    const fn slots_per_epoch(&self) -> u64 {
+        self.epoch_length_seconds / self.slot_length
+    }
+
     pub fn absolute_slot_to_epoch(&self, slot: u64) -> Option<u64> {
         slot.checked_sub(self.first_slot)
             .map(|slot_relative_to_era| {
-                self.start_epoch + slot_relative_to_era / self.epoch_length_seconds
+                self.start_epoch + slot_relative_to_era / self.slots_per_epoch()
             })
     }
 
     pub fn absolute_slot_to_relative(&self, slot: u64) -> Option<u64> {
         slot.checked_sub(self.first_slot)
-            .map(|slot_relative_to_era| slot_relative_to_era % self.epoch_length_seconds)
+            .map(|slot_relative_to_era| slot_relative_to_era % self.slots_per_epoch())
     }
 }
 
-- 
2.43.0


From da99fe52e4c845b95c4c197d08dc1007f71f33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 21/30] fix: let the pull of the first confirmed block be
 repeated

---
 blockchain-source/src/multiverse/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blockchain-source/src/multiverse/mod.rs b/blockchain-source/src/multiverse/mod.rs
index 9d33e16..ec88d6d 100644
--- a/blockchain-source/src/multiverse/mod.rs
+++ b/blockchain-source/src/multiverse/mod.rs
@@ -109,6 +109,12 @@ where
                         // checking if the block belongs to the same branch right now.
                         return Ok(Some(confirmed));
                     } else if let Some(from) = from {
+                        if parent.is_none() && from != &confirmed_point {
+                            // the confirmed block is the first one of the multiverse, so what
+                            // `from` points at is not stored: it is where the first pull started
+                            return Ok(Some(confirmed));
+                        }
+
                         anyhow::ensure!(
                             from == &confirmed_point,
                             "non continuous pull not supported yet"
-- 
2.43.0


From d8469e40b700f1408201cc0a675f249857650f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 22/30] fix: do not panic on the first block pulled without a
 starting point

---
 blockchain-source/src/multiverse/rollback.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 5abf862..2bf2fd1 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -209,10 +209,16 @@ where
                 .pop()
                 .expect("no common ancestor between branches")
         } else {
-            // if the db is empty, send a rollback event to the `from` argument, just to be
-            // safe
-            self.events.push(Event::InnerEvent(block));
-            Event::Rollback(from.as_ref().unwrap().clone())
+            match from {
+                // if the db is empty, send a rollback event to the `from` argument, just to be
+                // safe
+                Some(from) => {
+                    self.events.push(Event::InnerEvent(block));
+                    Event::Rollback(from.clone())
+                }
+                // there is no position to go back to when starting from the beginning
+                None => Event::InnerEvent(block),
+            }
         };
 
         Ok(Some(new_event))
-- 
2.43.0


From ed05a27f55ed2f03de238663d584d9a7617da112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 23/30] fix: roll back to the starting position when a fork
 begins there

---
 blockchain-source/src/multiverse/rollback.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 2bf2fd1..0dec2c8 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -25,6 +25,9 @@ pub struct ForkHandlingSource<K, V, InnerSource, Event> {
     confirmed: Option<K>,
     last: Option<K>,
     events: Vec<Event>,
+    // where the first pull started: the parent of the first block, which is not in the multiverse,
+    // and the event that goes back to it
+    origin: Option<(K, Event)>,
 }
 
 impl<K, V, InnerSource, E> ForkHandlingSource<K, V, InnerSource, E> {
@@ -59,6 +62,7 @@ impl<K, V, InnerSource, E> ForkHandlingSource<K, V, InnerSource, E> {
             confirmed: selected.map(|k| k.inner().clone()),
             last,
             events: Default::default(),
+            origin: None,
         }
     }
 
@@ -178,6 +182,9 @@ where
             //
             // If it is, we push a rollback event to this block on the stack.
             //
+            // If the branches have no block in common, but both start where the first pull
+            // started, we push a rollback event to that position on the stack.
+            //
             // Then events are popped until the stack is empty.
             let mut blocks_in_previous_branch = HashSet::new();
 
@@ -199,6 +206,12 @@ where
                 current_branch_cursor = entry.parent_id().clone();
             }
 
+            if let Some((parent, Event::Rollback(from))) = &self.origin {
+                if parent == &previous_branch_cursor && parent == &current_branch_cursor {
+                    self.events.push(Event::Rollback(from.clone()));
+                }
+            }
+
             // this will always be a rollback event.
             //
             // if it's empty, it probably means the confirmation depth is not big enough, in which
@@ -213,6 +226,7 @@ where
                 // if the db is empty, send a rollback event to the `from` argument, just to be
                 // safe
                 Some(from) => {
+                    self.origin = Some((parent_id, Event::Rollback(from.clone())));
                     self.events.push(Event::InnerEvent(block));
                     Event::Rollback(from.clone())
                 }
-- 
2.43.0


From 1ebc73e194f33d5f6671b1466c8d90760117afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 24/30] fix: cover all of a token an output lists in parts in
 RandomImprove

---
 utxo-selection/src/algorithms/random_improve.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index a08376b..016713a 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -98,18 +98,22 @@ impl InputSelectionAlgorithm for RandomImprove {
                 &mut input_balance,
                 &mut fee,
                 |value: &UTxODetails| {
+                    // a token can be listed more than once
                     value
                         .assets
                         .iter()
-                        .find(|asset| &asset.fingerprint == token)
+                        .filter(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
+                        .reduce(|sum, quantity| sum + quantity)
                 },
                 |value: &UTxOBuilder| {
+                    // a token can be listed more than once
                     value
                         .assets
                         .iter()
-                        .find(|asset| &asset.fingerprint == token)
+                        .filter(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
+                        .reduce(|sum, quantity| sum + quantity)
                 },
                 &mut rng,
             )?;
-- 
2.43.0


From 5ff998f1a6b72e4ca83b39407e1b2e0977330f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 25/30] fix: report a block that cannot be read instead of
 panicking

---
 blockchain-source/src/cardano/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blockchain-source/src/cardano/event.rs b/blockchain-source/src/cardano/event.rs
index 8a038d4..7ea012b 100644
--- a/blockchain-source/src/cardano/event.rs
+++ b/blockchain-source/src/cardano/event.rs
@@ -106,7 +106,7 @@ impl<Tip> GetNextFrom for CardanoNetworkEvent<BlockEvent, Tip> {
 impl BlockEvent {
     pub(crate) fn from_serialized_block(raw_block: &[u8], era: &Era) -> anyhow::Result<Self> {
         let block = cml_multi_era::MultiEraBlock::from_explicit_network_cbor_bytes(raw_block)
-            .expect("failed to deserialize block");
+            .map_err(|error| anyhow!("failed to deserialize block: {error:?}"))?;
         let header = &block.header();
         Ok(BlockEvent {
             raw_block: raw_block.to_vec(),
-- 
2.43.0


From b9e6c1c0273120a59badb02636e5cc4f7d6dba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 26/30] fix: accept a tip update pace longer than the machine
 has been up

---
 blockchain-source/src/cardano/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/blockchain-source/src/cardano/mod.rs b/blockchain-source/src/cardano/mod.rs
index a653160..301da43 100644
--- a/blockchain-source/src/cardano/mod.rs
+++ b/blockchain-source/src/cardano/mod.rs
@@ -171,10 +171,8 @@ async fn request_handler(
     network_config: NetworkConfiguration,
     config: NetworkDescription,
 ) {
-    // initially set this to a time in the past, which guarantees an event in the tip fetch.
-    let mut last_tip_event = Instant::now()
-        .checked_sub(tip_update_pace)
-        .expect("overflow when substracting from Instant::now");
+    // there is none initially, which guarantees an event in the tip fetch.
+    let mut last_tip_event: Option<Instant> = None;
 
     let mut handle = Some(handle);
 
@@ -236,7 +234,7 @@ async fn block_fetch(
     handle: &mut NetworkHandle,
     from: Vec<Point>,
     channel: &mpsc::Sender<Result<Event, anyhow::Error>>,
-    last_tip_event: &mut Instant,
+    last_tip_event: &mut Option<Instant>,
     tip_update_pace: Duration,
     network_config: &NetworkConfiguration,
     ignore_first_block: bool,
@@ -274,7 +272,7 @@ async fn block_fetch(
         return Ok(());
     }
 
-    if last_tip_event.elapsed() >= tip_update_pace {
+    if last_tip_event.map_or(true, |last| last.elapsed() >= tip_update_pace) {
         if channel
             .send(Ok(CardanoNetworkEvent::Tip(tip.clone())))
             .await
@@ -283,7 +281,7 @@ async fn block_fetch(
             debug!("can't send tip event, request response channel was closed");
         };
 
-        *last_tip_event = Instant::now();
+        *last_tip_event = Some(Instant::now());
     }
 
     info!(%from, %tip, "making block range request");
-- 
2.43.0


From fc705a55db827ee39318381827a743713380f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 27/30] fix: pull the genesis block before it has a successor

---
 blockchain-source/src/cardano/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blockchain-source/src/cardano/mod.rs b/blockchain-source/src/cardano/mod.rs
index 301da43..3421c2c 100644
--- a/blockchain-source/src/cardano/mod.rs
+++ b/blockchain-source/src/cardano/mod.rs
@@ -267,7 +267,8 @@ async fn block_fetch(
         }
     };
 
-    if tip.point == from {
+    // with the first block not ignored, a tip that is the first block still has to be pulled.
+    if tip.point == from && ignore_first_block {
         info!("source is up to date, nothing to pull");
         return Ok(());
     }
-- 
2.43.0


From 9dd41909295d504ebcf2c95e63f2dafead56d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 28/30] fix: thermostat selection without an own input or
 output is no error

---
 utxo-selection/src/algorithms/thermostat.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 5a37b60..adb558d 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -74,14 +74,13 @@ impl Thermostat {
         &self,
         estimate: &mut Estimate,
     ) -> anyhow::Result<usize> {
-        let known_output = self
-            .outputs
-            .first()
-            .ok_or_else(|| anyhow!("can't estimate output fee"))?;
-        let known_input = self
-            .selected_inputs
-            .first()
-            .ok_or_else(|| anyhow!("can't estimate input fee"))?;
+        // without an output and a selected input there is nothing to measure
+        // the remaining room with: no extra input is added then
+        let (Some(known_output), Some(known_input)) =
+            (self.outputs.first(), self.selected_inputs.first())
+        else {
+            return Ok(0);
+        };
         let size_of_one_output = estimate
             .fee_for_output(known_output)?
             .to_usize()
-- 
2.43.0


From 8b94f266f1f7a2ba5c56bae64b9dc411b345297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 29/30] fix: add the metadata to the size of the thermostat's
 estimate

---
 utxo-selection/src/estimators/thermostat_estimator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/estimators/thermostat_estimator.rs b/utxo-selection/src/estimators/thermostat_estimator.rs
index e1cf5c5..9bc84db 100644
--- a/utxo-selection/src/estimators/thermostat_estimator.rs
+++ b/utxo-selection/src/estimators/thermostat_estimator.rs
@@ -91,7 +91,7 @@ impl ThermostatFeeEstimator {
 
     #[allow(unused)]
     pub fn add_protocol_magic(&mut self, protocol_magic: impl AsRef<str>) {
-        self.current_size = protocol_magic.as_ref().len() + 5;
+        self.current_size += protocol_magic.as_ref().len() + 5;
         self.cost_metadata = {
             let v = self
                 .network_info
-- 
2.43.0


From 74102e71512869eca3da513ea0cb8e4330a809dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 30/30] fix: sum a token that an output lists in parts when
 converting it for the ledger

---
 cardano-utils/src/utxo.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cardano-utils/src/utxo.rs b/cardano-utils/src/utxo.rs
index 62347c5..8b727e6 100644
--- a/cardano-utils/src/utxo.rs
+++ b/cardano-utils/src/utxo.rs
@@ -32,10 +32,7 @@ pub fn utxo_details_to_cml_input(
         cardano_multiplatform_lib::address::Address::from_bech32(details.address.as_ref())
             .map_err(|err| anyhow!("can't convert input during address conversion: {}", err))?;
 
-    let mut assets_map = HashMap::new();
-    details.assets.iter().for_each(|asset: &TransactionAsset| {
-        assets_map.insert(asset.fingerprint.clone(), asset.clone());
-    });
+    let assets_map = sum_assets(&details.assets);
 
     let value = tokens_to_csl_value(&details.value, &assets_map)
         .map_err(|err| anyhow!("can't convert value: {}", err))?;
@@ -103,6 +100,18 @@ pub fn utxo_details_from_io(
     })
 }
 
+/// a token can be listed more than once
+fn sum_assets(assets: &[TransactionAsset]) -> HashMap<TokenId, TransactionAsset> {
+    let mut assets_map = HashMap::<TokenId, TransactionAsset>::new();
+    for asset in assets {
+        assets_map
+            .entry(asset.fingerprint.clone())
+            .and_modify(|known| known.quantity += &asset.quantity)
+            .or_insert_with(|| asset.clone());
+    }
+    assets_map
+}
+
 fn value_to_csl_coin(value: &Value<Regulated>) -> anyhow::Result<Coin> {
     Ok(Coin::from(value.to_u64().ok_or_else(|| {
         anyhow!("Can't convert input balance to u64")
@@ -213,10 +222,7 @@ pub fn utxo_builder_to_cml_output(builder: &UTxOBuilder) -> anyhow::Result<Trans
         cardano_multiplatform_lib::address::Address::from_bech32(builder.address.as_ref())
             .map_err(|err| anyhow!("can't convert output during address conversion: {}", err))?;
 
-    let mut assets_map = HashMap::new();
-    builder.assets.iter().for_each(|asset: &TransactionAsset| {
-        assets_map.insert(asset.fingerprint.clone(), asset.clone());
-    });
+    let assets_map = sum_assets(&builder.assets);
 
     let value = tokens_to_csl_value(&builder.value, &assets_map)
         .map_err(|err| anyhow!("can't convert value: {}", err))?;
-- 
2.43.0

