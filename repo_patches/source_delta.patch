From fa967f30054bbb4b937d3efea526677c456b0827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 01/29] fix: object delta queries return nothing for an object
 without changes

internal_triple_additions_o and internal_triple_removals_o seek to the
nearest object that has changes, and returned the triples of that object
when the requested one had none. The file based variants already check
the object; do the same here.
---
 src/layer/internal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index dfb342f..895242d 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -416,7 +416,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_additions_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
@@ -437,7 +438,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_removals_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
-- 
2.43.0


From 268e3fc6cd03f9b221afd1efaaabbdf82f07c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 02/29] fix: predicate queries for id 0 yield nothing

Id 0 is never assigned, but it is used as a marker for subjects without
triples in the predicate wavelet tree, so querying it returned (possibly
repeated) triples of other predicates.
---
 src/layer/internal/mod.rs | 8 ++++++++
 src/storage/layer.rs      | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index 895242d..7aabab7 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -372,6 +372,10 @@ impl InternalLayer {
         &self,
         predicate: u64,
     ) -> OptInternalLayerTriplePredicateIterator {
+        if predicate == 0 {
+            // ids start at 1. in the wavelet tree, 0 marks subjects without triples.
+            return OptInternalLayerTriplePredicateIterator(None);
+        }
         match self.pos_predicate_wavelet_tree().lookup(predicate) {
             Some(lookup) => OptInternalLayerTriplePredicateIterator(Some(
                 InternalLayerTriplePredicateIterator::new(
@@ -389,6 +393,10 @@ impl InternalLayer {
         &self,
         predicate: u64,
     ) -> OptInternalLayerTriplePredicateIterator {
+        if predicate == 0 {
+            // ids start at 1. in the wavelet tree, 0 marks subjects without triples.
+            return OptInternalLayerTriplePredicateIterator(None);
+        }
         match (
             self.neg_predicate_wavelet_tree()
                 .and_then(|t| t.lookup(predicate)),
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 97c669d..e5f36c3 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -2596,6 +2596,10 @@ pub(crate) async fn file_triple_iterator_by_predicate<F: FileLoad + FileStore>(
     let width = s_p_aj.nums().width();
     let wavelet_bits = predicate_wavelet_maps.into();
     let wtree = WaveletTree::from_parts(wavelet_bits, width);
+    if predicate == 0 {
+        // ids start at 1. in the wavelet tree, 0 marks subjects without triples.
+        return Ok(OptInternalLayerTriplePredicateIterator(None));
+    }
     Ok(match wtree.lookup(predicate) {
         Some(lookup) => OptInternalLayerTriplePredicateIterator(Some(
             InternalLayerTriplePredicateIterator::new(lookup, subjects, s_p_aj, sp_o_aj),
-- 
2.43.0


From 59521014dcd651713809ca38d8ac197e0672b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 03/29] fix: build the predicate id map of a bounded rollup
 from predicate id maps

---
 src/storage/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 033c510..aa0e97b 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -195,7 +195,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
             layer
                 .immediate_layers_upto(memory_upto)
                 .into_iter()
-                .map(|l| l.node_value_id_map().clone()),
+                .map(|l| l.predicate_id_map().clone()),
         )
         .collect();
 
-- 
2.43.0


From 0c89c7dc5969c33565c3463e4924b02bd92ce1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 04/29] fix: allow a bounded rollup of a layer that has a full
 rollup

---
 src/storage/layer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index e5f36c3..115ab4b 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1770,7 +1770,10 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            // a rollup without a parent is a full rollup, which is never equivalent.
+            if self.layer_has_parent(rollup).await?
+                && upto == self.read_parent_file(rollup).await?
+            {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
@@ -1805,7 +1808,10 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            // a rollup without a parent is a full rollup, which is never equivalent.
+            if self.layer_has_parent(rollup).await?
+                && upto == self.read_parent_file(rollup).await?
+            {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
-- 
2.43.0


From 6e6b8a8e7dd9522ce9f53929df7f59d3805aad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 05/29] fix: bounded rollup of a layer whose loaded rollup
 spans past the bound

---
 src/storage/delta.rs | 54 ++++++++++++++++++++------------------------
 src/storage/layer.rs |  6 ++---
 2 files changed, 26 insertions(+), 34 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index aa0e97b..aa9b045 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -139,6 +139,16 @@ async fn get_predicate_idmaps_from_disk<S: LayerStore>(
     Ok(result)
 }
 
+/// The in-memory layers above the given bound. When the bound is the
+/// layer itself, everything has to come from disk.
+fn memory_layers_upto(layer: &InternalLayer, bound: [u32; 5]) -> Vec<&InternalLayer> {
+    if layer.name() == bound {
+        Vec::new()
+    } else {
+        layer.immediate_layers_upto(bound)
+    }
+}
+
 async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore>(
     store: &S,
     layer: &InternalLayer,
@@ -151,52 +161,32 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let disk_value_dicts = get_value_dicts_from_disk(store, memory_upto, upto).await?;
     let disk_node_value_idmaps = get_node_value_idmaps_from_disk(store, memory_upto, upto).await?;
     let disk_predicate_idmaps = get_predicate_idmaps_from_disk(store, memory_upto, upto).await?;
+    let memory_layers = memory_layers_upto(layer, memory_upto);
     let node_dicts: Vec<_> = disk_node_dicts
         .into_iter()
-        .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
-                .map(|l| l.node_dictionary().clone()),
-        )
+        .chain(memory_layers.iter().map(|l| l.node_dictionary().clone()))
         .collect();
     let predicate_dicts: Vec<_> = disk_predicate_dicts
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
+            memory_layers
+                .iter()
                 .map(|l| l.predicate_dictionary().clone()),
         )
         .collect();
     let value_dicts: Vec<_> = disk_value_dicts
         .into_iter()
-        .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
-                .map(|l| l.value_dictionary().clone()),
-        )
+        .chain(memory_layers.iter().map(|l| l.value_dictionary().clone()))
         .collect();
 
     let node_value_idmaps: Vec<_> = disk_node_value_idmaps
         .into_iter()
-        .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
-                .map(|l| l.node_value_id_map().clone()),
-        )
+        .chain(memory_layers.iter().map(|l| l.node_value_id_map().clone()))
         .collect();
 
     let predicate_idmaps: Vec<_> = disk_predicate_idmaps
         .into_iter()
-        .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
-                .map(|l| l.predicate_id_map().clone()),
-        )
+        .chain(memory_layers.iter().map(|l| l.predicate_id_map().clone()))
         .collect();
 
     merge_string_dictionaries(node_dicts.iter(), files.node_dictionary_files.clone()).await?;
@@ -396,9 +386,13 @@ pub async fn delta_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore>
     .await?;
 
     let disk_changes = store.layer_changes_upto(bound, upto).await?;
-    let memory_changes =
-        InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found");
-    let changes = InternalTripleStackIterator::merge(vec![disk_changes, memory_changes]);
+    let changes = if layer.name() == bound {
+        disk_changes
+    } else {
+        let memory_changes =
+            InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found");
+        InternalTripleStackIterator::merge(vec![disk_changes, memory_changes])
+    };
     let additions = changes
         .clone()
         .filter(|(sort, _)| *sort == TripleChange::Addition)
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 115ab4b..7a3dcd5 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1771,8 +1771,7 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
             // a rollup without a parent is a full rollup, which is never equivalent.
-            if self.layer_has_parent(rollup).await?
-                && upto == self.read_parent_file(rollup).await?
+            if self.layer_has_parent(rollup).await? && upto == self.read_parent_file(rollup).await?
             {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
@@ -1809,8 +1808,7 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
 
             // get rollup parent. if it is the same as upto, we're requesting something equivalent.
             // a rollup without a parent is a full rollup, which is never equivalent.
-            if self.layer_has_parent(rollup).await?
-                && upto == self.read_parent_file(rollup).await?
+            if self.layer_has_parent(rollup).await? && upto == self.read_parent_file(rollup).await?
             {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
-- 
2.43.0


From 4ee9608cb7a721dba24e39f73715aea63dc52119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 06/29] fix: an imprecise rollup is a child of the layer it
 reaches

---
 src/storage/delta.rs | 2 +-
 src/storage/layer.rs | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index aa9b045..88bb3ba 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -5,7 +5,7 @@ use crate::layer::*;
 use crate::storage::*;
 use tdb_succinct::*;
 
-async fn safe_upto_bound<S: LayerStore>(
+pub(crate) async fn safe_upto_bound<S: LayerStore>(
     store: &S,
     layer: &InternalLayer,
     upto: [u32; 5],
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 7a3dcd5..0f55ede 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1815,6 +1815,13 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             }
         }
 
+        // the rollup covers what is loaded in memory, which may not reach as far as the
+        // requested bound. The rollup has to be a child of the layer it actually reaches.
+        let upto = safe_upto_bound(self, &layer, upto).await?;
+        if layer.name() == upto || layer.parent_name() == Some(upto) {
+            return Ok(layer.name());
+        }
+
         let (layer_dir, _parent_layer, child_layer_files) = self
             .create_child_layer_files_with_cache(upto, cache)
             .await?;
-- 
2.43.0


From 7b64d81ccade26cc640dff0d1013d78cf1407f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 07/29] fix: importing a pack only creates the layers it holds
 and leaves present layers alone

---
 src/storage/pack.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 88002a8..f488a96 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -68,8 +68,10 @@ impl<T: PersistentLayerStore> Packable for T {
         let mut layer_id_set = HashSet::new();
         for id in layer_ids {
             layer_id_set.insert(name_to_string(id));
-            self.create_named_directory(id).await?;
         }
+        // Only layers that turn out to be in the pack, and which were not yet fully in the
+        // store, are created, written and finalized.
+        let mut imported = HashSet::new();
 
         let handle = tokio::runtime::Handle::current();
         tokio::task::block_in_place(|| {
@@ -112,7 +114,18 @@ impl<T: PersistentLayerStore> Packable for T {
                     let mut content = Vec::with_capacity(header.size()? as usize);
                     entry.read_to_end(&mut content)?;
 
-                    handle.block_on(async move {
+                    handle.block_on(async {
+                        if !self.directory_exists(layer_id_arr).await? {
+                            self.create_named_directory(layer_id_arr).await?;
+                        } else if self.file_exists(layer_id_arr, &file_name).await? {
+                            // layers never change, so we may already have this exact file.
+                            let existing = self.get_file(layer_id_arr, &file_name).await?;
+                            if existing.map().await? == content {
+                                return Ok(());
+                            }
+                        }
+                        imported.insert(layer_id_arr);
+
                         let file = self.get_file(layer_id_arr, &file_name).await?;
                         let mut writer = file.open_write().await?;
                         writer.write_all(&content).await?;
@@ -124,8 +137,7 @@ impl<T: PersistentLayerStore> Packable for T {
                 }
             }
 
-            for layer_id in layer_id_set {
-                let layer_id_arr = string_to_name(&layer_id).unwrap();
+            for layer_id_arr in imported {
                 handle.block_on(self.finalize_layer(layer_id_arr))?;
             }
 
-- 
2.43.0


From e700c48a1e66ec5301948bb07b176e3eaca9fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 08/29] fix: list the layers of directory and archive stores

---
 src/storage/archive.rs   | 23 ++++++++++----------
 src/storage/directory.rs | 47 ++++++++++++++++++++++++++++++----------
 2 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index d12b42f..a971519 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -35,6 +35,7 @@ use tdb_succinct::{
 
 use super::{
     consts::{LayerFileEnum, FILENAME_ENUM_MAP},
+    directory::{layer_name_from_entry, prefix_directories},
     locking::{ExclusiveLockedFile, LockedFile},
     name_to_string, string_to_name, FileLoad, FileStore, PersistentLayerStore, SyncableFile,
 };
@@ -223,19 +224,17 @@ impl ArchiveBackend for DirectoryArchiveBackend {
 #[async_trait]
 impl ArchiveMetadataBackend for DirectoryArchiveBackend {
     async fn get_layer_names(&self) -> io::Result<Vec<[u32; 5]>> {
-        let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            let os_name = direntry.file_name();
-            let name = os_name.to_str().ok_or_else(|| {
-                io::Error::new(
-                    io::ErrorKind::InvalidData,
-                    "unexpected non-utf8 directory name",
-                )
-            })?;
-            if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
-                let name_component = &name[..name.len() - 6];
-                result.push(string_to_name(name_component)?);
+        for (prefix, prefix_path) in prefix_directories(&self.path).await? {
+            let mut stream = fs::read_dir(prefix_path).await?;
+            while let Some(direntry) = stream.next_entry().await? {
+                let os_name = direntry.file_name();
+                let name = os_name.to_str().and_then(|n| n.strip_suffix(".larch"));
+                if let Some(name) = layer_name_from_entry(&prefix, name) {
+                    if direntry.file_type().await?.is_file() {
+                        result.push(name);
+                    }
+                }
             }
         }
 
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 723e8f1..e14cd7c 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -3,7 +3,7 @@
 use locking::*;
 use std::collections::HashMap;
 use std::io::{self, SeekFrom};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::fs;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -28,22 +28,47 @@ impl DirectoryLayerStore {
     }
 }
 
+/// List the directories which group layers by the first characters of their name.
+pub(crate) async fn prefix_directories(path: &Path) -> io::Result<Vec<(String, PathBuf)>> {
+    let mut stream = fs::read_dir(path).await?;
+    let mut result = Vec::new();
+    while let Some(direntry) = stream.next_entry().await? {
+        if let Some(prefix) = direntry.file_name().to_str() {
+            if prefix.len() == PREFIX_DIR_SIZE && direntry.file_type().await?.is_dir() {
+                result.push((prefix.to_owned(), direntry.path()));
+            }
+        }
+    }
+
+    Ok(result)
+}
+
+/// Interpret the name of an entry in a prefix directory as that of a layer. This returns none
+/// for anything that is not the exact name of a layer belonging in that directory.
+pub(crate) fn layer_name_from_entry(prefix: &str, entry: Option<&str>) -> Option<[u32; 5]> {
+    let entry = entry.filter(|e| e.is_ascii())?;
+    let name = string_to_name(entry).ok()?;
+    if entry.starts_with(prefix) && name_to_string(name) == entry {
+        Some(name)
+    } else {
+        None
+    }
+}
+
 #[async_trait]
 impl PersistentLayerStore for DirectoryLayerStore {
     type File = FileBackedStore;
     async fn directories(&self) -> io::Result<Vec<[u32; 5]>> {
-        let mut stream = fs::read_dir(&self.path).await?;
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            if direntry.file_type().await?.is_dir() {
+        for (prefix, prefix_path) in prefix_directories(&self.path).await? {
+            let mut stream = fs::read_dir(prefix_path).await?;
+            while let Some(direntry) = stream.next_entry().await? {
                 let os_name = direntry.file_name();
-                let name = os_name.to_str().ok_or_else(|| {
-                    io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        "unexpected non-utf8 directory name",
-                    )
-                })?;
-                result.push(string_to_name(name)?);
+                if let Some(name) = layer_name_from_entry(&prefix, os_name.to_str()) {
+                    if direntry.file_type().await?.is_dir() {
+                        result.push(name);
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 823693977fc119cbebf0a1302ecd1966185fec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 09/29] fix: report a failure to lock a file instead of
 panicking

---
 src/storage/locking.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index d55fe33..4b92c44 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -13,7 +13,7 @@ use tokio::task::{spawn_blocking, JoinHandle};
 
 pub struct LockedFileLockFuture {
     file: Option<std::fs::File>,
-    spawn: Option<JoinHandle<()>>,
+    spawn: Option<JoinHandle<io::Result<()>>>,
     exclusive: bool,
 }
 
@@ -41,31 +41,24 @@ impl Future for LockedFileLockFuture {
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<std::fs::File>> {
         if self.file.is_some() {
             if self.spawn.is_none() {
-                let file = self
-                    .file
-                    .as_ref()
-                    .unwrap()
-                    .try_clone()
-                    .expect("file clone failed");
+                let file = self.file.as_ref().unwrap().try_clone()?;
                 let exclusive = self.exclusive;
                 self.spawn = Some(spawn_blocking(move || {
                     if exclusive {
                         file.lock_exclusive()
-                            .expect("failed to acquire exclusive lock")
+                    } else if !cfg!(feature = "noreadlock") {
+                        file.lock_shared()
                     } else {
-                        if !cfg!(feature = "noreadlock") {
-                            file.lock_shared()
-                                .expect("failed to acquire exclusive lock")
-                        }
+                        Ok(())
                     }
                 }));
             }
 
             match Pin::new(&mut self.spawn.as_mut().unwrap()).poll(cx) {
-                Poll::Ready(Ok(_)) => {
+                Poll::Ready(Ok(result)) => {
                     let mut file = None;
                     std::mem::swap(&mut file, &mut self.file);
-                    Poll::Ready(Ok(file.unwrap()))
+                    Poll::Ready(result.map(|_| file.unwrap()))
                 }
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(_)) => {
-- 
2.43.0


From e30e1ca13ff0d52f2d7b03f327eab424a6ffb25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 10/29] fix: dropping a locked file while an operation on it is
 in flight does not panic

---
 src/storage/locking.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index 4b92c44..657b7ec 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -144,10 +144,11 @@ impl Drop for LockedFile {
         let mut file = None;
         std::mem::swap(&mut file, &mut self.file);
         if let Some(file) = file {
-            file.try_into_std()
-                .expect("could not convert tokio file into std")
-                .unlock()
-                .unwrap();
+            // If an operation on the file is still in flight (because whoever started it was
+            // cancelled), the lock is released when that operation lets go of the file.
+            if let Ok(file) = file.try_into_std() {
+                let _ = file.unlock();
+            }
         }
     }
 }
@@ -271,10 +272,11 @@ impl Drop for ExclusiveLockedFile {
         let mut file = None;
         std::mem::swap(&mut file, &mut self.file);
         if let Some(file) = file {
-            file.try_into_std()
-                .expect("could not convert tokio file into std")
-                .unlock()
-                .unwrap();
+            // If an operation on the file is still in flight (because whoever started it was
+            // cancelled), the lock is released when that operation lets go of the file.
+            if let Ok(file) = file.try_into_std() {
+                let _ = file.unlock();
+            }
         }
     }
 }
-- 
2.43.0


From e20e5fc90798a203ab342ce8ed307d404009b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 11/29] fix: create and update label files in one step

---
 src/storage/directory.rs | 184 ++++++++++++++++++++++++++++++---------
 src/storage/locking.rs   |  28 ++++++
 2 files changed, 171 insertions(+), 41 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index e14cd7c..8effab6 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -1,8 +1,9 @@
 //! Directory-based implementation of storage traits.
 
+use fs2::FileExt;
 use locking::*;
 use std::collections::HashMap;
-use std::io::{self, SeekFrom};
+use std::io;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::fs;
@@ -204,22 +205,111 @@ async fn get_label_from_file<P: Into<PathBuf>>(path: P) -> io::Result<Label> {
     get_label_from_data(label, &data)
 }
 
+/// Open and lock the file of a label for modification. Since label files are replaced rather than
+/// overwritten, this ensures that the locked file is still the file of the label.
 async fn get_label_from_exclusive_locked_file<P: Into<PathBuf>>(
     path: P,
 ) -> io::Result<(Label, ExclusiveLockedFile)> {
     let path: PathBuf = path.into();
     let label = path.file_stem().unwrap().to_str().unwrap().to_owned();
 
-    let mut file = ExclusiveLockedFile::open(path).await?;
+    let mut file = ExclusiveLockedFile::open(path.clone()).await?;
+    while !file.is_located_at(&path).await? {
+        file = ExclusiveLockedFile::open(path.clone()).await?;
+    }
     let mut data = Vec::new();
     file.read_to_end(&mut data).await?;
 
     let label = get_label_from_data(label, &data)?;
-    file.seek(SeekFrom::Start(0)).await?;
 
     Ok((label, file))
 }
 
+/// Ensure that changes to the entries of a directory are safely stored.
+async fn sync_directory(path: &Path) -> io::Result<()> {
+    if cfg!(unix) {
+        let mut options = fs::OpenOptions::new();
+        options.create(false);
+        options.read(true);
+        options.write(false);
+        let dir_fd = options.open(path).await?;
+        dir_fd.sync_all().await?;
+    }
+
+    Ok(())
+}
+
+/// Write and sync a new file with a unique name in the given directory.
+async fn write_temporary_file(directory: &Path, contents: &[u8]) -> io::Result<PathBuf> {
+    let path = directory.join(format!("{:016x}.tmp", rand::random::<u64>()));
+    let mut options = fs::OpenOptions::new();
+    options.create_new(true);
+    options.write(true);
+    let mut file = options.open(&path).await?;
+
+    let result = async {
+        file.write_all(contents).await?;
+        file.flush().await?;
+        file.sync_all().await
+    }
+    .await;
+    if let Err(e) = result {
+        let _ = fs::remove_file(&path).await;
+        return Err(e);
+    }
+
+    Ok(path)
+}
+
+/// Create a file with the given contents in one step. If it exists already, it is left alone, and
+/// an `AlreadyExists` error is returned.
+async fn create_file_atomically(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let directory = path.parent().expect("file path without a directory");
+    let temporary = write_temporary_file(directory, contents).await?;
+    let result = fs::hard_link(&temporary, path).await;
+    let _ = fs::remove_file(&temporary).await;
+    result?;
+
+    sync_directory(directory).await
+}
+
+/// Replace a locked file by a temporary file in one step, unless someone else removed or replaced
+/// it, in which case this returns false.
+///
+/// This is a blocking operation, so that the locks are held until the file has been replaced, even
+/// if whoever asked for it is no longer interested.
+fn replace_locked_file(
+    directory: &Path,
+    file: &std::fs::File,
+    path: &Path,
+    temporary: &Path,
+) -> io::Result<bool> {
+    let _directory_lock = lock_directory(directory)?;
+    match std::fs::metadata(path) {
+        Ok(at_path) if is_same_file(&file.metadata()?, &at_path) => {}
+        Ok(_) => return Ok(false),
+        Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(false),
+        Err(e) => return Err(e),
+    }
+    std::fs::rename(temporary, path)?;
+    if cfg!(unix) {
+        std::fs::File::open(directory)?.sync_all()?;
+    }
+
+    Ok(true)
+}
+
+/// Lock a directory, which is how updates and deletions of the labels in it exclude each other.
+fn lock_directory(path: &Path) -> io::Result<Option<std::fs::File>> {
+    if cfg!(unix) {
+        let directory = std::fs::File::open(path)?;
+        directory.lock_exclusive()?;
+        Ok(Some(directory))
+    } else {
+        Ok(None)
+    }
+}
+
 #[async_trait]
 impl LabelStore for DirectoryLabelStore {
     async fn labels(&self) -> io::Result<Vec<Label>> {
@@ -248,20 +338,13 @@ impl LabelStore for DirectoryLabelStore {
         let mut p = self.path.clone();
         p.push(format!("{}.label", label));
         let contents = "0\n\n".to_string().into_bytes();
-        match fs::metadata(&p).await {
-            Ok(_) => Err(io::Error::new(
-                io::ErrorKind::InvalidInput,
-                "database already exists",
-            )),
+        match create_file_atomically(&p, &contents).await {
+            Ok(()) => Ok(Label::new_empty(label)),
             Err(e) => match e.kind() {
-                io::ErrorKind::NotFound => {
-                    let mut file = ExclusiveLockedFile::create_and_open(p).await?;
-                    file.write_all(&contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
-
-                    Ok(Label::new_empty(label))
-                }
+                io::ErrorKind::AlreadyExists => Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "database already exists",
+                )),
                 _ => Err(e),
             },
         }
@@ -295,16 +378,29 @@ impl LabelStore for DirectoryLabelStore {
 
         let mut p = self.path.clone();
         p.push(format!("{}.label", label.name));
-        let (retrieved_label, mut file) = get_label_from_exclusive_locked_file(p).await?;
-        if retrieved_label == *label {
+        loop {
+            let (retrieved_label, file) = get_label_from_exclusive_locked_file(p.clone()).await?;
+            if retrieved_label != *label {
+                return Ok(None);
+            }
+
             // all good, let's a go
-            file.truncate().await?;
-            file.write_all(&contents).await?;
-            file.flush().await?;
-            file.sync_all().await?;
-            Ok(Some(new_label))
-        } else {
-            Ok(None)
+            let temporary = write_temporary_file(&self.path, &contents).await?;
+            let file = file.into_std().await;
+            let directory = self.path.clone();
+            let path = p.clone();
+            let replaced = tokio::task::spawn_blocking(move || {
+                let result = replace_locked_file(&directory, &file, &path, &temporary);
+                if !matches!(result, Ok(true)) {
+                    let _ = std::fs::remove_file(&temporary);
+                }
+                result
+            })
+            .await??;
+            if replaced {
+                return Ok(Some(new_label));
+            }
+            // the label was deleted in the meantime, and maybe created again.
         }
     }
 
@@ -312,22 +408,28 @@ impl LabelStore for DirectoryLabelStore {
         let mut p = self.path.clone();
         p.push(format!("{}.label", name));
 
-        // We're not locking here to remove the file. The assumption
-        // is that any concurrent operation that is done on the label
-        // file will not matter. If it is a label read, a concurrent
-        // operation will simply get the label contents, which
-        // immediately afterwards become invalid. Similarly if it is
-        // for a write, the write will appear to be succesful even
-        // though the file will be gone afterwards. This is
-        // indistinguishable from the case where the read/write and
-        // the remove happened in reverse order.
-        match tokio::fs::remove_file(p).await {
-            Ok(()) => Ok(true),
-            Err(e) => match e.kind() {
-                io::ErrorKind::NotFound => Ok(false),
-                _ => Err(e),
-            },
-        }
+        // We're not locking the label file here to remove it. Any
+        // concurrent operation on the label file will either finish
+        // before the removal, or find that the file is gone. What we
+        // do need to prevent is that an update puts back the file we
+        // just removed, which is what the lock on the directory is for.
+        let directory = self.path.clone();
+        tokio::task::spawn_blocking(move || {
+            let _directory_lock = lock_directory(&directory)?;
+            match std::fs::remove_file(p) {
+                Ok(()) => {
+                    if cfg!(unix) {
+                        std::fs::File::open(directory)?.sync_all()?;
+                    }
+                    Ok(true)
+                }
+                Err(e) => match e.kind() {
+                    io::ErrorKind::NotFound => Ok(false),
+                    _ => Err(e),
+                },
+            }
+        })
+        .await?
     }
 }
 
diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index 657b7ec..1f65e32 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -153,6 +153,17 @@ impl Drop for LockedFile {
     }
 }
 
+#[cfg(unix)]
+pub(crate) fn is_same_file(a: &std::fs::Metadata, b: &std::fs::Metadata) -> bool {
+    use std::os::unix::fs::MetadataExt;
+    a.dev() == b.dev() && a.ino() == b.ino()
+}
+
+#[cfg(not(unix))]
+pub(crate) fn is_same_file(_a: &std::fs::Metadata, _b: &std::fs::Metadata) -> bool {
+    true
+}
+
 pub struct ExclusiveLockedFile {
     file: Option<fs::File>,
 }
@@ -217,6 +228,23 @@ impl ExclusiveLockedFile {
         let file = self.file.as_mut().expect("tried to sync a dropped file");
         file.sync_data().await
     }
+
+    /// Returns true if this is still the file which can be found at the given path. A file may be
+    /// replaced or removed while waiting for its lock.
+    pub async fn is_located_at(&self, path: &Path) -> io::Result<bool> {
+        let file = self.file.as_ref().expect("tried to query a dropped file");
+        match fs::metadata(path).await {
+            Ok(at_path) => Ok(is_same_file(&file.metadata().await?, &at_path)),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
+        }
+    }
+
+    /// Turn this into a blocking file, which stays locked until it is dropped.
+    pub async fn into_std(mut self) -> std::fs::File {
+        let file = self.file.take().expect("tried to convert a dropped file");
+        file.into_std().await
+    }
 }
 
 impl AsyncRead for ExclusiveLockedFile {
-- 
2.43.0


From d46d361a85eae0f0919e9a7351906c6e99b07525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 12/29] fix: keep the cached label store and its files in step
 whatever happens

---
 src/storage/directory.rs | 103 ++++++++++++++++++++++++---------------
 1 file changed, 64 insertions(+), 39 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 8effab6..f75d381 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -3,6 +3,7 @@
 use fs2::FileExt;
 use locking::*;
 use std::collections::HashMap;
+use std::future::Future;
 use std::io;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -310,6 +311,19 @@ fn lock_directory(path: &Path) -> io::Result<Option<std::fs::File>> {
     }
 }
 
+/// Create or replace a file in one step. At any time, even after a crash, the file either has its
+/// old or its new contents.
+async fn write_file_atomically(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let directory = path.parent().expect("file path without a directory");
+    let temporary = write_temporary_file(directory, contents).await?;
+    if let Err(e) = fs::rename(&temporary, path).await {
+        let _ = fs::remove_file(&temporary).await;
+        return Err(e);
+    }
+
+    sync_directory(directory).await
+}
+
 #[async_trait]
 impl LabelStore for DirectoryLabelStore {
     async fn labels(&self) -> io::Result<Vec<Label>> {
@@ -493,7 +507,7 @@ impl LabelStore for CachedDirectoryLabelStore {
     }
 
     async fn create_label(&self, label: &str) -> io::Result<Label> {
-        let mut labels = self.labels.write().await;
+        let mut labels = self.labels.clone().write_owned().await;
         if labels.contains_key(label) {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
@@ -503,30 +517,28 @@ impl LabelStore for CachedDirectoryLabelStore {
 
         let mut p = self.path.clone();
         p.push(format!("{}.label", label));
-        let contents = b"0\n\n";
-        match fs::metadata(&p).await {
-            Ok(_) => Err(io::Error::new(
-                io::ErrorKind::Other,
-                "label was not in cached map but was found on disk",
-            )),
-            Err(e) => match e.kind() {
-                io::ErrorKind::NotFound => {
-                    let mut options = fs::OpenOptions::new();
-                    options.create_new(true);
-                    options.write(true);
-                    let mut file = options.open(p).await?;
-                    file.write_all(contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
-
-                    let l = Label::new_empty(label);
-                    labels.insert(label.to_string(), l.clone());
+        let l = Label::new_empty(label);
+        complete(async move {
+            match create_file_atomically(&p, b"0\n\n").await {
+                Ok(()) => {
+                    labels.insert(l.name.clone(), l.clone());
 
                     Ok(l)
                 }
-                _ => Err(e),
-            },
-        }
+                Err(e) => match e.kind() {
+                    io::ErrorKind::AlreadyExists => Err(io::Error::new(
+                        io::ErrorKind::Other,
+                        "label was not in cached map but was found on disk",
+                    )),
+                    _ => {
+                        let _ = fs::remove_file(&p).await;
+
+                        Err(e)
+                    }
+                },
+            }
+        })
+        .await
     }
     async fn get_label(&self, label: &str) -> io::Result<Option<Label>> {
         let labels = self.labels.read().await;
@@ -545,22 +557,19 @@ impl LabelStore for CachedDirectoryLabelStore {
             }
         };
 
-        let mut labels = self.labels.write().await;
+        let mut labels = self.labels.clone().write_owned().await;
         if let Some(retrieved_label) = labels.get(&label.name) {
             if retrieved_label == label {
                 // all good, let's a go
                 let mut p = self.path.clone();
                 p.push(format!("{}.label", label.name));
-                let mut options = fs::OpenOptions::new();
-                options.create(false);
-                options.write(true);
-                let mut file = options.open(p).await?;
-                file.write_all(&contents).await?;
-                file.flush().await?;
-                file.sync_data().await?;
-
-                labels.insert(label.name.clone(), new_label.clone());
-                Ok(Some(new_label))
+                complete(async move {
+                    write_file_atomically(&p, &contents).await?;
+
+                    labels.insert(new_label.name.clone(), new_label.clone());
+                    Ok(Some(new_label))
+                })
+                .await
             } else {
                 Ok(None)
             }
@@ -570,19 +579,35 @@ impl LabelStore for CachedDirectoryLabelStore {
     }
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
-        let mut labels = self.labels.write().await;
-        if labels.remove(name).is_some() {
-            let mut p = self.path.clone();
-            p.push(format!("{}.label", name));
-            tokio::fs::remove_file(p).await?;
+        let mut labels = self.labels.clone().write_owned().await;
+        if labels.contains_key(name) {
+            let name = name.to_owned();
+            let path = self.path.clone();
+            complete(async move {
+                match fs::remove_file(path.join(format!("{}.label", name))).await {
+                    Err(e) if e.kind() != io::ErrorKind::NotFound => return Err(e),
+                    _ => {}
+                }
+                labels.remove(&name);
+                sync_directory(&path).await?;
 
-            Ok(true)
+                Ok(true)
+            })
+            .await
         } else {
             Ok(false)
         }
     }
 }
 
+/// Run an operation to completion, even if the caller loses interest half-way. This is used where
+/// files and what we know about them would otherwise no longer match.
+async fn complete<T: Send + 'static>(
+    operation: impl Future<Output = io::Result<T>> + Send + 'static,
+) -> io::Result<T> {
+    tokio::spawn(operation).await?
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 37f4f35d000db98e8d4017fd63c8fcbde41fa7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 13/29] fix: sync the directories above a finalized layer

---
 src/storage/directory.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index f75d381..842f559 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -123,18 +123,17 @@ impl PersistentLayerStore for DirectoryLayerStore {
     }
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
         if cfg!(unix) {
-            // ensure the underlying directory record is properly synchronized
+            // ensure the underlying directory record is properly synchronized, as well as its
+            // entry in the directory above, and so on.
             let mut directory_path = self.path.clone();
             let dir_name = name_to_string(directory);
             directory_path.push(&dir_name[0..PREFIX_DIR_SIZE]);
             directory_path.push(dir_name);
 
-            let mut options = tokio::fs::OpenOptions::new();
-            options.create(false);
-            options.read(true);
-            options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
+            sync_directory(&directory_path).await?;
+            directory_path.pop();
+            sync_directory(&directory_path).await?;
+            sync_directory(&self.path).await?;
         }
 
         Ok(())
-- 
2.43.0


From a241b6068451e62f3cd26f664b3d8db98af0fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 14/29] fix: publish an archived layer in one step and sync the
 directories above it

---
 src/storage/archive.rs   | 31 ++++++-------------------------
 src/storage/directory.rs |  4 ++--
 2 files changed, 8 insertions(+), 27 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index a971519..e7e8004 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -35,7 +35,7 @@ use tdb_succinct::{
 
 use super::{
     consts::{LayerFileEnum, FILENAME_ENUM_MAP},
-    directory::{layer_name_from_entry, prefix_directories},
+    directory::{layer_name_from_entry, prefix_directories, sync_directory, write_file_atomically},
     locking::{ExclusiveLockedFile, LockedFile},
     name_to_string, string_to_name, FileLoad, FileStore, PersistentLayerStore, SyncableFile,
 };
@@ -165,36 +165,17 @@ impl ArchiveBackend for DirectoryArchiveBackend {
         }
     }
 
-    async fn store_layer_file(&self, id: [u32; 5], mut bytes: Bytes) -> io::Result<()> {
+    async fn store_layer_file(&self, id: [u32; 5], bytes: Bytes) -> io::Result<()> {
         let path = self.path_for_layer(id);
         let mut directory_path = path.clone();
         directory_path.pop();
         fs::create_dir_all(&directory_path).await?;
 
-        let mut options = tokio::fs::OpenOptions::new();
-        options.create(true);
-        options.write(true);
-        let mut file = options.open(path).await?;
-        while bytes.remaining() > 0 {
-            let chunk = bytes.chunk();
-            let written = file.write(chunk).await?;
-            bytes.advance(written);
-        }
-
-        file.flush().await?;
-        file.sync_all().await?;
+        // Nobody should ever get to see half a layer, not even after a crash.
+        write_file_atomically(&path, &bytes).await?;
 
-        if cfg!(unix) {
-            // ensure the underlying directory record is properly synchronized
-            let mut options = tokio::fs::OpenOptions::new();
-            options.create(false);
-            options.read(true);
-            options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
-        }
-
-        Ok(())
+        // ensure the record of the directory we may just have created is properly synchronized
+        sync_directory(&self.path).await
     }
 
     async fn read_layer_structure_bytes_from(
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 842f559..ad25eec 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -226,7 +226,7 @@ async fn get_label_from_exclusive_locked_file<P: Into<PathBuf>>(
 }
 
 /// Ensure that changes to the entries of a directory are safely stored.
-async fn sync_directory(path: &Path) -> io::Result<()> {
+pub(crate) async fn sync_directory(path: &Path) -> io::Result<()> {
     if cfg!(unix) {
         let mut options = fs::OpenOptions::new();
         options.create(false);
@@ -312,7 +312,7 @@ fn lock_directory(path: &Path) -> io::Result<Option<std::fs::File>> {
 
 /// Create or replace a file in one step. At any time, even after a crash, the file either has its
 /// old or its new contents.
-async fn write_file_atomically(path: &Path, contents: &[u8]) -> io::Result<()> {
+pub(crate) async fn write_file_atomically(path: &Path, contents: &[u8]) -> io::Result<()> {
     let directory = path.parent().expect("file path without a directory");
     let temporary = write_temporary_file(directory, contents).await?;
     if let Err(e) = fs::rename(&temporary, path).await {
-- 
2.43.0


From 79abc1135fa52c01bbb21758f9706d0c463c6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 15/29] fix: replace the rollup pointer of an archived layer in
 one step

---
 src/storage/archive.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index e7e8004..6455bf6 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -24,7 +24,7 @@ use bytes::{Buf, BufMut, Bytes, BytesMut};
 use lru::LruCache;
 use tokio::{
     fs::{self, File},
-    io::{AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite},
 };
 use tokio_util::either::Either;
 
@@ -286,7 +286,7 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
             // no such layer - therefore no such rollup
             return Ok(None);
         }
-        let _layer_lock = layer_lock.unwrap();
+        let _layer_lock = layer_lock?;
 
         let path = self.path_for_rollup(id);
         let result = fs::read_to_string(path).await;
@@ -311,12 +311,7 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
         data.extend_from_slice(b"1\n");
         data.extend_from_slice(name_to_string(rollup).as_bytes());
         data.extend_from_slice(b"\n");
-        let mut file = fs::File::create(path).await?;
-        file.write_all(&data).await?;
-        file.flush().await?;
-        file.sync_all().await?;
-
-        Ok(())
+        write_file_atomically(&path, &data).await
     }
 
     async fn get_parent(&self, id: [u32; 5]) -> io::Result<Option<[u32; 5]>> {
-- 
2.43.0


From 01902c9c0a31745cddc9e3355a9e5a03a340dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:02 +0000
Subject: [PATCH 16/29] fix: replace the rollup pointer of a layer directory in
 one step

---
 src/storage/directory.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index ad25eec..3c7d39c 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -15,6 +15,7 @@ use async_trait::async_trait;
 
 pub use tdb_succinct::storage::file::*;
 
+use super::consts::FILENAMES;
 use super::*;
 
 const PREFIX_DIR_SIZE: usize = 3;
@@ -121,6 +122,18 @@ impl PersistentLayerStore for DirectoryLayerStore {
             Err(_) => Ok(false),
         }
     }
+    async fn write_rollup_file(&self, dir_name: [u32; 5], rollup_name: [u32; 5]) -> io::Result<()> {
+        let mut p = self.path.clone();
+        let dir_name = name_to_string(dir_name);
+        p.push(&dir_name[0..PREFIX_DIR_SIZE]);
+        p.push(dir_name);
+        p.push(FILENAMES.rollup);
+
+        // readers of the layer should either see the old rollup or the new one
+        let contents = format!("{}\n{}\n", 1, name_to_string(rollup_name));
+        write_file_atomically(&p, contents.as_bytes()).await
+    }
+
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
         if cfg!(unix) {
             // ensure the underlying directory record is properly synchronized, as well as its
-- 
2.43.0


From cc6b63b799d7bb13b3f2146386ed921c40c16ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 17/29] fix: do not take an error when looking for a layer or
 its files for absence

---
 src/storage/directory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 3c7d39c..d752c65 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -97,7 +97,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_dir()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
 
@@ -119,7 +120,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_file()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
     async fn write_rollup_file(&self, dir_name: [u32; 5], rollup_name: [u32; 5]) -> io::Result<()> {
-- 
2.43.0


From bf707b216407698870c72aba1e72ef44d0d48ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 18/29] fix: report errors while reading part of an archived
 layer

---
 src/storage/archive.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 6455bf6..6aaa96c 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -999,8 +999,10 @@ impl AsyncRead for ArchiveSliceReader {
 
         let before_len = buf.filled().len();
         let read = AsyncRead::poll_read(Pin::new(&mut self.file), cx, buf);
-        if let Poll::Pending = read {
-            return Poll::Pending;
+        match read {
+            Poll::Pending => return Poll::Pending,
+            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+            Poll::Ready(Ok(())) => {}
         }
 
         let after_len = buf.filled().len();
-- 
2.43.0


From 7fcfeca6a5c682b5c116e2b6560a4dc139c2eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 19/29] fix: importing again finalizes layers which an earlier
 import only wrote

---
 src/storage/archive.rs | 15 ++++++++++++---
 src/storage/pack.rs    |  8 +++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 6aaa96c..a25e67a 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1445,9 +1445,18 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
         let files = {
             let mut guard = self.construction.write().unwrap();
-            guard
-                .remove(&directory)
-                .expect("layer to be finalized was not found in construction map")
+            guard.remove(&directory)
+        };
+        let files = match files {
+            Some(files) => files,
+            // nothing is left to be done for a layer that has already been stored
+            None if self.metadata_backend.layer_exists(directory).await? => return Ok(()),
+            None => {
+                return Err(io::Error::new(
+                    io::ErrorKind::NotFound,
+                    "layer to be finalized is not under construction",
+                ))
+            }
         };
 
         let mut files: Vec<(_, _)> = files
diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index f488a96..71b3adb 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -69,8 +69,7 @@ impl<T: PersistentLayerStore> Packable for T {
         for id in layer_ids {
             layer_id_set.insert(name_to_string(id));
         }
-        // Only layers that turn out to be in the pack, and which were not yet fully in the
-        // store, are created, written and finalized.
+        // Only layers that turn out to be in the pack are created, written and finalized.
         let mut imported = HashSet::new();
 
         let handle = tokio::runtime::Handle::current();
@@ -114,6 +113,10 @@ impl<T: PersistentLayerStore> Packable for T {
                     let mut content = Vec::with_capacity(header.size()? as usize);
                     entry.read_to_end(&mut content)?;
 
+                    // an earlier import may have written this layer without getting as far as
+                    // finalizing it, so this also applies when there's nothing left to write.
+                    imported.insert(layer_id_arr);
+
                     handle.block_on(async {
                         if !self.directory_exists(layer_id_arr).await? {
                             self.create_named_directory(layer_id_arr).await?;
@@ -124,7 +127,6 @@ impl<T: PersistentLayerStore> Packable for T {
                                 return Ok(());
                             }
                         }
-                        imported.insert(layer_id_arr);
 
                         let file = self.get_file(layer_id_arr, &file_name).await?;
                         let mut writer = file.open_write().await?;
-- 
2.43.0


From 43db6d50763840fdebc932073f144954fb42e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 20/29] fix: keep the cached label in step with its file after
 a failed update

---
 src/storage/directory.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index d752c65..82f52d8 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -578,7 +578,13 @@ impl LabelStore for CachedDirectoryLabelStore {
                 let mut p = self.path.clone();
                 p.push(format!("{}.label", label.name));
                 complete(async move {
-                    write_file_atomically(&p, &contents).await?;
+                    if let Err(e) = write_file_atomically(&p, &contents).await {
+                        // this may have failed after the label got its new value
+                        if let Ok(found) = get_label_from_file(&p).await {
+                            labels.insert(new_label.name, found);
+                        }
+                        return Err(e);
+                    }
 
                     labels.insert(new_label.name.clone(), new_label.clone());
                     Ok(Some(new_label))
-- 
2.43.0


From 73c27f0750879c56ead4a9c56afb7a0fa116a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 21/29] Scheduling hook for model checking (cfg terminus_mc
 only)

---
 src/lib.rs             |  4 +++
 src/mc_sync.rs         | 68 ++++++++++++++++++++++++++++++++++++++++++
 src/storage/archive.rs |  7 ++++-
 src/storage/cache.rs   |  6 +++-
 src/store/mod.rs       |  6 +++-
 5 files changed, 88 insertions(+), 3 deletions(-)
 create mode 100644 src/mc_sync.rs

diff --git a/src/lib.rs b/src/lib.rs
index a7cb3a4..157c665 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![type_length_limit = "10628160"]
+#![allow(unexpected_cfgs)]
 
 //! Tokio-enabled data store for triple data
 //!
@@ -32,6 +33,9 @@
 extern crate lazy_static;
 
 pub mod layer;
+#[cfg(terminus_mc)]
+#[doc(hidden)]
+pub mod mc_sync;
 #[macro_use]
 pub(crate) mod logging;
 pub mod storage;
diff --git a/src/mc_sync.rs b/src/mc_sync.rs
new file mode 100644
index 0000000..8c9950c
--- /dev/null
+++ b/src/mc_sync.rs
@@ -0,0 +1,68 @@
+//! Support for model checking, only compiled with `--cfg terminus_mc`: a lock which behaves like the
+//! standard one, but which lets a controlled scheduler decide when it is acquired.
+
+use std::cell::Cell;
+use std::sync::{LockResult, RwLockReadGuard, RwLockWriteGuard, TryLockError, TryLockResult};
+
+thread_local! {
+    /// Called before every acquisition, with the address of the lock and whether it is exclusive.
+    pub static POINT: Cell<Option<fn(usize, bool)>> = const { Cell::new(None) };
+    /// Called instead of blocking, until the given predicate holds.
+    pub static WAIT: Cell<Option<fn(&dyn Fn() -> bool)>> = const { Cell::new(None) };
+}
+
+#[derive(Default, Debug)]
+pub struct RwLock<T>(std::sync::RwLock<T>);
+
+impl<T> RwLock<T> {
+    pub fn new(value: T) -> RwLock<T> {
+        RwLock(std::sync::RwLock::new(value))
+    }
+
+    fn point(&self, exclusive: bool) -> Option<fn(&dyn Fn() -> bool)> {
+        if let Some(point) = POINT.try_with(|p| p.get()).unwrap_or(None) {
+            point(self as *const Self as usize, exclusive);
+        }
+        WAIT.try_with(|w| w.get()).unwrap_or(None)
+    }
+
+    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+        self.point(false);
+        self.0.try_read()
+    }
+
+    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+        self.point(true);
+        self.0.try_write()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        if let Some(wait) = self.point(false) {
+            if let Err(TryLockError::WouldBlock) = self.0.try_read().map(|_| ()) {
+                wait(&|| !matches!(self.0.try_read(), Err(TryLockError::WouldBlock)));
+            }
+        }
+        self.0.read()
+    }
+
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        if let Some(wait) = self.point(true) {
+            if let Err(TryLockError::WouldBlock) = self.0.try_write().map(|_| ()) {
+                wait(&|| !matches!(self.0.try_write(), Err(TryLockError::WouldBlock)));
+            }
+        }
+        self.0.write()
+    }
+}
diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index a25e67a..dfa6ac8 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -10,10 +10,15 @@ use std::{
     ops::Range,
     path::PathBuf,
     pin::Pin,
-    sync::{Arc, RwLock},
+    sync::Arc,
     task::Poll,
 };
 
+#[cfg(terminus_mc)]
+use crate::mc_sync::RwLock;
+#[cfg(not(terminus_mc))]
+use std::sync::RwLock;
+
 #[cfg(not(target_os = "windows"))]
 use std::os::unix::fs::MetadataExt;
 #[cfg(target_os = "windows")]
diff --git a/src/storage/cache.rs b/src/storage/cache.rs
index f49565b..5675f70 100644
--- a/src/storage/cache.rs
+++ b/src/storage/cache.rs
@@ -1,10 +1,14 @@
 use super::layer::*;
 use crate::layer::*;
+#[cfg(terminus_mc)]
+use crate::mc_sync::RwLock;
 use async_trait::async_trait;
 use std::collections::HashMap;
 use std::io;
 use std::path::Path;
-use std::sync::{Arc, RwLock, Weak};
+#[cfg(not(terminus_mc))]
+use std::sync::RwLock;
+use std::sync::{Arc, Weak};
 use tdb_succinct::{StringDict, TypedDict};
 
 pub trait LayerCache: 'static + Send + Sync {
diff --git a/src/store/mod.rs b/src/store/mod.rs
index 9df6b32..006a4bd 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -3,8 +3,12 @@
 //! It is expected that most users of this library will work exclusively with the types contained in this module.
 pub mod sync;
 
+#[cfg(terminus_mc)]
+use crate::mc_sync::RwLock;
 use std::path::{Path, PathBuf};
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
+#[cfg(not(terminus_mc))]
+use std::sync::RwLock;
 
 use crate::layer::{IdTriple, Layer, LayerBuilder, LayerCounts, ObjectType, ValueTriple};
 use crate::storage::archive::{ArchiveLayerStore, DirectoryArchiveBackend, LruArchiveBackend};
-- 
2.43.0


From 5009438ee455549cbdf038ec8487ba0452ea6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 22/29] fix: listing labels skips those deleted while listing

---
 src/storage/directory.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 82f52d8..f746998 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -353,8 +353,12 @@ impl LabelStore for DirectoryLabelStore {
                     )
                 })?;
                 if name.ends_with(".label") {
-                    let label = get_label_from_file(direntry.path()).await?;
-                    result.push(label);
+                    match get_label_from_file(direntry.path()).await {
+                        Ok(label) => result.push(label),
+                        // the label was deleted since we read its directory entry
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+                        Err(e) => return Err(e),
+                    }
                 }
             }
         }
@@ -504,9 +508,14 @@ async fn get_all_labels_from_dir(p: &PathBuf) -> io::Result<HashMap<String, Labe
             }
 
             let label_name = file_name[..file_name.len() - 6].to_string();
-            let label = get_label_from_file(entry.path()).await?;
-
-            result.insert(label_name, label);
+            match get_label_from_file(entry.path()).await {
+                Ok(label) => {
+                    result.insert(label_name, label);
+                }
+                // the label was deleted since we read its directory entry
+                Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+                Err(e) => return Err(e),
+            }
         }
     }
 
-- 
2.43.0


From 46d0afc57f7bd5d484a0cbc62913609e54b43e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 23/29] fix: an update of an in-memory label succeeds only if
 the label has the expected value

---
 src/storage/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 0d8fbfc..75f0b61 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -130,7 +130,7 @@ impl LabelStore for MemoryLabelStore {
                 "label does not exist",
             )),
             Some(old_label) => {
-                if old_label.version + 1 != new_label.version {
+                if old_label != label {
                     Ok(None)
                 } else {
                     labels.insert(new_label.name.clone(), new_label.clone());
-- 
2.43.0


From 08c444503bee5b3b711489fddca2effb2f204239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 24/29] fix: keep the archive cache within its limit

The amount of bytes in use was never counted, so nothing was ever evicted, and
layers that were just stored were kept whatever their size.
---
 src/storage/archive.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index dfa6ac8..e7f5d96 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -336,7 +336,6 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
 pub struct LruArchiveBackend<M, D> {
     cache: Arc<tokio::sync::Mutex<LruCache<[u32; 5], CacheEntry>>>,
     limit: usize,
-    current: usize,
     metadata_origin: M,
     data_origin: D,
 }
@@ -364,7 +363,6 @@ impl<M, D> LruArchiveBackend<M, D> {
         Self {
             cache,
             limit,
-            current: 0,
             metadata_origin,
             data_origin,
         }
@@ -416,10 +414,20 @@ fn ensure_additional_cache_space(cache: &mut LruCache<[u32; 5], CacheEntry>, mut
     }
 }
 
+/// The amount of bytes kept by the resolved entries of the cache.
+fn cached_bytes(cache: &LruCache<[u32; 5], CacheEntry>) -> usize {
+    cache
+        .iter()
+        .map(|(_, entry)| match entry {
+            CacheEntry::Resolving(_) => 0,
+            CacheEntry::Resolved(bytes) => bytes.len(),
+        })
+        .sum()
+}
+
 fn ensure_enough_cache_space(
     cache: &mut LruCache<[u32; 5], CacheEntry>,
     limit: usize,
-    current: usize,
     required: usize,
 ) -> bool {
     if required > limit {
@@ -427,7 +435,7 @@ fn ensure_enough_cache_space(
         return false;
     }
 
-    let remaining = limit - current;
+    let remaining = limit - cached_bytes(cache);
     if remaining < required {
         // we need to clean up some cache spacew to fit this entry
         ensure_additional_cache_space(cache, required - remaining);
@@ -476,12 +484,7 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 let mut cache = self.cache.lock().await;
                 match lookup {
                     Ok(bytes) => {
-                        if ensure_enough_cache_space(
-                            &mut *cache,
-                            self.limit_bytes(),
-                            self.current,
-                            bytes.len(),
-                        ) {
+                        if ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len()) {
                             let cached = cache
                                 .get_mut(&id)
                                 .expect("layer resolving entry not found in cache");
@@ -520,7 +523,11 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
         self.data_origin.store_layer_file(id, bytes.clone()).await?;
 
         let mut cache = self.cache.lock().await;
-        cache.get_or_insert(id, move || CacheEntry::Resolved(bytes));
+        if !cache.contains(&id)
+            && ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len())
+        {
+            cache.put(id, CacheEntry::Resolved(bytes));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 3520539655e2095705d189305f1294b783ae4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 25/29] fix: reading through the archive cache after an
 abandoned read

A read that was dropped while it looked up a layer left its entry behind; later
readers of the layer panicked, or got the error of the abandoned read, or the
bytes stayed in memory uncounted.
---
 src/storage/archive.rs | 90 +++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 40 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index e7f5d96..6e23d17 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -455,52 +455,62 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
     type Read = Either<BytesAsyncReader, D::Read>;
     async fn get_layer_bytes(&self, id: [u32; 5]) -> io::Result<Bytes> {
         let mut cache = self.cache.lock().await;
-        let cached = cache.get(&id).cloned();
-
-        match cached {
-            Some(CacheEntry::Resolved(bytes)) => Ok(bytes),
-            Some(CacheEntry::Resolving(barrier)) => {
-                // someone is already looking up this layer. we'll wait for them to be done.
-                std::mem::drop(cache);
-                let guard = barrier.read().await;
-                match guard.as_ref().unwrap() {
+        loop {
+            let barrier = match cache.get(&id).cloned() {
+                Some(CacheEntry::Resolved(bytes)) => return Ok(bytes),
+                Some(CacheEntry::Resolving(barrier)) => barrier,
+                None => break,
+            };
+
+            // someone is already looking up this layer. we'll wait for them to be done.
+            std::mem::drop(cache);
+            if let Some(result) = barrier.read().await.as_ref() {
+                return match result {
                     Ok(bytes) => Ok(bytes.clone()),
                     Err(kind) => Err(io::Error::new(*kind, "layer resolve failed")),
+                };
+            }
+
+            // the lookup was abandoned. if nobody did so yet, clear its entry, and look again.
+            cache = self.cache.lock().await;
+            if let Some(CacheEntry::Resolving(current)) = cache.peek(&id) {
+                if Arc::ptr_eq(current, &barrier) {
+                    drop_from_cache(&mut *cache, id);
                 }
             }
-            None => {
-                // nobody is looking this up yet, it is up to us.
-                let barrier = Arc::new(tokio::sync::RwLock::new(None));
-                let mut result = barrier.write().await;
-                cache.get_or_insert(id, || CacheEntry::Resolving(barrier.clone()));
-
-                // drop the cache while doing the lookup
-                std::mem::drop(cache);
-                let lookup = self.data_origin.get_layer_bytes(id).await;
-
-                *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
-
-                // reacquire cache
-                let mut cache = self.cache.lock().await;
-                match lookup {
-                    Ok(bytes) => {
-                        if ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len()) {
-                            let cached = cache
-                                .get_mut(&id)
-                                .expect("layer resolving entry not found in cache");
-                            *cached = CacheEntry::Resolved(bytes.clone());
-                        } else {
-                            // this entry is uncachable. Just remove the resolving entry
-                            drop_from_cache(&mut *cache, id);
-                        }
-                        Ok(bytes)
-                    }
-                    Err(e) => {
-                        drop_from_cache(&mut *cache, id);
+        }
 
-                        Err(e)
-                    }
+        // nobody is looking this up yet, it is up to us.
+        let barrier = Arc::new(tokio::sync::RwLock::new(None));
+        let mut result = barrier.write().await;
+        cache.get_or_insert(id, || CacheEntry::Resolving(barrier.clone()));
+
+        // drop the cache while doing the lookup
+        std::mem::drop(cache);
+        let lookup = self.data_origin.get_layer_bytes(id).await;
+
+        // reacquire cache
+        let mut cache = self.cache.lock().await;
+
+        // from here on we don't wait for anything, so the result and the cache entry agree
+        *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
+        match lookup {
+            Ok(bytes) => {
+                if ensure_enough_cache_space(&mut *cache, self.limit_bytes(), bytes.len()) {
+                    let cached = cache
+                        .get_mut(&id)
+                        .expect("layer resolving entry not found in cache");
+                    *cached = CacheEntry::Resolved(bytes.clone());
+                } else {
+                    // this entry is uncachable. Just remove the resolving entry
+                    drop_from_cache(&mut *cache, id);
                 }
+                Ok(bytes)
+            }
+            Err(e) => {
+                drop_from_cache(&mut *cache, id);
+
+                Err(e)
             }
         }
     }
-- 
2.43.0


From ea1470a45fab460569aaf3f979dd101d01a8e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 26/29] fix: the predicate count of a layer that is not cached
 is that of its predicates

---
 src/storage/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/cache.rs b/src/storage/cache.rs
index 5675f70..b4084ff 100644
--- a/src/storage/cache.rs
+++ b/src/storage/cache.rs
@@ -201,7 +201,7 @@ impl LayerStore for CachedLayerStore {
             }
         }
 
-        self.inner.get_value_count(name).await
+        self.inner.get_predicate_count(name).await
     }
 
     async fn get_value_count(&self, name: [u32; 5]) -> io::Result<Option<u64>> {
-- 
2.43.0


From cff27f1408c1b003324123c29db029e578b029a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 27/29] fix: the changes of a layer stack are those of each of
 its layers

---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 0f55ede..aab0138 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -321,8 +321,8 @@ pub trait LayerStore: 'static + Packable + Send + Sync {
         let mut positives = Vec::new();
         let mut negatives = Vec::new();
         walk_backwards_from_disk!(self, name, current, {
-            positives.push(self.triple_additions(name).await?);
-            negatives.push(self.triple_removals(name).await?);
+            positives.push(self.triple_additions(current).await?);
+            negatives.push(self.triple_removals(current).await?);
         });
         positives.reverse();
         negatives.reverse();
-- 
2.43.0


From ea5047e43f658318a95482955929038203c896c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:05 +0000
Subject: [PATCH 28/29] fix: applying a delta or diff to a committed builder
 fails with an error

---
 src/store/mod.rs | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 006a4bd..cc08120 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -173,58 +173,63 @@ impl StoreLayerBuilder {
         // first check what dictionary entries we don't know about, add those
         let triple_additions = delta.triple_additions().await?;
         let triple_removals = delta.triple_removals().await?;
-        rayon::join(
+        self.with_builder(|_| ())?;
+        let (added, removed) = rayon::join(
             move || {
-                triple_additions.par_bridge().for_each(|t| {
+                triple_additions.par_bridge().try_for_each(|t| {
                     delta
                         .id_triple_to_string(&t)
-                        .map(|st| self.add_value_triple(st));
-                });
+                        .map_or(Ok(()), |st| self.add_value_triple(st))
+                })
             },
             move || {
-                triple_removals.par_bridge().for_each(|t| {
+                triple_removals.par_bridge().try_for_each(|t| {
                     delta
                         .id_triple_to_string(&t)
-                        .map(|st| self.remove_value_triple(st));
+                        .map_or(Ok(()), |st| self.remove_value_triple(st))
                 })
             },
         );
 
-        Ok(())
+        added.and(removed)
     }
 
     /// Apply the changes required to change our parent layer into the given layer.
     pub fn apply_diff(&self, other: &StoreLayer) -> Result<(), io::Error> {
         // create a child builder and use it directly
         // first check what dictionary entries we don't know about, add those
-        rayon::join(
+        self.with_builder(|_| ())?;
+        let (removed, added) = rayon::join(
             || {
                 if let Some(this) = self.parent() {
-                    this.triples().par_bridge().for_each(|t| {
+                    this.triples().par_bridge().try_for_each(|t| {
                         if let Some(st) = this.id_triple_to_string(&t) {
                             if !other.value_triple_exists(&st) {
-                                self.remove_value_triple(st).unwrap()
+                                return self.remove_value_triple(st);
                             }
                         }
+                        Ok(())
                     })
-                };
+                } else {
+                    Ok(())
+                }
             },
             || {
-                other.triples().par_bridge().for_each(|t| {
+                other.triples().par_bridge().try_for_each(|t| {
                     if let Some(st) = other.id_triple_to_string(&t) {
-                        if let Some(this) = self.parent() {
-                            if !this.value_triple_exists(&st) {
-                                self.add_value_triple(st).unwrap()
-                            }
-                        } else {
-                            self.add_value_triple(st).unwrap()
-                        };
+                        let known = self
+                            .parent()
+                            .map_or(false, |this| this.value_triple_exists(&st));
+                        if !known {
+                            return self.add_value_triple(st);
+                        }
                     }
+                    Ok(())
                 })
             },
         );
 
-        Ok(())
+        removed.and(added)
     }
 }
 
-- 
2.43.0


From 029e2e6241c837c9ce759933d71a7ba93b977669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 29/29] Object index sort limit under the control of the model
 checker (cfg terminus_mc only)

---
 src/layer/builder.rs | 5 +++++
 src/mc_sync.rs       | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/layer/builder.rs b/src/layer/builder.rs
index 72a0269..aae4032 100644
--- a/src/layer/builder.rs
+++ b/src/layer/builder.rs
@@ -363,6 +363,7 @@ impl<F: 'static + FileLoad + FileStore> TripleFileBuilder<F> {
     }
 }
 
+#[cfg(not(terminus_mc))]
 const SINGLE_SORT_LIMIT: u64 = 0x8000_0000;
 pub async fn build_object_index_from_direct_files<
     FLoad: 'static + FileLoad,
@@ -374,6 +375,10 @@ pub async fn build_object_index_from_direct_files<
     objects_file: Option<F>,
 ) -> io::Result<()> {
     chrono_log!("starting object index build");
+    #[cfg(terminus_mc)]
+    #[allow(non_snake_case)]
+    let SINGLE_SORT_LIMIT =
+        crate::mc_sync::SINGLE_SORT_LIMIT.load(std::sync::atomic::Ordering::SeqCst);
     let build_sparse_index = objects_file.is_some();
     let (count, spo_width) = logarray_file_get_length_and_width(sp_o_nums_file.clone()).await?;
     let mut aj_stream = adjacency_list_stream_pairs(sp_o_bits_file, sp_o_nums_file).await?;
diff --git a/src/mc_sync.rs b/src/mc_sync.rs
index 8c9950c..c937531 100644
--- a/src/mc_sync.rs
+++ b/src/mc_sync.rs
@@ -1,7 +1,9 @@
 //! Support for model checking, only compiled with `--cfg terminus_mc`: a lock which behaves like the
-//! standard one, but which lets a controlled scheduler decide when it is acquired.
+//! standard one, but which lets a controlled scheduler decide when it is acquired, and a limit which is
+//! otherwise constant.
 
 use std::cell::Cell;
+use std::sync::atomic::AtomicU64;
 use std::sync::{LockResult, RwLockReadGuard, RwLockWriteGuard, TryLockError, TryLockResult};
 
 thread_local! {
@@ -11,6 +13,9 @@ thread_local! {
     pub static WAIT: Cell<Option<fn(&dyn Fn() -> bool)>> = const { Cell::new(None) };
 }
 
+/// The amount of triples of which the object index is sorted at once.
+pub static SINGLE_SORT_LIMIT: AtomicU64 = AtomicU64::new(0x8000_0000);
+
 #[derive(Default, Debug)]
 pub struct RwLock<T>(std::sync::RwLock<T>);
 
-- 
2.43.0

