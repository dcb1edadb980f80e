From 53ad011bb91d34e30ee84232db545efa3b95558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 01/38] Verification hooks behind cfg(monolith_verif):
 rollover, scheduling points, log access

---
 src/db.rs                   | 11 +++++++++++
 src/indexer/sled_indexer.rs |  5 +++++
 src/lib.rs                  | 22 ++++++++++++++++++++++
 src/wal/mod.rs              |  3 +++
 4 files changed, 41 insertions(+)

diff --git a/src/db.rs b/src/db.rs
index 5208abb..44a0577 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -222,6 +222,8 @@ where
             } else {
             }
         };
+        #[cfg(monolith_verif)]
+        crate::verif::point("query: current chunk done");
         {
             //chuck previous chunk, normally users query more on recent data, so we go backwards
             let chunks = &self.secondary_chunks.read().unwrap();
@@ -266,6 +268,11 @@ where
         Ok(res_vec)
     }
 
+    #[cfg(monolith_verif)]
+    pub fn verif_swap(&self, start_time: Timestamp) -> Result<()> {
+        self.swap(start_time)
+    }
+
     fn swap(&self, start_time: Timestamp) -> Result<()> {
         info!("Chunk swap, new chunk with start time {}", start_time);
         let mut chunk_opt = ChunkOpts::default();
@@ -303,10 +310,14 @@ where
         );
 
         let chunk = Chunk::<S, I>::new(storage, indexer, &chunk_opt);
+        #[cfg(monolith_verif)]
+        crate::verif::point("swap: new chunk built");
         {
             let stale = self.current_chuck.read().unwrap();
             self.secondary_chunks.write().unwrap().push(stale.clone());
         }
+        #[cfg(monolith_verif)]
+        crate::verif::point("swap: between the two lists");
         {
             let mut current = self.current_chuck.write().unwrap(); //will also block all read util swap finish
             let (_, end_time) = current.start_end_time();
diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 0beeccc..8f0726a 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -35,6 +35,11 @@ impl SledIndexer {
         })
     }
 
+    #[cfg(monolith_verif)]
+    pub fn verif_db(&self) -> &Db {
+        &self.storage
+    }
+
     fn get(&self, key: &String) -> Result<Option<String>> {
         return match self.storage.get(key)? {
             Some(val) => Ok(Some(String::from_utf8(
diff --git a/src/lib.rs b/src/lib.rs
index da5fcba..df06f63 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -58,3 +58,25 @@ pub const TIKV_BACKEND: &str = "tikv";
 extern crate log;
 #[macro_use]
 extern crate failure;
+
+/// Access for the verification harness, compiled only with `--cfg monolith_verif`.
+#[cfg(monolith_verif)]
+pub mod verif {
+    use std::sync::RwLock;
+
+    pub use crate::wal::{Entry, EntryType, FlushPolicy, Segment};
+
+    static POINT: RwLock<Option<fn(&'static str)>> = RwLock::new(None);
+
+    /// Install a function that is called at every named scheduling point.
+    pub fn set_point_hook(hook: Option<fn(&'static str)>) {
+        *POINT.write().unwrap() = hook;
+    }
+
+    pub(crate) fn point(name: &'static str) {
+        let hook = *POINT.read().unwrap();
+        if let Some(hook) = hook {
+            hook(name)
+        }
+    }
+}
diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 5f3a12f..358275b 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -5,6 +5,9 @@ use std::sync::{Arc, Mutex};
 mod segment;
 mod writer;
 
+#[cfg(monolith_verif)]
+pub use segment::Segment;
+
 /// Note that we only use the first three byte in this magic number
 /// User can still use the remaining 5 bytes to add more metadata
 /// Like WAL for different component
-- 
2.43.0


From dd6cfddad667c2cc2b8a77cb04aef272925f18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 02/38] fix: a series without samples in the range no longer
 hides the others of its chunk

---
 src/chunk/chunk.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 5bfa9e9..7e05505 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -152,7 +152,12 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
 
         let mut res = Vec::new();
         for (id, metadata) in candidates {
-            let data = self.storage.read_time_series(id, start_time, end_time)?;
+            let data = match self.storage.read_time_series(id, start_time, end_time) {
+                Ok(data) => data,
+                // this series has nothing in the range, the others may have
+                Err(OutOfRangeErr(..)) | Err(MonolithErr::NotFoundErr) => continue,
+                Err(err) => return Err(err),
+            };
             if data.len() == 0 {
                 continue; //skip empty series
             }
-- 
2.43.0


From f816d36b76e8bfc8bc993c7240e1f90032c61f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 03/38] fix: a requested label that no series carries selects
 nothing, a failed label read is an error

---
 src/indexer/sled_indexer.rs |  6 ++++--
 src/indexer/tikv_indexer.rs | 29 +++++++++++++----------------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 8f0726a..3ce7c69 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -92,8 +92,10 @@ impl Indexer for SledIndexer {
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         let mut ts_vec = Vec::new();
         for label in labels.vec() {
-            if let Some(ts) = self.get_id(label)? {
-                ts_vec.push(ts as Vec<TimeSeriesId>);
+            match self.get_id(label)? {
+                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),
+                // no series carries this label
+                None => return Ok(Vec::new()),
             }
         }
 
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c9b0449..c5bf7a5 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -69,22 +69,19 @@ impl Indexer for TiKvIndexer {
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         // Get raw value from tikv
-        let query_res = labels
-            .vec()
-            .into_iter()
-            .map(|label| {
-                self.add_indexer_id(
-                    KvIndexerProcessor::encode_label(label)
-                        .into_bytes()
-                        .as_mut(),
-                )
-            })
-            .map(|key| self.client.get(key)) //todo: error handling
-            .filter(|res| res.is_ok())
-            .map(|res| res.unwrap())
-            .filter(|res| res.is_some())
-            .map(|res| res.unwrap())
-            .collect::<Vec<Vec<u8>>>();
+        let mut query_res: Vec<Vec<u8>> = vec![];
+        for label in labels.vec() {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_label(label)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            match self.client.get(key)? {
+                Some(val) => query_res.push(val),
+                // no series carries this label
+                None => return Ok(Vec::new()),
+            }
+        }
         // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
         for val in query_res {
-- 
2.43.0


From 1194906e06ea7d33413fdb43be5bd27d00620871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 04/38] fix: comparing label sets of different lengths neither
 panics nor calls them equal

---
 src/common/label.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/common/label.rs b/src/common/label.rs
index 47151f0..771601f 100644
--- a/src/common/label.rs
+++ b/src/common/label.rs
@@ -98,12 +98,7 @@ impl Eq for Labels {}
 
 impl PartialEq for Labels {
     fn eq(&self, other: &Self) -> bool {
-        for i in 0..self.len() {
-            if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
-                return false;
-            }
-        }
-        true
+        self.0 == other.0
     }
 }
 
-- 
2.43.0


From 2bdb2c49b6043488ef81eae55bc9eb1f02c58631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 05/38] fix: samples with different values are not equal

---
 src/common/time_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/time_point.rs b/src/common/time_point.rs
index 2150cd9..27c25cb 100644
--- a/src/common/time_point.rs
+++ b/src/common/time_point.rs
@@ -22,7 +22,7 @@ impl Eq for TimePoint {}
 impl PartialEq for TimePoint {
     fn eq(&self, other: &Self) -> bool {
         self.timestamp.eq(&other.timestamp)
-            && (self.value - other.value < F64_MARGIN || other.value - self.value < F64_MARGIN)
+            && (self.value - other.value < F64_MARGIN && other.value - self.value < F64_MARGIN)
     }
 }
 
-- 
2.43.0


From 29f63eec051d0c25fabbaf95963295e5a5cd971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 06/38] fix: label values with commas and label names beginning
 with R no longer confuse the index

---
 src/indexer/sled_indexer.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 3ce7c69..05bcac8 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -284,12 +284,19 @@ impl KvIndexerProcessor {
         time_series_meta.sort();
         let mut res = String::new();
         for label in time_series_meta.vec() {
-            let mut label_str = KvIndexerProcessor::_encode_label(label);
+            // escape the separator, label values may contain it
+            let mut label_str = KvIndexerProcessor::_encode_label(label)
+                .replace('\\', "\\\\")
+                .replace(',', "\\,");
             label_str.push(',');
             res = res.add(label_str.as_str());
         }
         res.pop(); //remove last ,
         if with_prefix {
+            if res.starts_with('R') {
+                // must not look like the key of a single label
+                res.insert(0, '\\');
+            }
             res.insert_str(0, LABEL_PREFIX);
         }
         res
@@ -304,7 +311,15 @@ impl KvIndexerProcessor {
         if is_key {
             _labels_str.replace_range(..LABEL_PREFIX.len(), "");
         }
-        let pairs: Vec<&str> = _labels_str.split(",").collect();
+        let mut pairs = vec![String::new()];
+        let mut chars = _labels_str.chars();
+        while let Some(c) = chars.next() {
+            match c {
+                '\\' => pairs.last_mut().unwrap().extend(chars.next()),
+                ',' => pairs.push(String::new()),
+                _ => pairs.last_mut().unwrap().push(c),
+            }
+        }
         let mut res = Vec::new();
         for pair in pairs {
             // Per Prometheus doc https://prometheus.io/docs/concepts/data_model/#metric-names-and-labels
-- 
2.43.0


From eb074a76ad06aab8b84b3a680023b2361e9205ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 07/38] fix: chunks in a shared store get identifiers of their
 own and keep both of them

---
 src/backend/tikv.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 3771225..ecbf5ec 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -20,16 +20,16 @@ pub trait TiKvRawBackend: Send + Sync {
             id
         });
         if is_indexer {
-            let mut indexer_id = Uuid::new_v4().as_bytes().to_vec();
-            indexer_id.append(value[..16].to_vec().as_mut());
-            self.set(chunk_identifier.clone(), indexer_id.clone());
+            let indexer_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = indexer_id.clone();
+            res.append(value[16..].to_vec().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(indexer_id)
         } else {
-            let mut storage_id = Uuid::new_v4().as_bytes().to_vec();
-            let mut res = vec![];
-            res.append(value[16..].to_vec().as_mut());
-            res.append(storage_id.as_mut());
-            self.set(chunk_identifier.clone(), res);
+            let storage_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = value[..16].to_vec();
+            res.append(storage_id.clone().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(storage_id)
         }
     }
-- 
2.43.0


From 373d41ca01bb4b43bfce59d6d1d45622d1097d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 08/38] fix: reading a range without samples in it gives an
 empty result instead of a panic

---
 src/storage/common.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/storage/common.rs b/src/storage/common.rs
index 1fbdead..346bacf 100644
--- a/src/storage/common.rs
+++ b/src/storage/common.rs
@@ -40,10 +40,14 @@ pub trait Storage: Sized + HasTypeName {
             Err(idx) => idx,
         };
         let right = match series.binary_search(&TimePoint::new(end_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx - 1,
+            Ok(idx) => idx + 1,
+            Err(idx) => idx,
         };
-        let res = &series[left..=right];
+        if left >= right {
+            // nothing in between
+            return Ok(Vec::new());
+        }
+        let res = &series[left..right];
         Ok(Vec::from(res))
     }
 }
-- 
2.43.0


From 48963185e29af044f11acdba8429aa4f23d51435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 09/38] fix: a failed write of a known series is an error,
 samples sent again leave the series in order

---
 src/chunk/chunk.rs          |  2 +-
 src/db.rs                   | 14 +++++++++-----
 src/storage/sled_storage.rs | 10 ++++++++--
 src/storage/tikv_storage.rs |  6 ++++--
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 7e05505..f626b29 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -130,7 +130,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         } else {
             //only one, skip the choose process
             self.storage
-                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value);
+                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value)?;
         }
 
         Ok(())
diff --git a/src/db.rs b/src/db.rs
index 44a0577..076ba2e 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -182,12 +182,16 @@ where
                 tp.timestamp >= start_time && tp.timestamp <= end_time && tp.timestamp != 0
             })
             .map(|tp| _c.insert(labels.clone(), tp))
-            .filter(|res| res.is_err())
-            .collect::<Vec<_>>();
-        if !res.is_empty() {
-            error!("{} time point failed to insert", res.len());
+            .find(|res| match res {
+                // not later than what the series has, for example when sent again
+                Err(MonolithErr::OutOfRangeErr(..)) => false,
+                // stop here, if later ones are stored this one cannot be sent again
+                res => res.is_err(),
+            });
+        if let Some(Err(err)) = res {
+            error!("time point failed to insert, {}", err);
             return Err(MonolithErr::InternalErr(
-                "multiple time point cannot insert".to_string(),
+                "time point cannot insert".to_string(),
             ));
         }
         Ok(())
diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index d03587a..98a90ba 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -57,7 +57,6 @@ impl SledStorage {
 }
 
 impl Storage for SledStorage {
-    //todo: check if timestamp is earlier than last timestamp in series. If so, how to deal with?
     fn write_time_point(
         &self,
         time_series_id: u64,
@@ -65,12 +64,19 @@ impl Storage for SledStorage {
         value: Value,
     ) -> Result<()> {
         let tree: &Tree = &self.storage;
+        let timepoint_size = std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
         let key_name = SledStorage::parse_key_name::<u64>(TIME_SERIES_PREFIX, time_series_id);
         let mut value = KvStorageProcessor::encode_time_point(timestamp, value)?;
         if let Some(current_val) = tree.get(key_name.clone())? {
             let mut current_val_bytes = current_val.to_vec();
+            let last_time_point = KvStorageProcessor::decode_time_point(
+                &current_val_bytes[(current_val_bytes.len() - timepoint_size)..],
+            )?;
+            if last_time_point.timestamp >= timestamp {
+                return Err(OutOfRangeErr(last_time_point.timestamp, Timestamp::max_value()));
+            }
             current_val_bytes.append(&mut value);
-            tree.set(key_name.clone(), current_val_bytes);
+            tree.set(key_name.clone(), current_val_bytes)?;
         } else {
             tree.set(key_name.clone(), value)?;
         }
diff --git a/src/storage/tikv_storage.rs b/src/storage/tikv_storage.rs
index 56d856c..74db64f 100644
--- a/src/storage/tikv_storage.rs
+++ b/src/storage/tikv_storage.rs
@@ -37,8 +37,10 @@ impl Storage for TiKvStorage {
             let last_time_point =
                 KvStorageProcessor::decode_time_point(&val[(val.len() - timepoint_size)..])?;
             if last_time_point.timestamp >= timestamp {
-                return Err(MonolithErr::InternalErr(
-                    "Try to store a earlier time stamp".into(),
+                // try to store an earlier time stamp
+                return Err(MonolithErr::OutOfRangeErr(
+                    last_time_point.timestamp,
+                    Timestamp::max_value(),
                 ));
             } else {
                 val.append(&mut current_value);
-- 
2.43.0


From f3c8460ac756ae5aadb94d46831dc24dabb9a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 10/38] fix: a series whose index entries could not all be
 written is not taken for indexed

---
 src/indexer/sled_indexer.rs | 10 ++++----
 src/indexer/tikv_indexer.rs | 48 ++++++++++++++-----------------------
 2 files changed, 24 insertions(+), 34 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 05bcac8..d61e47b 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -124,13 +124,12 @@ impl Indexer for SledIndexer {
                 "Duplicate label => id pair found in storage".to_string(),
             ));
         }
-        tree.set(label_key, format!("{}", time_series_id).into_bytes());
 
         // from time series to label set
         tree.set(
             KvIndexerProcessor::encode_time_series_id(time_series_id),
             KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-        );
+        )?;
 
         // from label to time series ids
         let keys: Vec<String> = labels
@@ -146,10 +145,13 @@ impl Indexer for SledIndexer {
                     format!("{},{}", val_str, time_series_id)
                 }
             };
-            tree.set(&key, val.into_bytes());
-            tree.flush();
+            tree.set(&key, val.into_bytes())?;
         }
 
+        // last, this is what makes the series known
+        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
+        tree.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c5bf7a5..9386ebe 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -119,43 +119,31 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-            );
+            )?;
+        }
+
+        {
+            // Create Reverse Search
+            for label in labels.vec() {
+                let key = self.add_indexer_id(
+                    KvIndexerProcessor::encode_label(label)
+                        .into_bytes()
+                        .as_mut(),
+                );
+                let mut val = self.client.get(key.clone())?.unwrap_or(Vec::new());
+                val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
+                self.client.set(key, val)?;
+            }
         }
 
         {
-            //Create map between full label set to time series id
+            // Create map between full label set to time series id
+            // last, this is what makes the series known
             let key = KvIndexerProcessor::encode_labels(&labels, true);
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 Vec::from(&time_series_id.to_be_bytes()[..]),
-            );
-        }
-
-        {
-            // Create Reverse Search
-            labels
-                .vec()
-                .iter()
-                .map(|label| {
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_label(label)
-                            .into_bytes()
-                            .as_mut(),
-                    )
-                })
-                .map(|key| (key.clone(), self.client.get(key.to_vec())))
-                .filter(|(_key, res)| res.is_ok())
-                .map(|(key, res)| match res.unwrap() {
-                    Some(mut val) => {
-                        val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
-                        self.client.set(key.clone(), val);
-                    }
-                    None => {
-                        self.client
-                            .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..]));
-                    }
-                })
-                .collect::<Vec<()>>();
+            )?;
         }
 
         Ok(())
-- 
2.43.0


From 2ee8ec2aa80ff0d884ff54ebc4eb187b13465ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 11/38] fix: a failed read of the labels of a series is an
 error instead of a missing series

---
 src/indexer/tikv_indexer.rs | 46 +++++++++++--------------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 9386ebe..2a2575e 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -32,39 +32,19 @@ impl Indexer for TiKvIndexer {
     ) -> Result<Vec<(TimeSeriesId, Labels)>> {
         let ids = self.get_series_id_contains_labels(labels.clone())?;
 
-        //todo: refactor this.
-        Ok(ids
-            .iter()
-            // Convert into keys
-            .map(|id| {
-                (
-                    *id,
-                    self.add_indexer_id(
-                        KvIndexerProcessor::encode_time_series_id(*id)
-                            .into_bytes()
-                            .as_mut(),
-                    ),
-                )
-            })
-            // Get raw value from db store
-            .map(|(id, key)| (id, self.client.get(key)))
-            // Choose the valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap the valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            // Choose the one with value
-            .filter(|(_id, option)| option.is_some())
-            // Unwrap value
-            .map(|(id, option)| (id, option.unwrap()))
-            // Convert Vec<u8> into String
-            .map(|(id, raw)| (id, String::from_utf8_lossy(raw.as_slice()).to_string()))
-            // Convert String into labels
-            .map(|(id, raw)| (id, KvIndexerProcessor::decode_labels(raw, false)))
-            // Choose valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            .collect())
+        let mut res = Vec::new();
+        for id in ids {
+            let key = self.add_indexer_id(
+                KvIndexerProcessor::encode_time_series_id(id)
+                    .into_bytes()
+                    .as_mut(),
+            );
+            if let Some(raw) = self.client.get(key)? {
+                let raw = String::from_utf8_lossy(raw.as_slice()).to_string();
+                res.push((id, KvIndexerProcessor::decode_labels(raw, false)?));
+            }
+        }
+        Ok(res)
     }
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
-- 
2.43.0


From 521299dda7da7ccec0745bd120cee2d956ecc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 12/38] fix: a query that cannot read a chunk is an error
 instead of an incomplete answer

---
 src/db.rs | 52 ++++++++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 076ba2e..72886e0 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -216,14 +216,17 @@ where
             //check current chunk
             let _c = &self.current_chuck.read().unwrap();
             let _res = _c.query(labels.clone(), start_time, end_time);
-            if _res.is_ok() {
-                for ref t in _res.unwrap() {
-                    res_ref.insert(
-                        t.meta_data().clone(),
-                        t.time_points().clone().into_iter().rev().collect(),
-                    );
+            match _res {
+                Ok(series) => {
+                    for ref t in series {
+                        res_ref.insert(
+                            t.meta_data().clone(),
+                            t.time_points().clone().into_iter().rev().collect(),
+                        );
+                    }
                 }
-            } else {
+                Err(MonolithErr::OutOfRangeErr(..)) => {}
+                Err(err) => return Err(err),
             }
         };
         #[cfg(monolith_verif)]
@@ -233,25 +236,22 @@ where
             let chunks = &self.secondary_chunks.read().unwrap();
             for _c in chunks.iter().rev() {
                 if _c.is_with_range(start_time, end_time) {
-                    let _res = _c.query(labels.clone(), start_time, end_time);
-                    if _res.is_ok() {
-                        for ref t in _res.unwrap() {
-                            let mut current_val = t
-                                .time_points()
-                                .clone()
-                                .into_iter()
-                                .rev()
-                                .collect::<Vec<TimePoint>>();
-                            match res_ref.get_mut(t.meta_data()) {
-                                Some(val) => {
-                                    val.append(&mut current_val);
-                                }
-                                None => {
-                                    res_ref.insert(t.meta_data().clone(), current_val);
-                                }
-                            };
-                        }
-                    } else {
+                    let _res = _c.query(labels.clone(), start_time, end_time)?;
+                    for ref t in _res {
+                        let mut current_val = t
+                            .time_points()
+                            .clone()
+                            .into_iter()
+                            .rev()
+                            .collect::<Vec<TimePoint>>();
+                        match res_ref.get_mut(t.meta_data()) {
+                            Some(val) => {
+                                val.append(&mut current_val);
+                            }
+                            None => {
+                                res_ref.insert(t.meta_data().clone(), current_val);
+                            }
+                        };
                     }
                 };
             }
-- 
2.43.0


From bef46cacc5ace496a08e13d7ea8a4df0bfddbc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 13/38] fix: samples of a reopened chunk stay visible up to its
 end, merged in time order and once each

---
 src/db.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 72886e0..359de56 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -144,14 +144,8 @@ where
                     // Read Chunk Options from metadata.json
                     let path = PathBuf::from(path_str.clone());
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
-                    let current_time = get_current_timestamp();
                     chunk_opts.start_time = Some(start_time);
-                    // reset end time is necessary
-                    chunk_opts.end_time = Some(if end_time > current_time {
-                        current_time
-                    } else {
-                        end_time
-                    });
+                    chunk_opts.end_time = Some(end_time);
 
                     let storage = storage_builder
                         .read_from_chunk(&path.join("storage"), Some(&chunk_opts))?;
@@ -263,10 +257,11 @@ where
             .filter(|o| o.is_some())
             .map(|o| o.unwrap())
             .map(|(labels, points)| {
-                (
-                    labels.clone(),
-                    points.iter().cloned().rev().collect::<Vec<TimePoint>>(),
-                )
+                let mut points = points.iter().cloned().rev().collect::<Vec<TimePoint>>();
+                // chunks may overlap, and one being replaced right now may have been read twice
+                points.sort_by_key(|point| point.timestamp);
+                points.dedup_by_key(|point| point.timestamp);
+                (labels.clone(), points)
             })
             .collect();
         Ok(res_vec)
-- 
2.43.0


From 564fd9465849ff5dcf8ab3d8a32144ae8305a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 14/38] fix: existing chunks are found whatever characters the
 base directory has in its name

---
 src/db.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 359de56..69ae7e5 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::path::{Path, PathBuf};
+use std::path::Path;
 use std::sync::mpsc::channel;
 use std::sync::{Arc, RwLock};
 use std::time::Duration;
@@ -131,18 +131,12 @@ where
     ) -> Result<Vec<Arc<Chunk<S, I>>>> {
         let mut res = Vec::new();
         for entry in fs::read_dir(dir)? {
-            let path_str = entry?.path().into_os_string().into_string().unwrap();
-            let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
-            let dir_name = path_str.clone();
-            let dir_name = dir_name
-                .chars()
-                .skip(_slash)
-                .take(dir_name.len() - _slash)
-                .collect();
+            let entry = entry?;
+            let dir_name = entry.file_name().to_string_lossy().into_owned();
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
-                    let path = PathBuf::from(path_str.clone());
+                    let path = entry.path();
                     let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
                     chunk_opts.start_time = Some(start_time);
                     chunk_opts.end_time = Some(end_time);
-- 
2.43.0


From 60f058125f2f2aaa59041bf6616ef0343e5ea2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 15/38] fix: samples at either end of the window of a chunk are
 accepted

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index f626b29..0009d98 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -176,7 +176,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
     }
 
     fn is_in_range(&self, timestamp: &Timestamp) -> bool {
-        return self.start_time < *timestamp && self.end_time > *timestamp;
+        return self.start_time <= *timestamp && self.end_time >= *timestamp;
     }
 }
 
-- 
2.43.0


From 5bc54b83eb3fe23e0adee545628c8070f6804977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 16/38] fix: a start cut short while writing metadata does not
 keep the database from opening

---
 src/chunk/chunk.rs | 11 +++++------
 src/db.rs          | 15 +++++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 0009d98..46da0a3 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -9,14 +9,12 @@ use crate::storage::Storage;
 use crate::MonolithErr::OutOfRangeErr;
 
 use crate::indexer::Indexer;
-use std::path::{Path, PathBuf};
+use std::path::Path;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::RwLock;
 
 use serde::{Deserialize, Serialize};
 use std::fs;
-use std::fs::File;
-use std::io::BufWriter;
 
 /// ChunkOps contains all options for chunk
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -47,9 +45,10 @@ impl ChunkOpts {
         // only write when start time and end time is not null
         if self.start_time.is_some() && self.end_time.is_some() {
             std::fs::create_dir_all(dir)?;
-            let file = File::create(dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;
-            let mut writer = BufWriter::new(file);
-            serde_json::to_writer(&mut writer, &self.clone());
+            // rename, so that there is never an incomplete file under this name
+            let temp_file = dir.join(format!("{}.tmp", CHUNK_METADATA_FILENAME));
+            fs::write(&temp_file, serde_json::to_vec(self)?)?;
+            fs::rename(&temp_file, dir.join(CHUNK_METADATA_FILENAME))?;
         }
         Ok(())
     }
diff --git a/src/db.rs b/src/db.rs
index 69ae7e5..3dd2f14 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -15,8 +15,6 @@ use crate::indexer::Indexer;
 use crate::option::DbOpts;
 use crate::storage::Storage;
 use crate::{Builder, MonolithErr, Result, Timestamp, DB_METADATA_FILENAME};
-use std::fs::File;
-use std::io::BufWriter;
 
 /// MonolithDb is thread-safe
 pub struct MonolithDb<S: Storage, I: Indexer>
@@ -115,9 +113,10 @@ where
                 return Err(MonolithErr::OptionErr);
             }
         } else {
-            let file = File::create(base_dir.join(DB_METADATA_FILENAME))?;
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, db_metadata)?;
+            // rename, so that there is never an incomplete file under this name
+            let temp_file = base_dir.join(format!("{}.tmp", DB_METADATA_FILENAME));
+            fs::write(&temp_file, serde_json::to_vec(db_metadata)?)?;
+            fs::rename(&temp_file, base_dir.join(DB_METADATA_FILENAME))?;
         }
 
         Ok(())
@@ -137,7 +136,11 @@ where
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
                     let path = entry.path();
-                    let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
+                    let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
+                        // creating this chunk was cut short, there is nothing in it
+                        Err(MonolithErr::NotFoundErr) => continue,
+                        res => res?,
+                    };
                     chunk_opts.start_time = Some(start_time);
                     chunk_opts.end_time = Some(end_time);
 
-- 
2.43.0


From b070d115ec2820ab6199e86ac05b01fc5fc6fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 17/38] fix: a request that cannot be decoded gets an error
 status, is not half stored and does not end the server

---
 src/server.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 45f924a..c2e1902 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -63,11 +63,27 @@ where
     }
 
     fn _process(server: MonolithServer<S, I>, mut request: Request) {
+        if request.url() != server.read_path && request.url() != server.write_path {
+            request.respond(Response::empty(404));
+            return;
+        }
+
         //Convert request content to protobuf coded format
         let mut content = Vec::new();
-        request.as_reader().read_to_end(&mut content).unwrap();
+        if let Err(err) = request.as_reader().read_to_end(&mut content) {
+            error!("Cannot read body of request {}", err);
+            request.respond(Response::empty(400));
+            return;
+        }
         let mut decoder = snap::raw::Decoder::new();
-        let _content = decoder.decompress_vec(content.as_slice()).unwrap();
+        let _content = match decoder.decompress_vec(content.as_slice()) {
+            Ok(_content) => _content,
+            Err(err) => {
+                error!("Cannot decompress body of request {}", err);
+                request.respond(Response::empty(400));
+                return;
+            }
+        };
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
 
@@ -113,7 +129,11 @@ where
             }
             (_, write_path) if write_path == server.write_path => {
                 let mut write_req = WriteRequest::new();
-                write_req.merge_from(&mut input_stream);
+                if let Err(err) = write_req.merge_from(&mut input_stream) {
+                    error!("Cannot read content from write request {}", err);
+                    request.respond(Response::empty(400));
+                    return;
+                }
                 match server.write(write_req) {
                     Ok(_) => {
                         request.respond(Response::empty(200));
-- 
2.43.0


From a530f536dcfc8f12bbd6f91ee52c804b725cf4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 18/38] fix: a remote read whose query fails is answered with
 an error instead of an empty result

---
 src/server.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index c2e1902..fbc443c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -156,8 +156,9 @@ where
                 read_rq
                     .queries
                     .iter()
-                    .map(|q| {
-                        self.db
+                    .map(|q| -> Result<QueryResult> {
+                        let v = self
+                            .db
                             .query(
                                 Labels::from_vec(
                                     q.matchers
@@ -167,21 +168,17 @@ where
                                 ),
                                 q.start_timestamp_ms as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
-                            )
-                            .ok()
-                            .unwrap_or(Vec::new())
+                            )?
                             .iter()
                             .map(crate::proto::TimeSeries::from)
-                            .collect::<Vec<crate::proto::TimeSeries>>()
-                    })
-                    .map(|v: Vec<crate::proto::TimeSeries>| -> QueryResult {
-                        QueryResult {
+                            .collect::<Vec<crate::proto::TimeSeries>>();
+                        Ok(QueryResult {
                             timeseries: RepeatedField::from(v),
                             unknown_fields: Default::default(),
                             cached_size: Default::default(),
-                        }
+                        })
                     })
-                    .collect::<Vec<crate::proto::QueryResult>>(),
+                    .collect::<Result<Vec<crate::proto::QueryResult>>>()?,
             ),
             unknown_fields: Default::default(),
             cached_size: Default::default(),
-- 
2.43.0


From f98c3c9c362e55edf97e94d93fe45ce505143d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 19/38] fix: negative bounds of a remote read are not taken for
 times in the far future

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index fbc443c..ef79672 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -157,6 +157,10 @@ where
                     .queries
                     .iter()
                     .map(|q| -> Result<QueryResult> {
+                        if q.end_timestamp_ms < 0 {
+                            // all samples are later
+                            return Ok(QueryResult::new());
+                        }
                         let v = self
                             .db
                             .query(
@@ -166,7 +170,7 @@ where
                                         .map(Label::from_label_matcher)
                                         .collect::<Vec<Label>>(),
                                 ),
-                                q.start_timestamp_ms as Timestamp,
+                                q.start_timestamp_ms.max(0) as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
                             )?
                             .iter()
-- 
2.43.0


From a32f49105f296da5821f46a0bca164503cf321d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 20/38] fix: a remote read with a matcher other than equality
 is refused instead of treated as equality

---
 src/server.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index ef79672..378ea0e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,9 +2,9 @@ use crate::MonolithDb;
 
 use crate::common::label::{Label, Labels};
 use crate::common::time_series::TimeSeries;
-use crate::proto::{QueryResult, ReadRequest, ReadResponse, WriteRequest};
+use crate::proto::{LabelMatcher_Type, QueryResult, ReadRequest, ReadResponse, WriteRequest};
 use crate::storage::Storage;
-use crate::{Result, Timestamp};
+use crate::{MonolithErr, Result, Timestamp};
 use protobuf::{CodedInputStream, CodedOutputStream, Message, RepeatedField};
 use std::io::{Cursor, Read};
 use tiny_http::{Request, Response, Server};
@@ -157,6 +157,11 @@ where
                     .queries
                     .iter()
                     .map(|q| -> Result<QueryResult> {
+                        if q.matchers.iter().any(|m| m.field_type != LabelMatcher_Type::EQ) {
+                            return Err(MonolithErr::InternalErr(
+                                "Only equality matchers are supported".to_string(),
+                            ));
+                        }
                         if q.end_timestamp_ms < 0 {
                             // all samples are later
                             return Ok(QueryResult::new());
-- 
2.43.0


From cc1b823d77b88a2099cfd57d6117b104c19be013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 21/38] fix: a client that stalls keeps one worker busy instead
 of the whole server

---
 src/server.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 378ea0e..338e811 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -49,15 +49,17 @@ where
         let server = Server::http(addr).unwrap();
 
         let workers = rayon::ThreadPoolBuilder::new()
-            .num_threads(self.worker_num)
+            .num_threads(self.worker_num + 1) // one of them accepts the requests
             .build()
             .unwrap();
 
-        for request in server.incoming_requests() {
-            let server = self.clone();
-            //do we need a context and a time out in case some thread stuck for some reason?
-            workers.install(move || MonolithServer::_process(server, request));
-        }
+        workers.scope(|scope| {
+            for request in server.incoming_requests() {
+                let server = self.clone();
+                //do we need a context and a time out in case some thread stuck for some reason?
+                scope.spawn(move |_| MonolithServer::_process(server, request));
+            }
+        });
 
         Ok(())
     }
-- 
2.43.0


From a5857ad79cce5da8996d2bb165a85bead56a0a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 22/38] fix: consecutive windows do not share a millisecond

---
 src/db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db.rs b/src/db.rs
index 3dd2f14..f085999 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -273,7 +273,9 @@ where
         info!("Chunk swap, new chunk with start time {}", start_time);
         let mut chunk_opt = ChunkOpts::default();
         chunk_opt.start_time = Some(start_time);
-        chunk_opt.end_time = Some(start_time + self.options.chunk_size.as_millis() as Timestamp);
+        // both ends belong to the window, the next one starts right after it
+        chunk_opt.end_time =
+            Some(start_time + self.options.chunk_size.as_millis() as Timestamp - 1);
 
         let chunk_dir = self.options.base_dir.join(encode_chunk_dir(
             chunk_opt.start_time.unwrap(),
-- 
2.43.0


From 9b436acf6be3f49c15925e360a8f9d24b93cb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 23/38] fix: Gorilla compaction keeps all time steps and values

---
 src/compaction/gorilla.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 90cbc1b..84620ee 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -51,14 +51,14 @@ impl GorillaCompactor {
             // second comporessed timestamp should be delta between the first timestamp in time stream and the aligned start time
             // Again, in Prometheus, Instead of using 14 bits to store. They use the delta between first and second timestamp as the second compressed timestamp
             // Again, we follow prometheus' idea
-            let t_delta = (tp.timestamp - self.t) as i64;
+            let t_delta = tp.timestamp.wrapping_sub(self.t) as i64;
             self.bstream.append_bytes(&t_delta.to_be_bytes(), 0);
             self.compact_value(&tp.value);
 
             self.d = t_delta;
         } else {
-            let t_delta: i64 = (tp.timestamp - self.t) as i64;
-            let dod = t_delta - self.d;
+            let t_delta: i64 = tp.timestamp.wrapping_sub(self.t) as i64;
+            let dod = t_delta.wrapping_sub(self.d);
 
             self.d = t_delta;
 
@@ -101,7 +101,8 @@ impl GorillaCompactor {
             } else {
                 // single one bit
                 self.bstream.write_one();
-                let leading: u8 = xord.leading_zeros() as u8;
+                // only 5 bits to store it
+                let leading: u8 = std::cmp::min(xord.leading_zeros(), 31) as u8;
                 let trailing: u8 = xord.trailing_zeros() as u8;
                 if self.len > 1 && leading >= self.leading && trailing >= self.tailing {
                     self.bstream.write_zero(); // write 10
@@ -117,6 +118,7 @@ impl GorillaCompactor {
                                               // Use the next 5 bits to store len of leading zeros
                     self.bstream.write_bits((leading as u64).to_be_bytes(), 5);
 
+                    // only 6 bits to store it, all 64 are stored as 0
                     let sigbits = value_size as u8 - leading - trailing;
                     self.bstream.write_bits((sigbits as u64).to_be_bytes(), 6);
                     self.bstream
@@ -208,9 +210,13 @@ impl GorillaDecompactor {
             if l != 6 {
                 return None;
             }
-            let sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            let sig_len = match u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes()) {
+                0 => value_size as u8,
+                sig_len => sig_len,
+            };
 
-            let tailing = value_size as u8 - sig_len - leading;
+            // cannot have more bits than a value has
+            let tailing = (value_size as u8).checked_sub(sig_len + leading)?;
 
             let mut sigbit = vec_with_len(value_size / 8);
             let l = self
@@ -244,22 +250,26 @@ impl GorillaDecompactor {
         }
         match range {
             8 => {
-                self.d = i8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                let dod = i8::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64;
+                self.d = self.d.wrapping_add(dod);
             }
             16 => {
-                self.d = i16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                let dod = i16::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64;
+                self.d = self.d.wrapping_add(dod);
             }
             32 => {
-                self.d = i32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64 + self.d;
+                let dod = i32::from_be_bytes(bytes.as_slice().try_into().unwrap()) as i64;
+                self.d = self.d.wrapping_add(dod);
             }
             64 => {
-                self.d = i64::from_be_bytes(bytes.as_slice().try_into().unwrap()) + self.d;
+                let dod = i64::from_be_bytes(bytes.as_slice().try_into().unwrap());
+                self.d = self.d.wrapping_add(dod);
             }
             _ => {
                 // should never been here.
             }
         }
-        let timestamp = self.t + self.d as u64;
+        let timestamp = self.t.wrapping_add(self.d as u64);
         Some(timestamp)
     }
 }
@@ -302,7 +312,7 @@ impl Iterator for GorillaDecompactor {
             }
 
             let delta = i64::from_be_bytes(delta_v.as_slice().try_into().unwrap());
-            let timestamp = delta + self.t as i64;
+            let timestamp = delta.wrapping_add(self.t as i64);
 
             self.d = delta;
             self.t = timestamp as u64;
@@ -325,7 +335,7 @@ impl Iterator for GorillaDecompactor {
             let mut timestamp = 0;
             if dod_flag_byte & 0b10000000 == 0 {
                 // dod == 0
-                timestamp = self.t + self.d as u64;
+                timestamp = self.t.wrapping_add(self.d as u64);
                 self.source
                     .reset_cursor(self.source.get_cursor() + (4 - l) - 3);
             } else if dod_flag_byte & 0b11000000 == 0b10000000 {
@@ -393,7 +403,8 @@ fn vec_with_len(len: usize) -> Vec<u8> {
 
 // Find if the timestamp's meaningful in the `nbit` range.
 fn in_bit_range(t: i64, nbits: u8) -> bool {
-    return -((1 << (nbits - 1)) - 1) as i64 <= t && t <= 1 << (nbits - 1) as i64;
+    let limit = 1i64 << (nbits - 1);
+    return -limit < t && t < limit;
 }
 
 #[cfg(test)]
-- 
2.43.0


From d846051fe3f850779cc672ff9076be77106ac21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 24/38] fix: uncompressed compaction keeps the samples

---
 src/compaction/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index b3b3fcd..fa25ef5 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -100,10 +100,11 @@ impl Compactor {
                 vec.push(CompactType::Gorilla as u8);
                 vec
             }
-            &mut Compactor::None(ref _v) => {
-                let mut vec = _v.clone();
-                vec.push(CompactType::None as u8);
-                vec
+            &mut Compactor::None(_) => {
+                for tp in data {
+                    self.compact(&tp);
+                }
+                self.get_bytes_vec()
             }
         }
     }
@@ -165,7 +166,7 @@ impl Decompactor {
             &mut Decompactor::Gorilla(ref decompactor) => Ok(Vec::from_iter(decompactor.clone())),
             &mut Decompactor::None(ref _v) => {
                 let timepoint_size =
-                    std::mem::size_of::<Timestamp>() * 8 + std::mem::size_of::<Value>();
+                    std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
                 let mut res = vec![];
                 for _b in _v.chunks(timepoint_size) {
                     let (timestamp_bytes, value_bytes) =
-- 
2.43.0


From b1aeb5d16a401654f050dd030b7399a0ef4a2fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 25/38] fix: damaged compacted data does not end in a panic

---
 src/compaction/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index fa25ef5..b821da5 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -144,6 +144,9 @@ impl Decompactor {
                     ));
                 }
                 let bstream = Bstream::from_bytes(data);
+                if bstream.remaining > 7 || bstream.data.is_empty() && bstream.remaining > 0 {
+                    return Err(MonolithErr::InternalErr("Damaged compacted data".into()));
+                }
                 let decompactor = GorillaDecompactor::new(bstream);
                 Ok(Decompactor::Gorilla(decompactor))
             }
@@ -168,7 +171,8 @@ impl Decompactor {
                 let timepoint_size =
                     std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
                 let mut res = vec![];
-                for _b in _v.chunks(timepoint_size) {
+                // what follows the last whole time point is damaged
+                for _b in _v.chunks_exact(timepoint_size) {
                     let (timestamp_bytes, value_bytes) =
                         _b.split_at(std::mem::size_of::<Timestamp>());
                     let timestamp = Timestamp::from_be_bytes(timestamp_bytes.try_into().unwrap());
-- 
2.43.0


From 420a7a6a856b8d59bc44629e8c41a5293a69e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 26/38] fix: a log segment writes whole entries, all of them,
 and nothing else

---
 src/wal/segment.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index dd31035..011eb86 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -1,5 +1,5 @@
 use crate::wal::{Entry, FlushCache, FlushPolicy, WalErr, WAL_MAGIC_NUMBER};
-use crate::Result;
+use crate::{MonolithErr, Result};
 use std::fs::File;
 use std::hash::Hasher;
 use std::io::Write;
@@ -21,8 +21,9 @@ pub struct Segment<W: Write> {
 
 impl<W: Write> Write for Segment<W> {
     fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
-        self.crc.write(bytes); // update crc
-        self.writer.write(bytes)
+        let written = self.writer.write(bytes)?;
+        self.crc.write(&bytes[..written]); // update crc
+        Ok(written)
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
@@ -35,7 +36,7 @@ impl<W: Write> Write for Segment<W> {
             } => {
                 *idx = 0;
                 let _cache = cache.clone();
-                *cache = vec![Entry::default(); *size];
+                *cache = Vec::with_capacity(*size);
                 _cache
             }
             &mut FlushCache::TimeBased { .. } => {
@@ -56,7 +57,7 @@ impl<W: Write> Write for Segment<W> {
 
         if remaining.len() > 0 {
             for entry in remaining {
-                self.write(entry.content.as_slice())?;
+                self.write_all(entry.get_bytes().as_slice())?;
             }
         }
 
@@ -70,8 +71,8 @@ impl<W> Segment<W>
 {
     pub fn new(flush_policy: FlushPolicy, mut writer: W) -> Result<Segment<W>> {
         // write magic number. Note that we don't include this when compute CRC
-        writer.write(&WAL_MAGIC_NUMBER.to_be_bytes()[..]);
-        writer.flush();
+        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;
+        writer.flush()?;
 
         Ok(Segment {
             writer,
@@ -101,26 +102,34 @@ impl<W> Segment<W>
 
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
+        self.flush()?; // what is still in the cache
         let _crc = self.crc.finish();
-        self.write(&_crc.to_be_bytes())?; // append crc result
+        self.write_all(&_crc.to_be_bytes())?; // append crc result
+        self.writer.flush()?;
         Ok(())
     }
 
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
+        if entry.content.len() > u16::max_value() as usize {
+            // the length field of an entry has two bytes
+            return Err(MonolithErr::WalErr(WalErr::InternalError(
+                "Content of entry is too long".to_string(),
+            )));
+        }
         match &mut self.cache {
             &mut FlushCache::None => {
-                self.write(entry.get_bytes().as_slice())?;
-                self.flush();
+                self.write_all(entry.get_bytes().as_slice())?;
+                self.flush()?;
             }
             &mut FlushCache::NumBased {
                 limit: ref size,
                 ref mut idx,
                 ref mut cache,
             } => {
-                cache[*idx] = entry;
+                cache.push(entry);
                 *idx += 1;
-                if idx == size {
-                    self.flush();
+                if *idx >= *size {
+                    self.flush()?;
                 }
             }
             &mut FlushCache::TimeBased { ref mut cache, .. } => {
@@ -134,7 +143,7 @@ impl<W> Segment<W>
                 let entry_len = entry.len();
                 cache.push(entry);
                 if *size + entry_len >= *limit {
-                    self.flush();
+                    self.flush()?;
                 } else {
                     *size += entry_len;
                 }
-- 
2.43.0


From 15bfd14d008f7c1aec73248a7802050c939ef7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 27/38] fix: a request cut off within a nested message is
 refused as undecodable

---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 338e811..605367e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -86,8 +86,13 @@ where
                 return;
             }
         };
+        let _content_len = _content.len() as u64;
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
+        // without a limit a message that is cut off within a nested one would be taken as whole
+        input_stream
+            .push_limit(_content_len)
+            .expect("the first limit of a stream can always be set");
 
         //triage the request
         match (request.method(), request.url()) {
-- 
2.43.0


From 207d0eb2ed871882ef32c75086f93ef24abd4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 28/38] fix: --tikv_config takes the path it is given

---
 src/bin/monolith-server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/monolith-server.rs b/src/bin/monolith-server.rs
index 4f327a2..cf74a16 100644
--- a/src/bin/monolith-server.rs
+++ b/src/bin/monolith-server.rs
@@ -54,7 +54,9 @@ fn main() {
             Arg::with_name(WORKER_NUM)
                 .long(WORKER_NUM)
                 .default_value(default_worker_num.as_str()),
-            Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG),
+            Arg::with_name(TIKV_CONFIG)
+                .long(TIKV_CONFIG)
+                .takes_value(true),
         ])
         .get_matches();
 
-- 
2.43.0


From 17469c45cca9106ac19d0275a1a7ec64c007e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 29/38] fix: a chunk that starts in the millisecond of another
 one does not take its directory

---
 src/db.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index f085999..5ca3ccb 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -53,7 +53,8 @@ where
         storage_builder.write_config(&ops.base_dir)?;
 
         let chunk_size = ops.chunk_size.as_millis() as Timestamp;
-        let current_time = get_current_timestamp();
+        let current_time =
+            Self::first_free_start(&ops.base_dir, get_current_timestamp(), chunk_size);
 
         let mut chunk_opt = ChunkOpts::default();
         chunk_opt.start_time = Some(current_time);
@@ -100,6 +101,19 @@ where
         Ok(db.clone())
     }
 
+    /// The first start time, from `start_time` on, for which there is no chunk of this length yet. A chunk in the
+    /// directory of another one, as after the clock has been set back, would take the place of its samples.
+    fn first_free_start(base_dir: &Path, start_time: Timestamp, length: Timestamp) -> Timestamp {
+        let mut start_time = start_time;
+        while base_dir
+            .join(encode_chunk_dir(start_time, start_time + length))
+            .exists()
+        {
+            start_time += 1;
+        }
+        start_time
+    }
+
     /// Check if there is a metadata file in base_dir. If it does, then read file and check if the existing Indexer and Storage
     /// is the same type. If it doesn't, then create one base on db_metadata
     fn read_or_create_metadata(base_dir: &Path, db_metadata: &DbMetadata) -> Result<()> {
@@ -272,10 +286,11 @@ where
     fn swap(&self, start_time: Timestamp) -> Result<()> {
         info!("Chunk swap, new chunk with start time {}", start_time);
         let mut chunk_opt = ChunkOpts::default();
-        chunk_opt.start_time = Some(start_time);
         // both ends belong to the window, the next one starts right after it
-        chunk_opt.end_time =
-            Some(start_time + self.options.chunk_size.as_millis() as Timestamp - 1);
+        let length = (self.options.chunk_size.as_millis() as Timestamp).saturating_sub(1);
+        let start_time = Self::first_free_start(&self.options.base_dir, start_time, length);
+        chunk_opt.start_time = Some(start_time);
+        chunk_opt.end_time = Some(start_time + length);
 
         let chunk_dir = self.options.base_dir.join(encode_chunk_dir(
             chunk_opt.start_time.unwrap(),
-- 
2.43.0


From 1559a50ec66e2cacfd1d57013bf9c5c14637939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 30/38] fix: a matcher with an empty value selects the series
 without the label

---
 src/server.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 605367e..029a1c2 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,7 +2,9 @@ use crate::MonolithDb;
 
 use crate::common::label::{Label, Labels};
 use crate::common::time_series::TimeSeries;
-use crate::proto::{LabelMatcher_Type, QueryResult, ReadRequest, ReadResponse, WriteRequest};
+use crate::proto::{
+    LabelMatcher, LabelMatcher_Type, QueryResult, ReadRequest, ReadResponse, WriteRequest,
+};
 use crate::storage::Storage;
 use crate::{MonolithErr, Result, Timestamp};
 use protobuf::{CodedInputStream, CodedOutputStream, Message, RepeatedField};
@@ -173,12 +175,20 @@ where
                             // all samples are later
                             return Ok(QueryResult::new());
                         }
+                        // an empty value selects the series that do not have the label
+                        let (absent, carried): (Vec<&LabelMatcher>, Vec<&LabelMatcher>) =
+                            q.matchers.iter().partition(|m| m.value.is_empty());
+                        if carried.is_empty() && !absent.is_empty() {
+                            return Err(MonolithErr::InternalErr(
+                                "At least one matcher needs a value".to_string(),
+                            ));
+                        }
                         let v = self
                             .db
                             .query(
                                 Labels::from_vec(
-                                    q.matchers
-                                        .iter()
+                                    carried
+                                        .into_iter()
                                         .map(Label::from_label_matcher)
                                         .collect::<Vec<Label>>(),
                                 ),
@@ -187,6 +197,13 @@ where
                             )?
                             .iter()
                             .map(crate::proto::TimeSeries::from)
+                            .filter(|s: &crate::proto::TimeSeries| {
+                                absent.iter().all(|m| {
+                                    s.labels
+                                        .iter()
+                                        .all(|l| l.name != m.name || l.value.is_empty())
+                                })
+                            })
                             .collect::<Vec<crate::proto::TimeSeries>>();
                         Ok(QueryResult {
                             timeseries: RepeatedField::from(v),
-- 
2.43.0


From 60b5698065dc7ffb776bb3f0a6c5eedab8921b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 31/38] fix: a matcher of an unknown type is refused instead of
 treated as equality

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 029a1c2..20af7b4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -166,7 +166,11 @@ where
                     .queries
                     .iter()
                     .map(|q| -> Result<QueryResult> {
-                        if q.matchers.iter().any(|m| m.field_type != LabelMatcher_Type::EQ) {
+                        // a type that is not known is kept aside as field 1, the type stays EQ
+                        if q.matchers.iter().any(|m| {
+                            m.field_type != LabelMatcher_Type::EQ
+                                || m.unknown_fields.get(1).is_some()
+                        }) {
                             return Err(MonolithErr::InternalErr(
                                 "Only equality matchers are supported".to_string(),
                             ));
-- 
2.43.0


From 90781865f6ddd0d35150bb4bb03a8bc1fe6db9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 32/38] fix: the pd_endpoint key of a TiKV config file, as the
 README writes it, is ignored

---
 src/backend/tikv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index ecbf5ec..4e18ced 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -113,7 +113,7 @@ impl Default for TiKvRawBackendSingleton {
 
 #[derive(Debug, Serialize, Deserialize)]
 pub struct TiKvBackendConfigFile {
-    #[serde(default)]
+    #[serde(default, alias = "pd_endpoint")]
     pd_endpoints: Vec<String>,
     //yaml: pd_endpoints
     #[serde(default)]
-- 
2.43.0


From 2ae630c85af2fa43b80d570533b0eb0da55525b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:36 +0000
Subject: [PATCH 33/38] fix: a metadata file that cannot be read is taken for
 one that is not there

A chunk whose metadata.json could not be read was left out on opening, and that
of the database was replaced, with it the recorded backends.
---
 src/chunk/chunk.rs | 8 +++++++-
 src/db.rs          | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 46da0a3..f15f682 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -15,6 +15,7 @@ use std::sync::RwLock;
 
 use serde::{Deserialize, Serialize};
 use std::fs;
+use std::io::ErrorKind;
 
 /// ChunkOps contains all options for chunk
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -36,7 +37,12 @@ impl ChunkOpts {
                 "Cannot open option file from dir {}",
                 dir.as_os_str().to_str().unwrap_or("<unreadable path>")
             );
-            Err(MonolithErr::NotFoundErr)
+            match content.unwrap_err() {
+                ref err if err.kind() == ErrorKind::NotFound => Err(MonolithErr::NotFoundErr),
+                ref err if err.kind() == ErrorKind::NotADirectory => Err(MonolithErr::NotFoundErr),
+                // there may well be one, and a chunk that must not be left out
+                err => Err(err.into()),
+            }
         };
     }
 
diff --git a/src/db.rs b/src/db.rs
index 5ca3ccb..d577a44 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::io::ErrorKind;
 use std::path::Path;
 use std::sync::mpsc::channel;
 use std::sync::{Arc, RwLock};
@@ -127,6 +128,11 @@ where
                 return Err(MonolithErr::OptionErr);
             }
         } else {
+            match content.unwrap_err() {
+                ref err if err.kind() == ErrorKind::NotFound => {}
+                // there may well be one, which must not be replaced
+                err => return Err(err.into()),
+            }
             // rename, so that there is never an incomplete file under this name
             let temp_file = base_dir.join(format!("{}.tmp", DB_METADATA_FILENAME));
             fs::write(&temp_file, serde_json::to_vec(db_metadata)?)?;
-- 
2.43.0


From 7fe16915e1b1012fbcbb2c1f64994adf6f8a9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 34/38] fix: a log segment with a large limit cannot be opened

The buffer of a segment was allocated for as many entries as its limit could
ever let it hold, and eight for every byte of a size-based one. With a limit
of some gigabytes, or one that leaves flushing to the caller, this panics or
ends the process.
---
 src/wal/segment.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 011eb86..9365db0 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -8,8 +8,6 @@ use std::sync::{Arc, Mutex};
 
 type FileMutex = Arc<Mutex<File>>;
 
-const AVG_NUM_BYTES_IN_ENTRY: usize = 8;
-
 /// Segment is one write ahead file
 ///
 /// Segment is **NOT** concurrent-safe.
@@ -30,28 +28,24 @@ impl<W: Write> Write for Segment<W> {
         let remaining = match &mut self.cache {
             &mut FlushCache::None => vec![],
             &mut FlushCache::NumBased {
-                limit: ref size,
                 ref mut idx,
                 ref mut cache,
+                ..
             } => {
                 *idx = 0;
-                let _cache = cache.clone();
-                *cache = Vec::with_capacity(*size);
-                _cache
+                std::mem::replace(cache, Vec::new())
             }
             &mut FlushCache::TimeBased { .. } => {
                 // fixme and above
                 vec![]
             }
             &mut FlushCache::SizeBased {
-                ref limit,
                 ref mut cache,
                 ref mut size,
+                ..
             } => {
                 *size = 0;
-                let _cache = cache.clone();
-                *cache = Vec::with_capacity(limit * AVG_NUM_BYTES_IN_ENTRY);
-                _cache
+                std::mem::replace(cache, Vec::new())
             }
         };
 
@@ -88,12 +82,12 @@ impl<W> Segment<W>
                 FlushPolicy::NumBased(limit) => FlushCache::NumBased {
                     limit,
                     idx: 0,
-                    cache: Vec::with_capacity(limit),
+                    cache: Vec::new(),
                 },
                 FlushPolicy::SizeBased(limit) => FlushCache::SizeBased {
                     limit,
                     size: 0,
-                    cache: Vec::with_capacity(limit * AVG_NUM_BYTES_IN_ENTRY),
+                    cache: Vec::new(),
                 },
             },
             crc: crc::crc64::Digest::new(crc::crc64::ECMA),
-- 
2.43.0


From be47d531628b69f258f5da989b099263b7a09a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:23 +0000
Subject: [PATCH 35/38] fix: a chunk size of more milliseconds than a timestamp
 can hold is cut to another one

18446744073709552 seconds became a window of 384 milliseconds.
---
 src/db.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/db.rs b/src/db.rs
index d577a44..7d6eba8 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::io::ErrorKind;
 use std::path::Path;
 use std::sync::mpsc::channel;
@@ -40,6 +41,12 @@ where
         storage_builder: Box<dyn Builder<S> + Sync + Send>,
         indexer_builder: Box<dyn Builder<I> + Sync + Send>,
     ) -> Result<Arc<Self>> {
+        // a window of that length has to end before the last of all timestamps
+        Timestamp::try_from(ops.chunk_size.as_millis())
+            .ok()
+            .and_then(|size| get_current_timestamp().checked_add(size))
+            .ok_or(MonolithErr::OptionErr)?;
+
         let db_metadata = DbMetadata {
             indexer_type: S::get_type_name().to_string(),
             storage_type: I::get_type_name().to_string(),
-- 
2.43.0


From 780a51641b7b2c639e821470e75c23f70e51a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:36 +0000
Subject: [PATCH 36/38] fix: a server with zero workers, that is as many as
 there are processors, never answers

---
 src/server.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 20af7b4..f49bf1d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -50,8 +50,13 @@ where
         let addr = format!("127.0.0.1:{}", self.port);
         let server = Server::http(addr).unwrap();
 
+        // none given: as many as there are processors
+        let worker_num = match self.worker_num {
+            0 => rayon::current_num_threads(),
+            worker_num => worker_num,
+        };
         let workers = rayon::ThreadPoolBuilder::new()
-            .num_threads(self.worker_num + 1) // one of them accepts the requests
+            .num_threads(worker_num.saturating_add(1)) // one of them accepts the requests
             .build()
             .unwrap();
 
-- 
2.43.0


From 88d6cb563234cd2b10438dc78eef16ec99f27792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:36 +0000
Subject: [PATCH 37/38] fix: flushing or closing a time-based log segment drops
 what is in its cache

---
 src/wal/segment.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 9365db0..24a2b04 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -35,9 +35,8 @@ impl<W: Write> Write for Segment<W> {
                 *idx = 0;
                 std::mem::replace(cache, Vec::new())
             }
-            &mut FlushCache::TimeBased { .. } => {
-                // fixme and above
-                vec![]
+            &mut FlushCache::TimeBased { ref mut cache, .. } => {
+                std::mem::replace(&mut *cache.lock().unwrap(), Vec::new())
             }
             &mut FlushCache::SizeBased {
                 ref mut cache,
-- 
2.43.0


From 0c3d4d2639293dd22d1ee7d2031c20d1ee138533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:36 +0000
Subject: [PATCH 38/38] fix: a sled database whose files cannot be opened ends
 the thread that does the rollovers

---
 src/common/utils.rs         | 11 +++++++++++
 src/indexer/sled_indexer.rs |  6 +++---
 src/storage/sled_storage.rs |  5 +++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index 9f9c33e..60b3533 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -3,6 +3,7 @@ use crate::time_series::TimeSeriesId;
 use crate::{MonolithErr, Result, Timestamp};
 use std::fs::File;
 use std::ops::Index;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::path::Path;
 use std::sync::mpsc::{channel, Receiver, Sender, TryRecvError};
 use std::time::{SystemTime, UNIX_EPOCH};
@@ -23,6 +24,16 @@ pub fn get_current_timestamp() -> Timestamp {
     since_the_epoch.as_millis() as Timestamp
 }
 
+/// Open a sled database. Sled panics if it cannot open its files, which is an error like any other.
+pub(crate) fn open_sled(config: sled::ConfigBuilder) -> Result<sled::Db> {
+    match catch_unwind(AssertUnwindSafe(|| sled::Db::start(config.build()))) {
+        Ok(res) => Ok(res?),
+        Err(_) => Err(MonolithErr::IoError(
+            "Cannot open the files of a sled database".to_string(),
+        )),
+    }
+}
+
 pub fn encode_chunk_dir(start_time: Timestamp, end_time: Timestamp) -> String {
     let mut res = 0u128;
     res |= start_time as u128;
diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index d61e47b..36d9d46 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -10,7 +10,7 @@ use std::path::{Path, PathBuf};
 use crate::chunk::ChunkOpts;
 use crate::common::option::DbOpts;
 use crate::indexer::Indexer;
-use crate::utils::intersect_time_series_id_vec;
+use crate::utils::{intersect_time_series_id_vec, open_sled};
 
 const LABEL_REVERSE_PREFIX: &str = "LR";
 const LABEL_PREFIX: &str = "L";
@@ -31,7 +31,7 @@ pub struct SledIndexer {
 impl SledIndexer {
     pub fn new(dir: &Path) -> Result<SledIndexer> {
         Ok(SledIndexer {
-            storage: Db::start_default(dir)?,
+            storage: open_sled(sled::ConfigBuilder::new().path(dir))?,
         })
     }
 
@@ -174,7 +174,7 @@ impl Builder<SledIndexer> for SledIndexerBuilder {
 
     fn read_from_chunk(&self, dir: &Path, _: Option<&ChunkOpts>) -> Result<Option<SledIndexer>> {
         Ok(Some(SledIndexer {
-            storage: sled::Db::start_default(dir)?,
+            storage: open_sled(sled::ConfigBuilder::new().path(dir))?,
         }))
     }
 
diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index 98a90ba..0efc2f0 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -6,6 +6,7 @@ use crate::{Builder, HasTypeName, MonolithErr, Result, Timestamp, Value};
 use sled::{Db, Tree};
 
 use crate::chunk::ChunkOpts;
+use crate::common::utils::open_sled;
 use crate::option::DbOpts;
 use std::convert::TryInto;
 use std::path::{Path, PathBuf};
@@ -24,7 +25,7 @@ pub struct SledStorage {
 impl SledStorage {
     pub fn new(p: &Path) -> Result<SledStorage> {
         Ok(SledStorage {
-            storage: sled::Db::start_default(p)?,
+            storage: open_sled(sled::ConfigBuilder::new().path(p))?,
         })
     }
 
@@ -157,7 +158,7 @@ impl Builder<SledStorage> for SledStorageBuilder {
         // Sled will create an empty db if there is nothing in dir.
         let config = sled::ConfigBuilder::default().path(dir).read_only(true);
         Ok(Some(SledStorage {
-            storage: sled::Db::start(config.build())?,
+            storage: open_sled(config)?,
         }))
     }
 
-- 
2.43.0

