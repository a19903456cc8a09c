From 67fb2ad0021883b71fc3038d6fe62b138a5e00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 01/30] verif hooks: harness entry points and small thresholds
 behind cfg(tsfile_verif), cfg(tsfile_verif_small)

---
 tsfile-writer/src/sync/sync_sender.rs     |  4 ++
 tsfile-writer/src/sync/verif.rs           | 65 +++++++++++++++++++++++
 tsfile-writer/src/writer/chunk_writer.rs  |  9 ++++
 tsfile-writer/src/writer/mod.rs           |  2 +
 tsfile-writer/src/writer/tsfile_writer.rs |  6 +++
 tsfile-writer/src/writer/verif.rs         | 39 ++++++++++++++
 6 files changed, 125 insertions(+)
 create mode 100644 tsfile-writer/src/sync/verif.rs
 create mode 100644 tsfile-writer/src/writer/verif.rs

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 8224cda..41f103b 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -16,6 +16,10 @@ use crate::writer::Schema;
 use crate::sync::mlog::MLog;
 use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClient};
 
+#[cfg(tsfile_verif)]
+#[path = "verif.rs"]
+pub mod verif;
+
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
 
diff --git a/tsfile-writer/src/sync/verif.rs b/tsfile-writer/src/sync/verif.rs
new file mode 100644
index 0000000..21eeb52
--- /dev/null
+++ b/tsfile-writer/src/sync/verif.rs
@@ -0,0 +1,65 @@
+//! Entry points for the verification harness.
+//! Only compiled with `RUSTFLAGS="--cfg tsfile_verif"`, never part of a normal build.
+use super::{SyncSender, SyncSenderError};
+use crate::sync::mlog::MLog;
+use crate::writer::compression::CompressionType;
+use crate::writer::encoding::TSEncoding;
+use crate::writer::errors::TsFileError;
+use crate::writer::{Schema, TSDataType};
+use thrift::protocol::{TBinaryInputProtocol, TBinaryOutputProtocol};
+use thrift::transport::{
+    ReadHalf, TFramedReadTransport, TFramedWriteTransport, TTcpChannel, WriteHalf,
+};
+
+pub type TcpSyncSender = SyncSender<
+    TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>,
+    TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,
+>;
+
+/// `SyncSender::sync`
+pub fn sync(
+    sender: &mut TcpSyncSender,
+    filename: &str,
+    storage_group: &str,
+    schema: Schema,
+) -> Result<(), SyncSenderError> {
+    sender.sync(filename, storage_group, schema)
+}
+
+/// `SyncSender::write_mlog`
+pub fn write_mlog(storage_group: &str, schema: Schema) -> Result<Vec<u8>, TsFileError> {
+    TcpSyncSender::write_mlog(storage_group, schema)
+}
+
+/// `SyncSender::calculate_digest`
+pub fn calculate_digest(bytes: &[u8]) -> String {
+    TcpSyncSender::calculate_digest(bytes)
+}
+
+/// The (private) `MLog`
+pub struct Log(MLog);
+
+impl Log {
+    #[allow(clippy::new_without_default)]
+    pub fn new() -> Log {
+        Log(MLog::new())
+    }
+
+    pub fn set_storage_group_plan(&mut self, path: &str) -> Result<(), TsFileError> {
+        self.0.set_storage_group_plan(path)
+    }
+
+    pub fn create_plan(
+        &mut self,
+        path: &str,
+        data_type: TSDataType,
+        encoding: TSEncoding,
+        compression: CompressionType,
+    ) -> Result<(), TsFileError> {
+        self.0.create_plan(path, data_type, encoding, compression)
+    }
+
+    pub fn flush(&mut self, out: &mut Vec<u8>) -> Result<(), std::io::Error> {
+        self.0.flush(out).map(|_| ())
+    }
+}
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 32decf5..708f870 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -13,9 +13,18 @@ use std::io;
 use std::io::Write;
 
 const MAX_NUMBER_OF_POINTS_IN_PAGE: u32 = 1048576;
+#[cfg(not(tsfile_verif_small))]
 const VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK: u32 = 7989;
+#[cfg(tsfile_verif_small)]
+const VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK: u32 = 2;
+#[cfg(not(tsfile_verif_small))]
 const PAGE_SIZE_THRESHOLD: u32 = 65536;
+#[cfg(tsfile_verif_small)]
+const PAGE_SIZE_THRESHOLD: u32 = 60;
+#[cfg(not(tsfile_verif_small))]
 const MINIMUM_RECORD_COUNT_FOR_CHECK: u32 = 1500;
+#[cfg(tsfile_verif_small)]
+const MINIMUM_RECORD_COUNT_FOR_CHECK: u32 = 2;
 
 struct PageWriter {
     time_encoder: LongTs2DiffEncoder,
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index d047714..4a42881 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -105,6 +105,8 @@ pub mod ts_file_config;
 mod tsfile_io_writer;
 pub mod tsfile_writer;
 mod utils;
+#[cfg(tsfile_verif)]
+pub mod verif;
 
 use crate::writer::chunk_writer::ChunkMetadata;
 use crate::writer::compression::CompressionType;
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index dc2a561..f240636 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -11,7 +11,10 @@ use std::borrow::Borrow;
 use std::collections::{BTreeMap, HashMap};
 use std::fs::{create_dir_all, File};
 
+#[cfg(not(tsfile_verif_small))]
 const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 128 * 1024 * 1024;
+#[cfg(tsfile_verif_small)]
+const CHUNK_GROUP_SIZE_THRESHOLD_BYTE: u32 = 400;
 
 /// Class defined to hold a datapoint for writing into a given device.
 /// Consists of a measurement_id and a value
@@ -339,7 +342,10 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             chunk_group_metadata: vec![],
             timeseries_metadata_map: HashMap::new(),
             record_count: 0,
+            #[cfg(not(tsfile_verif_small))]
             record_count_for_next_mem_check: 100,
+            #[cfg(tsfile_verif_small)]
+            record_count_for_next_mem_check: 4,
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             file_io_writer: io_writer,
diff --git a/tsfile-writer/src/writer/verif.rs b/tsfile-writer/src/writer/verif.rs
new file mode 100644
index 0000000..05fa857
--- /dev/null
+++ b/tsfile-writer/src/writer/verif.rs
@@ -0,0 +1,39 @@
+//! Entry points for the verification harness.
+//! Only compiled with `RUSTFLAGS="--cfg tsfile_verif"`, never part of a normal build.
+use crate::writer::errors::TsFileError;
+use crate::writer::tsfile_writer::TsFileWriter;
+use crate::writer::{utils, Schema, TsFileConfig, WriteWrapper};
+use std::io::{Read, Write};
+
+/// Creates a writer on any sink, optionally with another fan-out of the index nodes.
+pub fn writer_on<'a, W: Write>(
+    schema: Schema<'a>,
+    sink: W,
+    max_degree_of_index_node: Option<usize>,
+) -> Result<TsFileWriter<'a, WriteWrapper<W>>, TsFileError> {
+    let mut config = TsFileConfig::default();
+    if let Some(degree) = max_degree_of_index_node {
+        config.max_degree_of_index_node = degree;
+    }
+    TsFileWriter::new_from_writer(schema, WriteWrapper::new(sink), config)
+}
+
+pub fn write_var_u32(num: u32, buffer: &mut Vec<u8>) -> Result<u8, TsFileError> {
+    utils::write_var_u32(num, buffer)
+}
+
+pub fn write_var_i32(num: i32, buffer: &mut Vec<u8>) -> Result<u8, TsFileError> {
+    utils::write_var_i32(num, buffer)
+}
+
+pub fn size_var_u32(num: u32) -> u8 {
+    utils::size_var_u32(num)
+}
+
+pub fn size_var_i32(num: i32) -> u8 {
+    utils::size_var_i32(num)
+}
+
+pub fn read_var_u32(buffer: &mut dyn Read) -> Result<u32, TsFileError> {
+    utils::read_var_u32(buffer)
+}
-- 
2.43.0


From 95891ffc94afb03bad5e2c6a120e63e6a816cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 02/30] fix: murmur hash wraps on overflow as the reference
 implementation does

---
 tsfile-writer/src/writer/murmur128.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tsfile-writer/src/writer/murmur128.rs b/tsfile-writer/src/writer/murmur128.rs
index 6b3b217..c9c5016 100644
--- a/tsfile-writer/src/writer/murmur128.rs
+++ b/tsfile-writer/src/writer/murmur128.rs
@@ -57,20 +57,20 @@ impl Murmur128 {
         for i in 0..nblocks {
             let mut k1 = Self::get_block(key, offset, i * 2);
             let mut k2 = Self::get_block(key, offset, i * 2 + 1);
-            k1 *= c1;
+            k1 = k1.wrapping_mul(c1);
             k1 = Self::rotl64(k1, 31);
-            k1 *= c2;
+            k1 = k1.wrapping_mul(c2);
             h1 ^= k1;
             h1 = Self::rotl64(h1, 27);
-            h1 += h2;
-            h1 = h1 * 5 + 0x52dce729;
-            k2 *= c2;
+            h1 = h1.wrapping_add(h2);
+            h1 = h1.wrapping_mul(5).wrapping_add(0x52dce729);
+            k2 = k2.wrapping_mul(c2);
             k2 = Self::rotl64(k2, 33);
-            k2 *= c1;
+            k2 = k2.wrapping_mul(c1);
             h2 ^= k2;
             h2 = Self::rotl64(h2, 31);
-            h2 += h1;
-            h2 = h2 * 5 + 0x38495ab5;
+            h2 = h2.wrapping_add(h1);
+            h2 = h2.wrapping_mul(5).wrapping_add(0x38495ab5);
         }
         // ----------
         // tail
@@ -143,8 +143,8 @@ impl Murmur128 {
         // finalization
         h1 ^= length as i64;
         h2 ^= length as i64;
-        h1 += h2;
-        h2 += h1;
+        h1 = h1.wrapping_add(h2);
+        h2 = h2.wrapping_add(h1);
         h1 = Self::fmix(h1);
         h2 = Self::fmix(h2);
         h1 = ((h1 as i128) + (h2 as i128)) as i64;
-- 
2.43.0


From 3cb9284e682eba8ac936e0b6d215fa4f754a346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 03/30] fix: Bloom filter hash of i32::MIN does not panic

---
 tsfile-writer/src/writer/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 4a42881..e0e9611 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -671,7 +671,9 @@ impl HashFunction {
 
     fn hash(&self, value: &str) -> usize {
         // return Math.abs(Murmur128Hash.hash(value, seed)) % cap;
-        (self._murmur_hash(value, self.seed).abs() % self.cap) as usize
+        // the absolute value of i32::MIN does not exist
+        let hash = self._murmur_hash(value, self.seed);
+        (hash.checked_abs().unwrap_or(0) % self.cap) as usize
     }
 }
 
-- 
2.43.0


From a87e39a3cabac0a9628723eeee575be288f06d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 04/30] fix: Bloom filter byte count rounds up

---
 tsfile-writer/src/writer/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index e0e9611..f1bd401 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -739,11 +739,7 @@ impl BloomFilter {
     }
 
     fn serialize_bits(&self) -> Vec<u8> {
-        let number_of_bytes = if self.bit_set.len() % 8 == 0 {
-            self.bit_set.len() / 8
-        } else {
-            (self.bit_set.len() + (self.bit_set.len() % 8)) / 8
-        };
+        let number_of_bytes = (self.bit_set.len() + 7) / 8;
 
         let mut result = vec![0_u8; number_of_bytes];
 
-- 
2.43.0


From aab7be5d6f67429ab73cebc7a27518385b7c8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 05/30] fix: device entries of the metadata index are sorted by
 name

---
 tsfile-writer/src/writer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index f1bd401..997e92a 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -509,7 +509,8 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
     ) -> MetadataIndexNode {
-        let mut device_metadata_index_map: HashMap<String, MetadataIndexNode> = HashMap::new();
+        // readers search the devices by name, entries have to be in order
+        let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
             if list_metadata.is_empty() {
-- 
2.43.0


From 14aa4c6a5fbf256b2130c2f5288e6999307522b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 06/30] fix: inner nodes of the metadata index are complete and
 their children written

---
 tsfile-writer/src/writer/mod.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 997e92a..bb357d4 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -456,26 +456,21 @@ impl MetadataIndexNode {
         //   queueSize = metadataIndexNodeQueue.size();
         // }
         // return metadataIndexNodeQueue.poll();
-        // TODO
         let mut queue_size = measurement_metadata_index_queue.len();
-        let mut metadata_index_node;
         let mut current_index_metadata = MetadataIndexNode::new(node_type.clone());
 
         while queue_size != 1 {
             for i in 0..queue_size {
-                metadata_index_node = measurement_metadata_index_queue.last().unwrap().clone();
-                let device = match metadata_index_node.children.get(0) {
-                    None => {
-                        panic!("...")
-                    }
-                    Some(inner) => inner.name.clone(),
-                };
-                measurement_metadata_index_queue.remove(measurement_metadata_index_queue.len() - 1);
+                let metadata_index_node = measurement_metadata_index_queue.remove(0);
+                // when constructing from internal node, each node is related to an entry
                 if current_index_metadata.is_full(config) {
-                    current_index_metadata.end_offset = file.get_position() as usize;
-                    measurement_metadata_index_queue.push(current_index_metadata.clone());
+                    Self::add_current_index_node_to_queue(
+                        &mut current_index_metadata,
+                        &mut measurement_metadata_index_queue,
+                        file,
+                    );
+                    current_index_metadata = MetadataIndexNode::new(node_type.clone());
                 }
-                // ...
                 let name = match metadata_index_node.children.get(0) {
                     None => {
                         panic!("This should not happen!")
@@ -486,6 +481,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position() as usize,
                 });
+                metadata_index_node.serialize(file);
             }
             // ...
             Self::add_current_index_node_to_queue(
@@ -493,11 +489,7 @@ impl MetadataIndexNode {
                 &mut measurement_metadata_index_queue,
                 file,
             );
-            current_index_metadata = MetadataIndexNode {
-                children: vec![],
-                end_offset: 0,
-                node_type: node_type.clone(),
-            };
+            current_index_metadata = MetadataIndexNode::new(node_type.clone());
             queue_size = measurement_metadata_index_queue.len();
         }
         return measurement_metadata_index_queue.get(0).unwrap().clone();
-- 
2.43.0


From fba10b5c1c12944f70e66cd84e62db778518eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 07/30] fix: more devices than fit into one index node get a
 device index

---
 tsfile-writer/src/writer/mod.rs | 36 ++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index bb357d4..c549fb9 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -330,6 +330,7 @@ enum MetadataIndexNodeType {
     LeafMeasurement,
     InternalMeasurement,
     LeafDevice,
+    InternalDevice,
 }
 
 impl Serializable for MetadataIndexNodeType {
@@ -349,6 +350,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::LeafMeasurement => 0x03,
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
+            MetadataIndexNodeType::InternalDevice => 0x00,
         };
         file.write(&[byte]);
 
@@ -567,7 +569,39 @@ impl MetadataIndexNode {
             return metadata_index_node;
         }
 
-        panic!("This is not yet implemented!");
+        // else, build level index for devices
+        let mut device_metadata_index_queue: Vec<MetadataIndexNode> = vec![];
+        let mut current_index_node = MetadataIndexNode::new(LeafDevice);
+
+        for (s, value) in device_metadata_index_map {
+            // when constructing from internal node, each node is related to an entry
+            if current_index_node.is_full(config) {
+                Self::add_current_index_node_to_queue(
+                    &mut current_index_node,
+                    &mut device_metadata_index_queue,
+                    file,
+                );
+                current_index_node = MetadataIndexNode::new(LeafDevice);
+            }
+            current_index_node.children.push(MetadataIndexEntry {
+                name: s,
+                offset: file.get_position() as usize,
+            });
+            value.serialize(file);
+        }
+        Self::add_current_index_node_to_queue(
+            &mut current_index_node,
+            &mut device_metadata_index_queue,
+            file,
+        );
+        let mut device_metadata_index_node = Self::generate_root_node(
+            device_metadata_index_queue,
+            file,
+            MetadataIndexNodeType::InternalDevice,
+            config,
+        );
+        device_metadata_index_node.end_offset = file.get_position() as usize;
+        device_metadata_index_node
 
         // // if not exceed the max child nodes num, ignore the device index and directly point to the
         // // measurement
-- 
2.43.0


From 6761aadab763c96e45a389bd003fed9c4e4194f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 08/30] fix: series are indexed by device and measurement, not
 by their joined path

---
 tsfile-writer/src/writer/tsfile_io_writer.rs | 56 +++++++-------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index aa85257..dc92c63 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -141,21 +141,20 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         //     .collect();
 
         // Create metadata list
-        let mut chunk_metadata_map: BTreeMap<Path, Vec<ChunkMetadata>> = BTreeMap::new();
+        // (device, measurement), as both names may contain dots the path alone does not tell them
+        let mut chunk_metadata_map: BTreeMap<(String, String), Vec<ChunkMetadata>> =
+            BTreeMap::new();
         for group_metadata in &self.chunk_group_metadata_list {
             for chunk_metadata in &group_metadata.chunk_metadata {
-                let device_path = format!(
-                    "{}.{}",
-                    &group_metadata.device_id, &chunk_metadata.measurement_id
+                let series = (
+                    group_metadata.device_id.clone(),
+                    chunk_metadata.measurement_id.clone(),
                 );
-                let path = Path {
-                    path: device_path.clone(),
-                };
-                if !&chunk_metadata_map.contains_key(&path) {
-                    chunk_metadata_map.insert(path.clone(), vec![]);
+                if !&chunk_metadata_map.contains_key(&series) {
+                    chunk_metadata_map.insert(series.clone(), vec![]);
                 }
                 chunk_metadata_map
-                    .get_mut(&path)
+                    .get_mut(&series)
                     .unwrap()
                     .push(chunk_metadata.clone());
             }
@@ -177,7 +176,12 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         // Now serialize the Bloom Filter ?!
 
-        let paths = chunk_metadata_map.keys().into_iter().cloned().collect();
+        let paths = chunk_metadata_map
+            .keys()
+            .map(|(device_id, measurement_id)| Path {
+                path: format!("{}.{}", device_id, measurement_id),
+            })
+            .collect();
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
@@ -193,22 +197,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
     fn flush_metadata_index(
         &mut self,
-        chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
+        chunk_metadata_list: &BTreeMap<(String, String), Vec<ChunkMetadata>>,
     ) -> MetadataIndexNode {
-        let mut last_path: Option<String> = None;
-        for (path, metadata) in chunk_metadata_list.iter() {
-            // TODO do we really need this check here?
-            // ensure that paths are printed in alphabetical order
-            match &last_path {
-                None => last_path = Some(path.path.clone()),
-                Some(p) => {
-                    assert!(
-                        p < &path.path,
-                        "Something went wrong.. footer was written in wrong order"
-                    );
-                }
-            }
-            // Now regular operation starts
+        for ((device_id, _), metadata) in chunk_metadata_list.iter() {
             let data_type = metadata.get(0).unwrap().data_type;
             let serialize_statistic = metadata.len() > 1;
             let mut statistics = Statistics::new(data_type);
@@ -240,22 +231,13 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             };
 
             // Add to the global struct
-            let split = path.path.split('.').collect::<Vec<&str>>();
-            let mut device_id = "".to_owned();
-            for i in 0..split.len() - 1 {
-                if i > 0 {
-                    device_id.push('.');
-                }
-                device_id.push_str(*split.get(i).unwrap());
-            }
-
-            if !self.timeseries_metadata_map.contains_key(&device_id) {
+            if !self.timeseries_metadata_map.contains_key(device_id) {
                 self.timeseries_metadata_map
                     .insert(device_id.clone(), vec![]);
             }
 
             self.timeseries_metadata_map
-                .get_mut(&device_id)
+                .get_mut(device_id)
                 .unwrap()
                 .push(Box::new(timeseries_metadata));
         }
-- 
2.43.0


From 533d83cdc991c5531700a8c0c4beb447cf3f1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 09/30] fix: TS2DIFF deltas wrap around when they exceed the
 integer range

---
 tsfile-writer/src/writer/encoding/time_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/encoding/time_encoder.rs b/tsfile-writer/src/writer/encoding/time_encoder.rs
index 1b2780d..5f4b108 100644
--- a/tsfile-writer/src/writer/encoding/time_encoder.rs
+++ b/tsfile-writer/src/writer/encoding/time_encoder.rs
@@ -45,7 +45,7 @@ macro_rules! ts2diff_encoder {
                     }
                     Some(_) => {
                         // calc delta
-                        let delta = value - self.previous_value;
+                        let delta = <$type>::wrapping_sub(value, self.previous_value);
                         // If delta is min, store it
                         if delta < self.min_delta {
                             self.min_delta = delta;
@@ -124,7 +124,7 @@ macro_rules! ts2diff_encoder {
                 let mut delta_block_buffer: Vec<$type> = vec![];
 
                 for delta in &self.values {
-                    delta_block_buffer.push(delta - self.min_delta);
+                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                 }
 
                 let write_width =
-- 
2.43.0


From c95dc4af0aee48c0f5c7a39981778e83c14dd3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 10/30] fix: a value of the wrong type or without an encoder is
 refused with an error

---
 tsfile-writer/src/writer/chunk_writer.rs | 7 +++++++
 tsfile-writer/src/writer/group_writer.rs | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 708f870..5f412ab 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -290,6 +290,13 @@ impl ChunkWriter {
     }
 
     pub fn write(&mut self, timestamp: i64, mut value: IoTDBValue) -> Result<u32, TsFileError> {
+        // Nothing of a value of another type may reach the encoders
+        match (self.data_type, &value) {
+            (TSDataType::INT32, IoTDBValue::INT(_))
+            | (TSDataType::INT64, IoTDBValue::LONG(_))
+            | (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
+            _ => return Err(TsFileError::WrongTypeForSeries),
+        }
         // self.statistics.update(timestamp, &value);
         match &mut self.current_page_writer {
             None => {
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 4c422c3..5bc6107 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -92,7 +92,7 @@ impl<'a> GroupWriter<'a> {
         self.check_is_history_data(measurement_id, timestamp)?;
 
         let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
-            Some(chunk_writer) => chunk_writer.write(timestamp, value).unwrap(),
+            Some(chunk_writer) => chunk_writer.write(timestamp, value)?,
             None => {
                 return Err(TsFileError::IllegalState {
                     source: Some("Unknown measurement id".to_owned()),
-- 
2.43.0


From f560f558d33bf2262fac3f1a3376649dd66207ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 11/30] fix: points before a refused one in write_many are
 counted and flushed

---
 tsfile-writer/src/writer/group_writer.rs  |  8 ++++----
 tsfile-writer/src/writer/tsfile_writer.rs | 11 +++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 5bc6107..be61e19 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -16,12 +16,12 @@ impl<'a> GroupWriter<'a> {
         &mut self,
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
-    ) -> Result<u32, TsFileError> {
-        let mut records = 0;
+        records: &mut u32,
+    ) -> Result<(), TsFileError> {
         for dp in values {
-            records += self.write(dp.measurement_id, timestamp, dp.value)?;
+            *records += self.write(dp.measurement_id, timestamp, dp.value)?;
         }
-        Ok(records)
+        Ok(())
     }
 }
 
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index f240636..93d14ef 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -159,15 +159,18 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
-        match self.group_writers.get_mut(device) {
+        let result = match self.group_writers.get_mut(device) {
             Some(group) => {
-                let records_written = group.write_many(timestamp, values)?;
+                // The points before a refused one are written and have to be counted
+                let mut records_written = 0;
+                let result = group.write_many(timestamp, values, &mut records_written);
                 self.record_count += records_written;
+                result
             }
             None => return Err(TsFileError::IllegalState { source: None }),
-        }
+        };
         self.check_memory_size_and_may_flush_chunks();
-        Ok(())
+        result
     }
 
     fn check_memory_size_and_may_flush_chunks(&mut self) -> Result<bool, TsFileError> {
-- 
2.43.0


From 93465f3746adbd927521670208829f5942bb8e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 12/30] fix: the last timestamps of the series survive a flush

---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 93d14ef..a02c1fa 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -248,6 +248,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         self.record_count = 0;
         // Reset Group Writers
         let schema = self.schema.clone();
+        let last_times = &self.non_aligned_timeseries_last_time_map;
         self.group_writers = schema
             .measurement_groups
             .into_iter()
@@ -271,7 +272,8 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                                 )
                             })
                             .collect(),
-                        last_time_map: BTreeMap::new(),
+                        // timestamps have to increase beyond the flush
+                        last_time_map: last_times.get(path).cloned().unwrap_or_default(),
                     },
                 )
             })
-- 
2.43.0


From 41a17cf2e431f957592d41b9982a8119b8a15d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:31 +0000
Subject: [PATCH 13/30] fix: statistics of infinite values and of a point at
 the largest timestamp

---
 tsfile-writer/src/writer/statistics.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 2411ce8..f9878b5 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -120,14 +120,14 @@ impl StatisticsStruct<f32, f64> {
 }
 
 macro_rules! implement_statistics {
-    ( $type:ty, $sum:ty ) => {
+    ( $type:ty, $sum:ty, $highest:expr, $lowest:expr ) => {
         impl StatisticsStruct<$type, $sum> {
             pub(crate) fn new() -> StatisticsStruct<$type, $sum> {
                 StatisticsStruct {
                     ts_first: i64::MAX,
                     ts_last: i64::MIN,
-                    min_value: <$type>::MAX,
-                    max_value: <$type>::MIN,
+                    min_value: $highest,
+                    max_value: $lowest,
                     first_value: 0 as $type,
                     last_value: 0 as $type,
                     count: 0,
@@ -136,7 +136,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn merge(&mut self, statistics: &StatisticsStruct<$type, $sum>) {
-                if statistics.ts_first < self.ts_first {
+                if self.count == 0 || statistics.ts_first < self.ts_first {
                     self.ts_first = statistics.ts_first;
                     self.first_value = statistics.first_value;
                 }
@@ -155,7 +155,7 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn update(&mut self, timestamp: i64, value: $type) {
-                if timestamp < self.ts_first {
+                if self.count == 0 || timestamp < self.ts_first {
                     self.ts_first = timestamp;
                     self.first_value = value;
                 }
@@ -193,8 +193,8 @@ macro_rules! implement_statistics {
     };
 }
 
-implement_statistics!(i32, i64);
-implement_statistics!(i64, f64);
-implement_statistics!(f32, f64);
+implement_statistics!(i32, i64, i32::MAX, i32::MIN);
+implement_statistics!(i64, f64, i64::MAX, i64::MIN);
+implement_statistics!(f32, f64, f32::INFINITY, f32::NEG_INFINITY);
 // TODO Implement / use
 // implement_statistics!(f64);
-- 
2.43.0


From 22109d5cd08d62d89b17e5f153c08bdf55673342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 14/30] fix: index nodes are written completely when the sink
 takes only part of a write

---
 tsfile-writer/src/writer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index c549fb9..a15a2ca 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -352,7 +352,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write(&[byte]);
+        file.write_all(&[byte]);
 
         Ok(())
     }
@@ -373,7 +373,7 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
         write_str(file, self.name.as_str());
-        file.write(&self.offset.to_be_bytes());
+        file.write_all(&self.offset.to_be_bytes());
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -403,7 +403,7 @@ impl Serializable for MetadataIndexNode {
             metadata_index_entry.serialize(file);
         }
 
-        file.write(&self.end_offset.to_be_bytes());
+        file.write_all(&self.end_offset.to_be_bytes());
         self.node_type.serialize(file);
 
         Ok(())
-- 
2.43.0


From 5248e0b99d946d172df86e3590eeb811e0780d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 15/30] fix: I/O errors are returned by write, write_many and
 close, and the file stays failed

---
 tsfile-writer/src/writer/chunk_writer.rs     | 14 +++--
 tsfile-writer/src/writer/group_writer.rs     |  6 +-
 tsfile-writer/src/writer/mod.rs              | 66 ++++++++++----------
 tsfile-writer/src/writer/tsfile_io_writer.rs | 31 ++++-----
 tsfile-writer/src/writer/tsfile_writer.rs    | 37 ++++++++---
 5 files changed, 91 insertions(+), 63 deletions(-)

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 5f412ab..9341e28 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -217,24 +217,25 @@ impl ChunkWriter {
     pub(crate) fn write_to_file_writer<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.seal_current_page();
-        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics);
+        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics)?;
 
         // re-init this chunk writer
         self.page_buffer.clear();
         self.num_pages = 0;
         self.first_page_statistics = None;
         self.statistics = Statistics::new(self.data_type);
+        Ok(())
     }
 
     fn write_all_pages_of_chunk_to_ts_file<T: PositionedWrite>(
         &self,
         file_writer: &mut TsFileIoWriter<T>,
         statistics: &Statistics,
-    ) {
+    ) -> Result<(), TsFileError> {
         if statistics.count() == 0 {
-            return;
+            return Ok(());
         }
         file_writer.start_flush_chunk(
             self.measurement_id.clone(),
@@ -245,13 +246,13 @@ impl ChunkWriter {
             self.page_buffer.len() as u32,
             self.num_pages,
             0,
-        );
+        )?;
 
         let data_offset = file_writer.out.get_position();
         log::trace!("Dumping pages at offset {}", data_offset);
 
         // Write the full page
-        file_writer.out.write_all(&self.page_buffer);
+        file_writer.out.write_all(&self.page_buffer)?;
 
         log::trace!("Offset after {}", file_writer.out.get_position());
 
@@ -267,6 +268,7 @@ impl ChunkWriter {
         // }
         //
         file_writer.end_current_chunk();
+        Ok(())
     }
 
     pub(crate) fn estimate_max_series_mem_size(&mut self) -> u32 {
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index be61e19..6f0d717 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -35,7 +35,7 @@ impl<'a> GroupWriter<'a> {
     pub(crate) fn flush_to_filewriter<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) -> u64 {
+    ) -> Result<u64, TsFileError> {
         log::info!("Start flush device id: {}", &self.path);
 
         self.seal_all_chunks();
@@ -43,10 +43,10 @@ impl<'a> GroupWriter<'a> {
         let current_chunk_group_size = self.get_current_chunk_group_size();
 
         for (_, series_writer) in self.chunk_writers.iter_mut() {
-            series_writer.write_to_file_writer(file_writer);
+            series_writer.write_to_file_writer(file_writer)?;
         }
 
-        current_chunk_group_size
+        Ok(current_chunk_group_size)
     }
 
     pub(crate) fn update_max_group_mem_size(&mut self) -> u32 {
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index a15a2ca..d6be344 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -352,7 +352,7 @@ impl Serializable for MetadataIndexNodeType {
             LeafDevice => 0x01,
             MetadataIndexNodeType::InternalDevice => 0x00,
         };
-        file.write_all(&[byte]);
+        file.write_all(&[byte])?;
 
         Ok(())
     }
@@ -372,8 +372,8 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.writeVar(name, outputStream);
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
-        write_str(file, self.name.as_str());
-        file.write_all(&self.offset.to_be_bytes());
+        write_str(file, self.name.as_str())?;
+        file.write_all(&self.offset.to_be_bytes())?;
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -397,14 +397,14 @@ impl Serializable for MetadataIndexNode {
         // byteLen += ReadWriteIOUtils.write(endOffset, outputStream);
         // byteLen += ReadWriteIOUtils.write(nodeType.serialize(), outputStream);
         // return byteLen;
-        write_var_u32(self.children.len() as u32, file);
+        write_var_u32(self.children.len() as u32, file)?;
 
         for metadata_index_entry in self.children.iter() {
-            metadata_index_entry.serialize(file);
+            metadata_index_entry.serialize(file)?;
         }
 
-        file.write_all(&self.end_offset.to_be_bytes());
-        self.node_type.serialize(file);
+        file.write_all(&self.end_offset.to_be_bytes())?;
+        self.node_type.serialize(file)?;
 
         Ok(())
     }
@@ -437,7 +437,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         // int queueSize = metadataIndexNodeQueue.size();
         // MetadataIndexNode metadataIndexNode;
         // MetadataIndexNode currentIndexNode = new MetadataIndexNode(type);
@@ -483,7 +483,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position() as usize,
                 });
-                metadata_index_node.serialize(file);
+                metadata_index_node.serialize(file)?;
             }
             // ...
             Self::add_current_index_node_to_queue(
@@ -494,7 +494,7 @@ impl MetadataIndexNode {
             current_index_metadata = MetadataIndexNode::new(node_type.clone());
             queue_size = measurement_metadata_index_queue.len();
         }
-        return measurement_metadata_index_queue.get(0).unwrap().clone();
+        Ok(measurement_metadata_index_queue.get(0).unwrap().clone())
     }
 
     #[allow(unused_variables)]
@@ -502,7 +502,7 @@ impl MetadataIndexNode {
         device_timeseries_metadata_map: &BTreeMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         // readers search the devices by name, entries have to be in order
         let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
@@ -536,7 +536,7 @@ impl MetadataIndexNode {
                         offset: file.get_position() as usize,
                     });
                 }
-                timeseries_metadata.serialize(file);
+                timeseries_metadata.serialize(file)?;
             }
             // addCurrentIndexNodeToQueue(currentIndexNode, measurementMetadataIndexQueue, out);
             // deviceMetadataIndexMap.put(
@@ -551,7 +551,7 @@ impl MetadataIndexNode {
                 file,
                 MetadataIndexNodeType::InternalMeasurement,
                 config,
-            );
+            )?;
             device_metadata_index_map.insert(device.clone(), root_node);
         }
 
@@ -563,10 +563,10 @@ impl MetadataIndexNode {
                     name: s.to_owned(),
                     offset: file.get_position() as usize,
                 });
-                value.serialize(file);
+                value.serialize(file)?;
             }
             metadata_index_node.end_offset = file.get_position() as usize;
-            return metadata_index_node;
+            return Ok(metadata_index_node);
         }
 
         // else, build level index for devices
@@ -587,7 +587,7 @@ impl MetadataIndexNode {
                 name: s,
                 offset: file.get_position() as usize,
             });
-            value.serialize(file);
+            value.serialize(file)?;
         }
         Self::add_current_index_node_to_queue(
             &mut current_index_node,
@@ -599,9 +599,9 @@ impl MetadataIndexNode {
             file,
             MetadataIndexNodeType::InternalDevice,
             config,
-        );
+        )?;
         device_metadata_index_node.end_offset = file.get_position() as usize;
-        device_metadata_index_node
+        Ok(device_metadata_index_node)
 
         // // if not exceed the max child nodes num, ignore the device index and directly point to the
         // // measurement
@@ -642,7 +642,7 @@ impl MetadataIndexNode {
 
 trait TimeSeriesMetadatable {
     fn get_measurement_id(&self) -> String;
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()>;
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError>;
 }
 
 impl TimeSeriesMetadatable for TimeSeriesMetadata {
@@ -650,13 +650,13 @@ impl TimeSeriesMetadatable for TimeSeriesMetadata {
         self.measurement_id.clone()
     }
 
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()> {
-        file.write_all(&[self.time_series_metadata_type]);
-        write_str(file, self.measurement_id.as_str());
-        file.write_all(&[self.data_type.serialize()]);
-        write_var_u32(self.chunk_meta_data_list_data_size as u32, file);
-        self.statistics.serialize(file);
-        file.write_all(&self.buffer);
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
+        file.write_all(&[self.time_series_metadata_type])?;
+        write_str(file, self.measurement_id.as_str())?;
+        file.write_all(&[self.data_type.serialize()])?;
+        write_var_u32(self.chunk_meta_data_list_data_size as u32, file)?;
+        self.statistics.serialize(file)?;
+        file.write_all(&self.buffer)?;
         Ok(())
     }
 }
@@ -803,10 +803,10 @@ impl Serializable for BloomFilter {
         // Real
         let bytes = self.serialize_bits();
 
-        write_var_u32(bytes.len() as u32, file);
-        file.write_all(bytes.as_slice());
-        write_var_u32(self.size as u32, file);
-        write_var_u32(self.hash_function_size as u32, file);
+        write_var_u32(bytes.len() as u32, file)?;
+        file.write_all(bytes.as_slice())?;
+        write_var_u32(self.size as u32, file)?;
+        write_var_u32(self.hash_function_size as u32, file)?;
 
         Ok(())
     }
@@ -830,15 +830,15 @@ impl Serializable for TsFileMetadata {
     fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
         match self.metadata_index.clone() {
             Some(index) => {
-                index.serialize(file);
+                index.serialize(file)?;
             }
             None => {
                 // Write 0 as 4 bytes (u32)
-                file.write_all(&0x00_u32.to_be_bytes());
+                file.write_all(&0x00_u32.to_be_bytes())?;
             }
         }
         // Meta Offset
-        file.write_all(&self.meta_offset.to_be_bytes());
+        file.write_all(&self.meta_offset.to_be_bytes())?;
 
         Ok(())
     }
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index dc92c63..8e1c85a 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -43,7 +43,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         data_size: u32,
         num_pages: u32,
         mask: u8,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.current_chunk_metadata = Some(ChunkMetadata::new(
             measurement_id.clone(),
             data_type,
@@ -60,7 +60,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             num_pages,
             mask,
         );
-        header.serialize(&mut self.out);
+        header.serialize(&mut self.out)
     }
 }
 
@@ -112,9 +112,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
     //     chunkMetadataList = null;
     //     out.flush();
     //   }
-    pub(crate) fn end_chunk_group(&mut self) {
+    pub(crate) fn end_chunk_group(&mut self) -> Result<(), TsFileError> {
         if self.current_chunk_group_device_id == None || self.chunk_metadata_list.is_empty() {
-            return;
+            return Ok(());
         }
         let device_id = self.current_chunk_group_device_id.unwrap();
         // for chunk_metadata in &self.chunk_metadata_list {
@@ -128,10 +128,11 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         ));
         self.current_chunk_group_device_id = None;
         self.chunk_metadata_list.clear();
-        self.out.flush();
+        self.out.flush()?;
+        Ok(())
     }
 
-    pub(crate) fn end_file(&mut self) {
+    pub(crate) fn end_file(&mut self) -> Result<(), TsFileError> {
         // Statistics
         // Fetch all metadata
         // self.chunk_group_metadata = self
@@ -164,15 +165,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let meta_offset = self.out.get_position();
 
         // Write Marker 0x02
-        self.out.write_all(&[0x02]);
+        self.out.write_all(&[0x02])?;
 
-        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map);
+        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
 
         let ts_file_metadata = TsFileMetadata::new(Some(metadata_index_node), meta_offset);
 
         let footer_index = self.out.get_position();
 
-        ts_file_metadata.serialize(&mut self.out);
+        ts_file_metadata.serialize(&mut self.out)?;
 
         // Now serialize the Bloom Filter ?!
 
@@ -185,20 +186,22 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
-        bloom_filter.serialize(&mut self.out);
+        bloom_filter.serialize(&mut self.out)?;
 
         let size_of_footer = (self.out.get_position() - footer_index) as u32;
 
-        self.out.write_all(&size_of_footer.to_be_bytes());
+        self.out.write_all(&size_of_footer.to_be_bytes())?;
 
         // Footer
-        self.out.write_all("TsFile".as_bytes());
+        self.out.write_all("TsFile".as_bytes())?;
+        self.out.flush()?;
+        Ok(())
     }
 
     fn flush_metadata_index(
         &mut self,
         chunk_metadata_list: &BTreeMap<(String, String), Vec<ChunkMetadata>>,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         for ((device_id, _), metadata) in chunk_metadata_list.iter() {
             let data_type = metadata.get(0).unwrap().data_type;
             let serialize_statistic = metadata.len() > 1;
@@ -210,7 +213,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
                     continue;
                 }
                 // Serialize
-                m.serialize(&mut buffer, serialize_statistic);
+                m.serialize(&mut buffer, serialize_statistic)?;
 
                 let statistic = &m.statistics;
                 // Update the statistics
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index a02c1fa..65bd4cc 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -120,13 +120,27 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     pub schema: Schema<'a>,
     #[allow(dead_code)]
     config: TsFileConfig,
+    // A write to the file failed, it can not be completed any more
+    failed: bool,
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
-    pub fn close(&mut self) {
+    pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
-        self.flush_all_chunk_groups();
-        self.file_io_writer.end_file();
+        self.check_not_failed()?;
+        self.flush_all_chunk_groups()?;
+        let result = self.file_io_writer.end_file();
+        self.failed = result.is_err();
+        result
+    }
+
+    fn check_not_failed(&self) -> Result<(), TsFileError> {
+        match self.failed {
+            true => Err(TsFileError::IllegalState {
+                source: Some("A previous write to the file failed".to_owned()),
+            }),
+            false => Ok(()),
+        }
     }
 }
 
@@ -138,6 +152,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
+        self.check_not_failed()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 let records_written = group.write(measurement_id, timestamp, value)?;
@@ -149,7 +164,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 });
             }
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -159,6 +174,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
+        self.check_not_failed()?;
         let result = match self.group_writers.get_mut(device) {
             Some(group) => {
                 // The points before a refused one are written and have to be counted
@@ -169,7 +185,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         };
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         result
     }
 
@@ -207,13 +223,19 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     }
 
     fn flush_all_chunk_groups(&mut self) -> Result<bool, TsFileError> {
+        let result = self.write_all_chunk_groups();
+        self.failed = result.is_err();
+        result
+    }
+
+    fn write_all_chunk_groups(&mut self) -> Result<bool, TsFileError> {
         if self.record_count > 0 {
             for (&device_id, group_writer) in self.group_writers.iter_mut() {
                 // self.file_writer.start_chunk_group(device_id);
                 // self.file_writer
                 self.file_io_writer.start_chunk_group(device_id)?;
                 let pos = self.file_io_writer.out.get_position();
-                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer);
+                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer)?;
 
                 if self.file_io_writer.out.get_position() - pos != data_size {
                     return Err(TsFileError::IllegalState {
@@ -221,7 +243,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     });
                 }
 
-                self.file_io_writer.end_chunk_group();
+                self.file_io_writer.end_chunk_group()?;
 
                 self.non_aligned_timeseries_last_time_map
                     .insert(device_id, group_writer.get_last_time_map());
@@ -354,6 +376,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             file_io_writer: io_writer,
+            failed: false,
         })
     }
 }
-- 
2.43.0


From a5cafec499e380dff789b9bba8cfc4748013e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 16/30] fix: a closed writer does not write to its file again

---
 tsfile-writer/src/writer/tsfile_writer.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 65bd4cc..db47d53 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -122,15 +122,20 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     config: TsFileConfig,
     // A write to the file failed, it can not be completed any more
     failed: bool,
+    closed: bool,
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
         self.check_not_failed()?;
+        if self.closed {
+            return Ok(());
+        }
         self.flush_all_chunk_groups()?;
         let result = self.file_io_writer.end_file();
         self.failed = result.is_err();
+        self.closed = result.is_ok();
         result
     }
 
@@ -142,6 +147,15 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             false => Ok(()),
         }
     }
+
+    fn check_writable(&self) -> Result<(), TsFileError> {
+        match self.closed {
+            true => Err(TsFileError::IllegalState {
+                source: Some("The file is closed".to_owned()),
+            }),
+            false => self.check_not_failed(),
+        }
+    }
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
@@ -152,7 +166,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
-        self.check_not_failed()?;
+        self.check_writable()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 let records_written = group.write(measurement_id, timestamp, value)?;
@@ -174,7 +188,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
-        self.check_not_failed()?;
+        self.check_writable()?;
         let result = match self.group_writers.get_mut(device) {
             Some(group) => {
                 // The points before a refused one are written and have to be counted
@@ -377,6 +391,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             config,
             file_io_writer: io_writer,
             failed: false,
+            closed: false,
         })
     }
 }
-- 
2.43.0


From 4c1973e5c4af8e02aacba1e403e8dc83719b8f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 17/30] fix: a file that cannot be created is an error instead
 of a panic

---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index db47d53..5ea6024 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -331,9 +331,9 @@ impl<'a> TsFileWriter<'a, WriteWrapper<File>> {
                 return Err(TsFileError::Error { source: None });
             }
         };
-        create_dir_all(folder);
+        create_dir_all(folder)?;
         // Create the file
-        let file = WriteWrapper::new(File::create(filename).expect("create failed"));
+        let file = WriteWrapper::new(File::create(filename)?);
 
         TsFileWriter::new_from_writer(schema, file, config)
     }
-- 
2.43.0


From cd99f7e9cd42d998e532393b9bdc1ef32684f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 18/30] fix: read_var_u32 reads bytes of 0xFF

---
 tsfile-writer/src/writer/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/utils.rs b/tsfile-writer/src/writer/utils.rs
index 3eeed38..87d4117 100644
--- a/tsfile-writer/src/writer/utils.rs
+++ b/tsfile-writer/src/writer/utils.rs
@@ -56,7 +56,7 @@ pub fn read_var_u32(buffer: &mut dyn Read) -> Result<u32, TsFileError> {
     let mut value: u32 = 0;
     let mut i: u8 = 0;
     let mut b = read_byte(buffer)?;
-    while b != u8::MAX && (b & 0x80) != 0 {
+    while (b & 0x80) != 0 {
         value |= ((b & 0x7F) as u32) << i;
         i += 7;
         b = read_byte(buffer)?;
-- 
2.43.0


From 32bb514215724b203b1fd9b67ec3c5ebb82eb17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 19/30] fix: group writers do not keep the strings passed to a
 write

---
 tsfile-writer/src/writer/group_writer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 6f0d717..af36a78 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -91,6 +91,11 @@ impl<'a> GroupWriter<'a> {
         // Check is historic
         self.check_is_history_data(measurement_id, timestamp)?;
 
+        // Remember the name by the schema's string, the caller's may only live during this call
+        let measurement_id = match self.chunk_writers.get_key_value(measurement_id) {
+            Some((&name, _)) => name,
+            None => measurement_id,
+        };
         let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
             Some(chunk_writer) => chunk_writer.write(timestamp, value)?,
             None => {
@@ -108,10 +113,7 @@ impl<'a> GroupWriter<'a> {
         measurement_id: &'a str,
         timestamp: i64,
     ) -> Result<(), TsFileError> {
-        if !self.last_time_map.contains_key(measurement_id) {
-            self.last_time_map.insert(measurement_id, -1);
-        }
-        if timestamp <= *self.last_time_map.get(measurement_id).unwrap() {
+        if timestamp <= *self.last_time_map.get(measurement_id).unwrap_or(&-1) {
             return Err(TsFileError::OutOfOrderData);
         }
         Ok(())
-- 
2.43.0


From 08cb50ce03d7d436f0c152eca56687d606504455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 20/30] fix: a refused handshake is an error

---
 tsfile-writer/src/sync/sync_sender.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 41f103b..3d638eb 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -23,6 +23,9 @@ pub mod verif;
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
 
+// Code of a SyncStatus that confirms a request
+const SUCCESS_CODE: i32 = 1;
+
 pub struct SyncSender<IP, OP>
 where
     IP: TInputProtocol,
@@ -122,8 +125,8 @@ impl
         let result = self.client.check(confirm);
 
         match result {
-            Ok(_) => Ok(()),
-            Err(_) => Err(SyncSenderError::HandshakeError),
+            Ok(status) if status.code == SUCCESS_CODE => Ok(()),
+            _ => Err(SyncSenderError::HandshakeError),
         }
     }
 
-- 
2.43.0


From 8bf64aa8f23498197b175676401ebca4eb2e3adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 21/30] fix: the sender identity is saved atomically and never
 replaced

---
 tsfile-writer/src/sync/sync_sender.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 3d638eb..d35ec7c 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -1,4 +1,5 @@
 use std::fs;
+use std::io::{ErrorKind, Write};
 
 use pnet::datalink;
 use sha2::Digest;
@@ -229,11 +230,11 @@ impl
                 println!("Using UUID from file: {}", content);
                 Ok(content)
             }
-            Err(_) => {
+            Err(e) if e.kind() == ErrorKind::NotFound => {
                 println!("Generating UUID...");
                 let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
                 // Save to file
-                match fs::write("uuid.lock", &uuid) {
+                match Self::save_uuid(&uuid) {
                     Ok(_) => {
                         println!("UUID saved successfully")
                     }
@@ -243,8 +244,25 @@ impl
                 };
                 Ok(uuid)
             }
+            // There is a UUID which must not be replaced
+            Err(_) => Err(SyncSenderError::UnableGenerateUuid),
         }
     }
+
+    /// The file is there either completely or not at all
+    fn save_uuid(uuid: &str) -> std::io::Result<()> {
+        let temporary = format!("uuid.lock.{}", uuid);
+        let result = fs::File::create(&temporary)
+            .and_then(|mut file| {
+                file.write_all(uuid.as_bytes())?;
+                file.sync_all()
+            })
+            .and_then(|_| fs::rename(&temporary, "uuid.lock"));
+        if result.is_err() {
+            let _ = fs::remove_file(&temporary);
+        }
+        result
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7475238c633359011dcae1abed995f638908b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 22/30] fix: a sync reports success only if the receiver
 confirmed every step, and reads the given file

---
 tsfile-writer/src/sync/sync_sender.rs | 72 +++++++++++++--------------
 1 file changed, 34 insertions(+), 38 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index d35ec7c..54a1482 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -15,7 +15,9 @@ use crate::writer::errors::TsFileError;
 use crate::writer::Schema;
 
 use crate::sync::mlog::MLog;
-use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClient};
+use crate::sync::sync::{
+    ConfirmInfo, SyncServiceSyncClient, SyncStatus, TSyncServiceSyncClient,
+};
 
 #[cfg(tsfile_verif)]
 #[path = "verif.rs"]
@@ -44,6 +46,7 @@ pub enum SyncSenderError {
     UnableGenerateUuid,
     ConnectionError,
     HandshakeError,
+    TransferError,
 }
 
 impl From<thrift::Error> for SyncSenderError {
@@ -138,51 +141,44 @@ impl
         storage_group: &str,
         schema: Schema,
     ) -> Result<(), SyncSenderError> {
-        self.client.start_sync().expect("");
-        self.client.init(std::string::String::from(storage_group))?;
-
-        // First sync a schema
-        self.client
-            .init_sync_data(std::string::String::from("mlog.bin"))?;
-
         // Create the mlog
-        let mlog_bytes: Vec<u8> =
-            Self::write_mlog(storage_group, schema).expect("Unable to write mlog");
+        let mlog_bytes: Vec<u8> = Self::write_mlog(storage_group, schema)
+            .map_err(|_| SyncSenderError::TransferError)?;
+        let bytes = fs::read(filename).map_err(|_| SyncSenderError::TransferError)?;
 
-        self.client.sync_data(mlog_bytes.clone())?;
+        Self::confirmed(self.client.start_sync()?)?;
+        Self::confirmed(
+            self.client
+                .init(std::string::String::from(storage_group))?,
+        )?;
 
-        let digest = Self::calculate_digest(&mlog_bytes);
-        println!("Digest of Sender: {}", digest);
+        // First sync a schema
+        self.transfer("mlog.bin", mlog_bytes)?;
 
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-                if result.code == -1 {
-                    panic!("Digest does not match!")
-                }
-            }
-            _ => {
-                panic!("Error on digest!")
-            }
-        }
+        // Then the file
+        self.transfer(&format!("0_0_{}", filename), bytes)?; // 1654074550252-1-0-0.tsfile";
 
-        let filename = format!("0_0_{}", filename); // 1654074550252-1-0-0.tsfile";
+        Self::confirmed(self.client.end_sync()?)
+    }
 
-        self.client.init_sync_data(filename.to_string()).expect("");
-        let bytes = fs::read(filename).expect("");
-        self.client.sync_data(bytes.clone()).expect("");
+    #[allow(dead_code)]
+    fn transfer(&mut self, name: &str, bytes: Vec<u8>) -> Result<(), SyncSenderError> {
         let digest = Self::calculate_digest(&bytes);
-        println!("Digest of Sender: {}", digest);
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-            }
-            _ => {
-                println!("Error on digest!")
-            }
+
+        Self::confirmed(
+            self.client
+                .init_sync_data(std::string::String::from(name))?,
+        )?;
+        Self::confirmed(self.client.sync_data(bytes)?)?;
+        Self::confirmed(self.client.check_data_digest(digest)?)
+    }
+
+    #[allow(dead_code)]
+    fn confirmed(status: SyncStatus) -> Result<(), SyncSenderError> {
+        match status.code {
+            SUCCESS_CODE => Ok(()),
+            _ => Err(SyncSenderError::TransferError),
         }
-        self.client.end_sync()?;
-        Ok(())
     }
 
     #[allow(dead_code)]
-- 
2.43.0


From 807739cec0d89731582a7041fa9650bad08a5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:32 +0000
Subject: [PATCH 23/30] verif: remove an entry point the harness does not use

---
 tsfile-writer/src/sync/verif.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/tsfile-writer/src/sync/verif.rs b/tsfile-writer/src/sync/verif.rs
index 21eeb52..8e2c7d9 100644
--- a/tsfile-writer/src/sync/verif.rs
+++ b/tsfile-writer/src/sync/verif.rs
@@ -31,11 +31,6 @@ pub fn write_mlog(storage_group: &str, schema: Schema) -> Result<Vec<u8>, TsFile
     TcpSyncSender::write_mlog(storage_group, schema)
 }
 
-/// `SyncSender::calculate_digest`
-pub fn calculate_digest(bytes: &[u8]) -> String {
-    TcpSyncSender::calculate_digest(bytes)
-}
-
 /// The (private) `MLog`
 pub struct Log(MLog);
 
-- 
2.43.0


From 69a31e41c2341b5c3080140bea5a523d5095e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:32 +0000
Subject: [PATCH 24/30] fix: the next memory check is at least one record away

With rows over so many series that each exceeds the chunk group limit the
record count for the next memory check shrank to zero. A refused or empty
write_many right after a flush then divided by a memory size of zero.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 5ea6024..e93ddc2 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -214,10 +214,13 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 CHUNK_GROUP_SIZE_THRESHOLD_BYTE
             );
             if mem_size > CHUNK_GROUP_SIZE_THRESHOLD_BYTE {
-                self.record_count_for_next_mem_check = (self.record_count_for_next_mem_check as u64
+                // At least one record, there is no memory size without any
+                self.record_count_for_next_mem_check = ((self.record_count_for_next_mem_check
+                    as u64
                     * CHUNK_GROUP_SIZE_THRESHOLD_BYTE as u64
                     / mem_size as u64)
-                    as u32;
+                    as u32)
+                    .max(1);
                 return self.flush_all_chunk_groups();
             } else {
                 // println!("Record Count: {}, CHUNK_GROUP_SIZE_THRESHOLD_BYTE: {}, memsize: {}", self.record_count_for_next_mem_check, CHUNK_GROUP_SIZE_THRESHOLD_BYTE, mem_size);
-- 
2.43.0


From bab97af540ff770ff9963041c7d56c85fec1163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:27 +0000
Subject: [PATCH 25/30] verif: a writer whose file begins behind other bytes of
 the sink

---
 tsfile-writer/src/writer/verif.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tsfile-writer/src/writer/verif.rs b/tsfile-writer/src/writer/verif.rs
index 05fa857..88fd155 100644
--- a/tsfile-writer/src/writer/verif.rs
+++ b/tsfile-writer/src/writer/verif.rs
@@ -18,6 +18,22 @@ pub fn writer_on<'a, W: Write>(
     TsFileWriter::new_from_writer(schema, WriteWrapper::new(sink), config)
 }
 
+/// Creates a writer whose file does not begin at the start of the sink but behind `before`.
+pub fn writer_behind<'a, W: Write>(
+    before: &[u8],
+    schema: Schema<'a>,
+    sink: W,
+    max_degree_of_index_node: Option<usize>,
+) -> Result<TsFileWriter<'a, WriteWrapper<W>>, TsFileError> {
+    let mut config = TsFileConfig::default();
+    if let Some(degree) = max_degree_of_index_node {
+        config.max_degree_of_index_node = degree;
+    }
+    let mut out = WriteWrapper::new(sink);
+    out.write_all(before)?;
+    TsFileWriter::new_from_writer(schema, out, config)
+}
+
 pub fn write_var_u32(num: u32, buffer: &mut Vec<u8>) -> Result<u8, TsFileError> {
     utils::write_var_u32(num, buffer)
 }
-- 
2.43.0


From 513f909c959b31e919903c8ea170646490550f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:44 +0000
Subject: [PATCH 26/30] fix: the name of the stored identity is on the disk
 before the identity is presented

---
 tsfile-writer/src/sync/sync_sender.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 54a1482..bfe67b0 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -253,12 +253,21 @@ impl
                 file.write_all(uuid.as_bytes())?;
                 file.sync_all()
             })
-            .and_then(|_| fs::rename(&temporary, "uuid.lock"));
+            .and_then(|_| fs::rename(&temporary, "uuid.lock"))
+            .and_then(|_| Self::sync_directory());
         if result.is_err() {
             let _ = fs::remove_file(&temporary);
         }
         result
     }
+
+    /// A new name of a file is only safe from a power failure once its directory is on the disk
+    fn sync_directory() -> std::io::Result<()> {
+        match cfg!(unix) {
+            true => fs::File::open(".")?.sync_all(),
+            false => Ok(()),
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7d1a2aa0464f74fa05f3423d4f0f1ed3aec687c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:16 +0000
Subject: [PATCH 27/30] fix: senders started at the same time present the same
 identity

Each wrote its own identity over the other's, so that one already presented was
replaced. A start that finds an identity also makes sure that its name is on the
disk, as the start that stored it may have been cut short before.
---
 tsfile-writer/src/sync/sync_sender.rs | 38 +++++++++++++++++----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index bfe67b0..60df739 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -224,6 +224,8 @@ impl
         match fs::read_to_string("uuid.lock") {
             Ok(content) => {
                 println!("Using UUID from file: {}", content);
+                // The start that stored it may have been cut short before it did this
+                Self::sync_directory().map_err(|_| SyncSenderError::UnableGenerateUuid)?;
                 Ok(content)
             }
             Err(e) if e.kind() == ErrorKind::NotFound => {
@@ -231,34 +233,42 @@ impl
                 let uuid = uuid::Uuid::new_v4().to_string().replace('-', "");
                 // Save to file
                 match Self::save_uuid(&uuid) {
-                    Ok(_) => {
-                        println!("UUID saved successfully")
+                    Ok(stored) => {
+                        println!("UUID saved successfully");
+                        Ok(stored)
                     }
-                    Err(_) => {
-                        return Err(SyncSenderError::UnableGenerateUuid);
-                    }
-                };
-                Ok(uuid)
+                    Err(_) => Err(SyncSenderError::UnableGenerateUuid),
+                }
             }
             // There is a UUID which must not be replaced
             Err(_) => Err(SyncSenderError::UnableGenerateUuid),
         }
     }
 
-    /// The file is there either completely or not at all
-    fn save_uuid(uuid: &str) -> std::io::Result<()> {
+    /// The file is there either completely or not at all. Returns the stored UUID, which is another
+    /// one if another sender was faster.
+    fn save_uuid(uuid: &str) -> std::io::Result<String> {
         let temporary = format!("uuid.lock.{}", uuid);
         let result = fs::File::create(&temporary)
             .and_then(|mut file| {
                 file.write_all(uuid.as_bytes())?;
                 file.sync_all()
             })
-            .and_then(|_| fs::rename(&temporary, "uuid.lock"))
-            .and_then(|_| Self::sync_directory());
-        if result.is_err() {
-            let _ = fs::remove_file(&temporary);
+            .and_then(|_| Self::publish(&temporary));
+        let _ = fs::remove_file(&temporary);
+        result?;
+        Self::sync_directory()?;
+        fs::read_to_string("uuid.lock")
+    }
+
+    /// Unlike a new name, a link does not replace a file that is there
+    fn publish(temporary: &str) -> std::io::Result<()> {
+        match fs::hard_link(temporary, "uuid.lock") {
+            Err(e) if e.kind() == ErrorKind::AlreadyExists => Ok(()),
+            // There are file systems without links
+            Err(_) => fs::rename(temporary, "uuid.lock"),
+            Ok(_) => Ok(()),
         }
-        result
     }
 
     /// A new name of a file is only safe from a power failure once its directory is on the disk
-- 
2.43.0


From 22708fc7db328f99457b4ed18a6bf6c4a6a1054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:03 +0000
Subject: [PATCH 28/30] fix: Python wrapper takes 64 bit timestamps

---
 tsfile-writer-c/rust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer-c/rust.py b/tsfile-writer-c/rust.py
index ec61128..d137022 100644
--- a/tsfile-writer-c/rust.py
+++ b/tsfile-writer-c/rust.py
@@ -14,7 +14,7 @@ ffibuilder.cdef("""
     void schema_free(schema s);
     
     ts_file_writer file_writer_new(char* filename, schema s);
-    ts_file_writer file_writer_write_int32(ts_file_writer, char* device_id, char* measurement_id, int timestamp, int value);
+    ts_file_writer file_writer_write_int32(ts_file_writer, char* device_id, char* measurement_id, int64_t timestamp, int value);
     void file_writer_close(ts_file_writer writer);
 """)
 
-- 
2.43.0


From a770c066d457d961d1f7c27eaa4a0fb641acd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:14 +0000
Subject: [PATCH 29/30] Expose the sync protocol to the verification harness
 (cfg tsfile_verif only)

---
 tsfile-writer/src/sync/verif.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tsfile-writer/src/sync/verif.rs b/tsfile-writer/src/sync/verif.rs
index 8e2c7d9..717e1e5 100644
--- a/tsfile-writer/src/sync/verif.rs
+++ b/tsfile-writer/src/sync/verif.rs
@@ -58,3 +58,8 @@ impl Log {
         self.0.flush(out).map(|_| ())
     }
 }
+
+/// The (private) protocol of the sync service
+pub mod protocol {
+    pub use crate::sync::sync::*;
+}
-- 
2.43.0


From f6a78107de98ca443ab3455043d0f0be65f8fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:18 +0000
Subject: [PATCH 30/30] fix: unknown fields in the arguments of check are
 skipped

---
 tsfile-writer/src/sync/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/sync/sync.rs b/tsfile-writer/src/sync/sync.rs
index 7a2bf70..ca90be9 100644
--- a/tsfile-writer/src/sync/sync.rs
+++ b/tsfile-writer/src/sync/sync.rs
@@ -869,7 +869,7 @@ impl SyncServiceCheckArgs {
       }
       let field_id = field_id(&field_ident)?;
       match field_id {
-        neg1 => {
+        -1 => {
           let val = ConfirmInfo::read_from_in_protocol(i_prot)?;
           f_neg1 = Some(val);
         },
-- 
2.43.0

