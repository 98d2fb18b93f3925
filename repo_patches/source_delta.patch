From 8e9f4334e1d0d22c7d1f07384b91e2b0e990c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 01/11] fix: do not keep a partial index when indexing fails

---
 src/indexed.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/indexed.rs b/src/indexed.rs
index 8168326..6f63140 100644
--- a/src/indexed.rs
+++ b/src/indexed.rs
@@ -151,6 +151,9 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
         // Seek to the beginning of the reader.
         self.reader.seek(ByteOffset(0))?;
 
+        // Only keep the index if it is complete.
+        let mut index = vec![];
+
         while let Some(result) = self.reader.next_header_skip_blob() {
             let (header, offset) = result?;
             // Reader is seekable, so offset should be Some(ByteOffset)
@@ -161,13 +164,15 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
                 BlobType::Unknown(_) => SimpleBlobType::Unknown,
             };
 
-            self.index.push(BlobInfo {
+            index.push(BlobInfo {
                 offset,
                 blob_type,
                 id_ranges: None,
             });
         }
 
+        self.index = index;
+
         Ok(())
     }
 
-- 
2.43.0


From beb1a49b6e0199b2f32b3ec649dfea1da8ceeb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 02/11] fix: end member iteration at an unknown member type
 instead of panicking

---
 src/elements.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elements.rs b/src/elements.rs
index 9d52e10..1b9deb0 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -491,6 +491,8 @@ impl<'a> Iterator for RelMemberIter<'a> {
             self.member_types.next(),
         ) {
             (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
+                // End the iteration at a member of unknown type instead of panicking.
+                member_type.enum_value().ok()?;
                 self.current_member_id += *mem_id_delta;
                 Some(RelMember {
                     block: self.block,
-- 
2.43.0


From dc0d337503b4c0235f1d5457b6d8cd5ac5c9acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 03/11] fix: do not panic on arithmetic overflow in damaged
 blocks (debug builds)

---
 src/dense.rs    | 25 +++++++++++++++----------
 src/elements.rs | 30 +++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/dense.rs b/src/dense.rs
index 577e327..e0535fd 100644
--- a/src/dense.rs
+++ b/src/dense.rs
@@ -39,7 +39,9 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.lat
+        i64::from(self.block.granularity())
+            .wrapping_mul(self.lat)
+            .wrapping_add(self.block.lat_offset())
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -54,7 +56,9 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.lon
+        i64::from(self.block.granularity())
+            .wrapping_mul(self.lon)
+            .wrapping_add(self.block.lon_offset())
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -146,9 +150,9 @@ impl<'a> Iterator for DenseNodeIter<'a> {
             self.info_iter.as_mut().and_then(|iter| iter.next()),
         ) {
             (Some(did), Some(dlat), Some(dlon), info) => {
-                self.cid += *did;
-                self.clat += *dlat;
-                self.clon += *dlon;
+                self.cid = self.cid.wrapping_add(*did);
+                self.clat = self.clat.wrapping_add(*dlat);
+                self.clon = self.clon.wrapping_add(*dlon);
 
                 let start_index = self.keys_vals_index;
                 let mut end_index = start_index;
@@ -223,7 +227,8 @@ impl<'a> DenseNodeInfo<'a> {
 
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> i64 {
-        self.timestamp * i64::from(self.block.date_granularity())
+        self.timestamp
+            .wrapping_mul(i64::from(self.block.date_granularity()))
     }
 
     /// Returns the visibility status of an element. This is only relevant if the PBF file contains
@@ -296,10 +301,10 @@ impl<'a> Iterator for DenseNodeInfoIter<'a> {
                 Some(duser_sid),
                 visible_opt,
             ) => {
-                self.ctimestamp += *dtimestamp;
-                self.cchangeset += *dchangeset;
-                self.cuid += *duid;
-                self.cuser_sid += *duser_sid;
+                self.ctimestamp = self.ctimestamp.wrapping_add(*dtimestamp);
+                self.cchangeset = self.cchangeset.wrapping_add(*dchangeset);
+                self.cuid = self.cuid.wrapping_add(*duid);
+                self.cuser_sid = self.cuser_sid.wrapping_add(*duser_sid);
                 Some(DenseNodeInfo {
                     block: self.block,
                     version,
diff --git a/src/elements.rs b/src/elements.rs
index 1b9deb0..e52960f 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -87,7 +87,9 @@ impl<'a> Node<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.osmnode.lat()
+        i64::from(self.block.granularity())
+            .wrapping_mul(self.osmnode.lat())
+            .wrapping_add(self.block.lat_offset())
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -102,7 +104,9 @@ impl<'a> Node<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.osmnode.lon()
+        i64::from(self.block.granularity())
+            .wrapping_mul(self.osmnode.lon())
+            .wrapping_add(self.block.lon_offset())
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -335,7 +339,7 @@ impl Iterator for WayRefIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.deltas.next() {
             Some(&d) => {
-                self.current += d;
+                self.current = self.current.wrapping_add(d);
                 Some(self.current)
             }
             None => None,
@@ -404,11 +408,15 @@ impl Iterator for WayNodeLocationsIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match (self.dlats.next(), self.dlons.next()) {
             (Some(&dlat), Some(&dlon)) => {
-                self.clat += dlat;
-                self.clon += dlon;
+                self.clat = self.clat.wrapping_add(dlat);
+                self.clon = self.clon.wrapping_add(dlon);
                 Some(WayNodeLocation {
-                    lat: self.block.lat_offset() + i64::from(self.block.granularity()) * self.clat,
-                    lon: self.block.lon_offset() + i64::from(self.block.granularity()) * self.clon,
+                    lat: i64::from(self.block.granularity())
+                        .wrapping_mul(self.clat)
+                        .wrapping_add(self.block.lat_offset()),
+                    lon: i64::from(self.block.granularity())
+                        .wrapping_mul(self.clon)
+                        .wrapping_add(self.block.lon_offset()),
                 })
             }
             _ => None,
@@ -493,7 +501,7 @@ impl<'a> Iterator for RelMemberIter<'a> {
             (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
                 // End the iteration at a member of unknown type instead of panicking.
                 member_type.enum_value().ok()?;
-                self.current_member_id += *mem_id_delta;
+                self.current_member_id = self.current_member_id.wrapping_add(*mem_id_delta);
                 Some(RelMember {
                     block: self.block,
                     role_sid: *role_sid,
@@ -585,7 +593,11 @@ impl<'a> Info<'a> {
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> Option<i64> {
         if self.info.has_timestamp() {
-            Some(self.info.timestamp() * i64::from(self.block.date_granularity()))
+            Some(
+                self.info
+                    .timestamp()
+                    .wrapping_mul(i64::from(self.block.date_granularity())),
+            )
         } else {
             None
         }
-- 
2.43.0


From 28934b34955318066faf7e56c093e9adba77838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 04/11] fix: let a blob reader continue after an error once it
 was repositioned

---
 src/blob.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 92f7328..4cb29f9 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -376,6 +376,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(SeekFrom::Start(pos.0)) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(())
             }
             Err(e) => {
@@ -390,6 +391,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(pos) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(offset)
             }
             Err(e) => {
-- 
2.43.0


From c0ce27eac454ab0d1e7c6b18f5bbb47c166a7993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 05/11] fix: end memory-mapped blob iteration after an error

---
 src/mmap_blob.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index e07c733..ed8569d 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -175,6 +175,7 @@ impl MmapBlobReader<'_> {
     /// ```
     pub fn seek(&mut self, pos: ByteOffset) {
         self.offset = pos.0 as usize;
+        self.last_blob_ok = true;
     }
 }
 
@@ -182,6 +183,11 @@ impl<'a> Iterator for MmapBlobReader<'a> {
     type Item = Result<MmapBlob<'a>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Stop iteration if there was an error.
+        if !self.last_blob_ok {
+            return None;
+        }
+
         let slice = &self.mmap.as_slice()[self.offset..];
 
         match slice.len() {
-- 
2.43.0


From 2209cc6a18b2e1a5d081b672fa2ad867f1777c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 06/11] fix: do not panic when reading a memory map at an
 offset beyond its end

---
 src/mmap_blob.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index ed8569d..ab6285a 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -188,7 +188,8 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             return None;
         }
 
-        let slice = &self.mmap.as_slice()[self.offset..];
+        // There are no blobs beyond the end of the memory map.
+        let slice = self.mmap.as_slice().get(self.offset..).unwrap_or(&[]);
 
         match slice.len() {
             0 => return None,
-- 
2.43.0


From 0c28cae11dad4acbb9f0d926cf28151bfe03cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 07/11] fix: reject negative blob sizes

---
 src/blob.rs      | 17 +++++++++++++++++
 src/mmap_blob.rs | 10 ++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index 4cb29f9..4a12799 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -224,6 +224,12 @@ impl<R: Read + Send> BlobReader<R> {
             }
         };
 
+        if let Err(e) = blob_size(&header) {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(e));
+        }
+
         self.offset = self.offset.map(|x| ByteOffset(x.0 + header_size));
 
         Some(Ok(header))
@@ -454,6 +460,17 @@ impl BlobReader<BufReader<File>> {
     }
 }
 
+/// Returns the size of the blob that follows the given header. The size is stored as a signed
+/// number, but a negative size is invalid.
+pub(crate) fn blob_size(header: &fileformat::BlobHeader) -> Result<u64> {
+    u64::try_from(header.datasize()).map_err(|_| {
+        new_error(ErrorKind::Io(::std::io::Error::new(
+            ::std::io::ErrorKind::InvalidData,
+            "blob header contains a negative blob size",
+        )))
+    })
+}
+
 pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
     if blob.has_raw() {
         let size = blob.raw().len() as u64;
diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index ab6285a..8c4cc10 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -1,7 +1,7 @@
 //! Iterate over blobs from a memory map
 
 use self::fileformat::BlobHeader;
-use crate::blob::{decode_blob, BlobDecode, BlobType, ByteOffset};
+use crate::blob::{blob_size, decode_blob, BlobDecode, BlobType, ByteOffset};
 use crate::block::{HeaderBlock, PrimitiveBlock};
 use crate::error::{new_blob_error, new_protobuf_error, BlobError, Result};
 use crate::proto::{fileformat, osmformat};
@@ -226,7 +226,13 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             }
         };
 
-        let data_size = header.datasize() as usize;
+        let data_size = match blob_size(&header) {
+            Ok(x) => x as usize,
+            Err(e) => {
+                self.last_blob_ok = false;
+                return Some(Err(e));
+            }
+        };
         let chunk_size = 4 + header_size + data_size;
 
         if slice.len() < chunk_size {
-- 
2.43.0


From 874c6b4d1e2434a15a804bfe9ef32d236f0059f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 08/11] fix: do not accept zlib data that was cut off at the
 message size limit

---
 src/blob.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index 4a12799..c39e335 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -481,7 +481,15 @@ pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
         }
     } else if blob.has_zlib_data() {
         let mut decoder = ZlibDecoder::new(blob.zlib_data()).take(MAX_BLOB_MESSAGE_SIZE);
-        T::parse_from_reader(&mut decoder).map_err(|e| new_protobuf_error(e, "blob zlib data"))
+        let message = T::parse_from_reader(&mut decoder)
+            .map_err(|e| new_protobuf_error(e, "blob zlib data"))?;
+        if decoder.limit() == 0 {
+            // The message was cut off at the limit.
+            return Err(new_blob_error(BlobError::MessageTooBig {
+                size: MAX_BLOB_MESSAGE_SIZE,
+            }));
+        }
+        Ok(message)
     } else {
         Err(new_blob_error(BlobError::Empty))
     }
-- 
2.43.0


From a2b9ce46bf346271e0be07ca2d8bae9d56dfc1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 09/11] fix: report truncated streams as errors instead of the
 end of the data

---
 src/blob.rs | 56 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index c39e335..fd38f2c 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -1,7 +1,9 @@
 //! Read and decode blobs
 
 use crate::block::{HeaderBlock, PrimitiveBlock};
-use crate::error::{new_blob_error, new_error, new_protobuf_error, BlobError, ErrorKind, Result};
+use crate::error::{
+    new_blob_error, new_error, new_protobuf_error, BlobError, Error, ErrorKind, Result,
+};
 use crate::proto::fileformat;
 use byteorder::ReadBytesExt;
 use protobuf::Message;
@@ -186,24 +188,36 @@ impl<R: Read + Send> BlobReader<R> {
         }
     }
 
+    /// Reads the size of the next blob header. Returns `None` if there are no more bytes.
+    fn read_header_size(&mut self) -> std::io::Result<Option<u32>> {
+        let mut first = [0];
+        loop {
+            match self.reader.read(&mut first) {
+                Ok(0) => return Ok(None),
+                Ok(_) => break,
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+                Err(e) => return Err(e),
+            }
+        }
+        let rest = self.reader.read_u24::<byteorder::BigEndian>()?;
+        Ok(Some(u32::from(first[0]) << 24 | rest))
+    }
+
     fn read_blob_header(&mut self) -> Option<Result<fileformat::BlobHeader>> {
-        let header_size: u64 = match self.reader.read_u32::<byteorder::BigEndian>() {
-            Ok(n) => {
+        let header_size: u64 = match self.read_header_size() {
+            Ok(Some(n)) => {
                 self.offset = self.offset.map(|x| ByteOffset(x.0 + 4));
                 u64::from(n)
             }
-            Err(e) => {
+            Ok(None) => {
+                // clean end of the stream
+                self.offset = None;
+                return None;
+            }
+            Err(_) => {
                 self.offset = None;
-                return match e.kind() {
-                    ::std::io::ErrorKind::UnexpectedEof => {
-                        //TODO This also accepts corrupted files in the case of 1-3 available bytes
-                        None
-                    }
-                    _ => {
-                        self.last_blob_ok = false;
-                        Some(Err(new_blob_error(BlobError::InvalidHeaderSize)))
-                    }
-                };
+                self.last_blob_ok = false;
+                return Some(Err(new_blob_error(BlobError::InvalidHeaderSize)));
             }
         };
 
@@ -223,6 +237,11 @@ impl<R: Read + Send> BlobReader<R> {
                 return Some(Err(new_protobuf_error(e, "blob header")));
             }
         };
+        if reader.limit() != 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(unexpected_eof("content too short for header")));
+        }
 
         if let Err(e) = blob_size(&header) {
             self.offset = None;
@@ -291,6 +310,11 @@ impl<R: Read + Send> Iterator for BlobReader<R> {
                 return Some(Err(new_protobuf_error(e, "blob content")));
             }
         };
+        if reader.limit() != 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(unexpected_eof("content too short for block data")));
+        }
 
         self.offset = self
             .offset
@@ -460,6 +484,10 @@ impl BlobReader<BufReader<File>> {
     }
 }
 
+fn unexpected_eof(message: &'static str) -> Error {
+    std::io::Error::new(std::io::ErrorKind::UnexpectedEof, message).into()
+}
+
 /// Returns the size of the blob that follows the given header. The size is stored as a signed
 /// number, but a negative size is invalid.
 pub(crate) fn blob_size(header: &fileformat::BlobHeader) -> Result<u64> {
-- 
2.43.0


From 9a97e5dfab19cf42f2949b2b99b4c760c2a78cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 10/11] fix: retry interrupted reads while reading blobs

---
 src/blob.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index fd38f2c..80ded18 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -154,6 +154,20 @@ impl BlobHeader {
     }
 }
 
+/// Repeats interrupted reads, which would otherwise make protobuf parsing fail.
+struct RetryRead<'a, R>(&'a mut R);
+
+impl<R: Read> Read for RetryRead<'_, R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+                result => return result,
+            }
+        }
+    }
+}
+
 /// A reader for PBF files that allows iterating over [`Blob`]s.
 #[derive(Clone, Debug)]
 pub struct BlobReader<R: Read + Send> {
@@ -191,13 +205,8 @@ impl<R: Read + Send> BlobReader<R> {
     /// Reads the size of the next blob header. Returns `None` if there are no more bytes.
     fn read_header_size(&mut self) -> std::io::Result<Option<u32>> {
         let mut first = [0];
-        loop {
-            match self.reader.read(&mut first) {
-                Ok(0) => return Ok(None),
-                Ok(_) => break,
-                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
-                Err(e) => return Err(e),
-            }
+        if RetryRead(&mut self.reader).read(&mut first)? == 0 {
+            return Ok(None);
         }
         let rest = self.reader.read_u24::<byteorder::BigEndian>()?;
         Ok(Some(u32::from(first[0]) << 24 | rest))
@@ -228,7 +237,7 @@ impl<R: Read + Send> BlobReader<R> {
             })));
         }
 
-        let mut reader = self.reader.by_ref().take(header_size);
+        let mut reader = RetryRead(&mut self.reader).take(header_size);
         let header = match fileformat::BlobHeader::parse_from_reader(&mut reader) {
             Ok(header) => header,
             Err(e) => {
@@ -301,7 +310,7 @@ impl<R: Read + Send> Iterator for BlobReader<R> {
             None => return None,
         };
 
-        let mut reader = self.reader.by_ref().take(header.datasize() as u64);
+        let mut reader = RetryRead(&mut self.reader).take(header.datasize() as u64);
         let blob = match fileformat::Blob::parse_from_reader(&mut reader) {
             Ok(blob) => blob,
             Err(e) => {
-- 
2.43.0


From ab58672f55848551103c0d3e666ce4f9772c6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:47 +0000
Subject: [PATCH 11/11] fix: deliver dense metadata when some of its columns
 are left out

---
 src/dense.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/dense.rs b/src/dense.rs
index e0535fd..7fff398 100644
--- a/src/dense.rs
+++ b/src/dense.rs
@@ -293,21 +293,16 @@ impl<'a> Iterator for DenseNodeInfoIter<'a> {
             self.duser_sids.next(),
             self.visible.next(),
         ) {
-            (
-                Some(&version),
-                Some(dtimestamp),
-                Some(dchangeset),
-                Some(duid),
-                Some(duser_sid),
-                visible_opt,
-            ) => {
-                self.ctimestamp = self.ctimestamp.wrapping_add(*dtimestamp);
-                self.cchangeset = self.cchangeset.wrapping_add(*dchangeset);
-                self.cuid = self.cuid.wrapping_add(*duid);
-                self.cuser_sid = self.cuser_sid.wrapping_add(*duser_sid);
+            (None, None, None, None, None, None) => None,
+            // Columns that are not known may be left out.
+            (version, dtimestamp, dchangeset, duid, duser_sid, visible_opt) => {
+                self.ctimestamp = self.ctimestamp.wrapping_add(*dtimestamp.unwrap_or(&0));
+                self.cchangeset = self.cchangeset.wrapping_add(*dchangeset.unwrap_or(&0));
+                self.cuid = self.cuid.wrapping_add(*duid.unwrap_or(&0));
+                self.cuser_sid = self.cuser_sid.wrapping_add(*duser_sid.unwrap_or(&0));
                 Some(DenseNodeInfo {
                     block: self.block,
-                    version,
+                    version: *version.unwrap_or(&-1),
                     timestamp: self.ctimestamp,
                     changeset: self.cchangeset,
                     uid: self.cuid,
@@ -315,7 +310,6 @@ impl<'a> Iterator for DenseNodeInfoIter<'a> {
                     visible: *visible_opt.unwrap_or(&true),
                 })
             }
-            _ => None,
         }
     }
 }
-- 
2.43.0

