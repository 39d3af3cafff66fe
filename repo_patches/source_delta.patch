From f51c30223b21d3315ccaac8b2c9aed0a25a103c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:34 +0000
Subject: [PATCH 01/20] verif hook: re-export the encrypted stream under
 cfg(disc_riider_verif)

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9718b8a..ecaed9c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `disc_riider_verif` is only set by the verification harness
+#![allow(unexpected_cfgs)]
+
 use std::ops::Deref;
 
 use binrw::binrw;
@@ -15,6 +18,13 @@ pub use fst::{Fst, FstNode, FstToBytes};
 pub use new_reader::{CryptPartReader, WiiIsoReader, WiiPartitionReadInfo};
 pub use window::IOWindow;
 
+/// Access to internals for the verification harness; not part of the API.
+#[cfg(disc_riider_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::reader_writer::WiiEncryptedReadWriteStream;
+}
+
 #[rustfmt::skip]
 pub const COMMON_KEYS: [[u8; 16]; 2] = [
     /* Normal */
-- 
2.43.0


From 78a442c764a03f005c4d81f7495be9ba4098b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:06 +0000
Subject: [PATCH 02/20] fix: report names that Shift-JIS cannot represent
 exactly

The encoder maps U+00A5, U+203E and U+2212 to look-alikes without flagging
an error and a NUL ends the stored name early, so such names were silently
changed in the serialised file system table.
---
 src/fst.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fst.rs b/src/fst.rs
index a2ffa68..f53f79b 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -526,7 +526,12 @@ fn rec_build_fst_bytes(
 ) -> Result<(), FstToBytesError> {
     for node in nodes {
         let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());
-        if error {
+        // some characters are encoded as a similar one (e.g. the yen sign as backslash)
+        // and NUL terminates the name, neither can be read back
+        if error
+            || bytes.contains(&0)
+            || SHIFT_JIS.decode_without_bom_handling(&bytes).0 != node.get_name().as_str()
+        {
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
-- 
2.43.0


From 03cca8097118988d792e26e423331f83f1c94512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:13 +0000
Subject: [PATCH 03/20] fix: IOWindow::read_exact refused reads inside the
 window and allowed reads past it

---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 9f15e14..77cf45c 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -62,7 +62,7 @@ where
 
     fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
         if let Some(bytes_left) = self.bytes_left() {
-            if bytes_left > buf.len() {
+            if bytes_left < buf.len() {
                 return Err(io::ErrorKind::UnexpectedEof.into());
             }
         }
-- 
2.43.0


From b24f0f68ba091b41a369827796c5b994b3d21792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:13 +0000
Subject: [PATCH 04/20] fix: IOWindow::seek works in window coordinates

A relative seek used the position of the source, which need not be where the
window is, and start + offset could overflow.
---
 src/window.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 77cf45c..60d76dc 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -112,18 +112,23 @@ where
     R: Seek,
 {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
-        let position = self.source.seek(match pos {
-            SeekFrom::Current(_) => pos,
+        let new_pos = match pos {
+            SeekFrom::Current(off) => self.pos.saturating_add_signed(off),
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
-                    SeekFrom::Start((self.start + length).saturating_add_signed(off))
+                    length.saturating_add_signed(off)
                 } else {
                     return Err(io::ErrorKind::Unsupported.into());
                 }
             }
-            SeekFrom::Start(off) => SeekFrom::Start(self.start + off),
-        })?;
-        self.pos = position.saturating_sub(self.start);
+            SeekFrom::Start(off) => off,
+        };
+        let source_pos = self
+            .start
+            .checked_add(new_pos)
+            .ok_or(io::ErrorKind::InvalidInput)?;
+        self.source.seek(SeekFrom::Start(source_pos))?;
+        self.pos = new_pos;
         Ok(self.pos)
     }
 
-- 
2.43.0


From 034155ff8782a6c7f1211a8f7e67905bff904778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:10 +0000
Subject: [PATCH 05/20] fix: writing to a group after flush no longer corrupts
 it

flush encrypted the cached group in place and forgot which group was cached,
so the next write to the same group put new data between encrypted bytes and
encrypted the whole group a second time.
---
 src/reader_writer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reader_writer.rs b/src/reader_writer.rs
index 3479d93..36ddf80 100644
--- a/src/reader_writer.rs
+++ b/src/reader_writer.rs
@@ -452,8 +452,11 @@ impl<'a, WS: Write + Read + Seek> Write for WiiEncryptedReadWriteStream<'a, WS>
             OpenMode::ReadWrite { .. } => {
                 if let Some(current_group) = self.inner.current_group {
                     if self.inner.is_dirty {
+                        // the cache keeps the decrypted data, as more data can
+                        // be written to this group after the flush
+                        let mut encrypted = self.inner.group_cache.clone();
                         hash_encrypt_block(
-                            &mut self.inner.group_cache,
+                            &mut encrypted,
                             self.inner.h3.as_mut().map(|h3| {
                                 h3[20 * current_group as usize..][..20]
                                     .as_mut()
@@ -465,10 +468,10 @@ impl<'a, WS: Write + Read + Seek> Write for WiiEncryptedReadWriteStream<'a, WS>
                         self.file.seek(SeekFrom::Start(
                             self.inner.data_offset + GROUP_SIZE * current_group,
                         ))?;
-                        self.file.write_all(self.inner.group_cache.as_ref())?;
+                        self.file.write_all(encrypted.as_ref())?;
                         self.inner.filled_groups = self.inner.filled_groups.max(current_group);
                         self.file.flush()?;
-                        self.inner.current_group = None;
+                        self.inner.is_dirty = false;
                     }
                 }
                 Ok(())
-- 
2.43.0


From 0b9b29bcd9bd0896917a25bfa442bee7bd37b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:03 +0000
Subject: [PATCH 06/20] fix: partition reads end at the end of the data area

Reads copied whole blocks, so when the data size is not a multiple of the
block size they returned bytes from past the end.
---
 src/new_reader.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9071f98..2e1488a 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -101,9 +101,10 @@ impl EncryptedPartState {
             if offset >= self.data_size {
                 break;
             }
-            // we either copy the entire block or what's needed to fill the vec
-            let count_to_copy =
-                (BLOCK_DATA_SIZE - offset_in_block_data).min(length - buffer.len() as u64);
+            // we either copy the entire block, what's needed to fill the vec or what's left of the data
+            let count_to_copy = (BLOCK_DATA_SIZE - offset_in_block_data)
+                .min(length - buffer.len() as u64)
+                .min(self.data_size - offset);
             buffer.extend_from_slice(
                 &self.get_decrypted_block_data(group, block, rs)?[offset_in_block_data as usize..]
                     [..count_to_copy as usize],
@@ -129,8 +130,10 @@ impl EncryptedPartState {
             if self.current_position >= self.data_size {
                 break;
             }
-            // we either copy the entire block or what's needed to fill the slice
-            let count_to_copy = (BLOCK_DATA_SIZE - offset_in_block_data).min(buf.len() as u64);
+            // we either copy the entire block, what's needed to fill the slice or what's left of the data
+            let count_to_copy = (BLOCK_DATA_SIZE - offset_in_block_data)
+                .min(buf.len() as u64)
+                .min(self.data_size - self.current_position);
             let to_fill;
             (to_fill, buf) = buf.split_at_mut(count_to_copy as usize);
             to_fill.copy_from_slice(
-- 
2.43.0


From 0ff8749150520a3c8f6cbc61502977bfe11af235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:03 +0000
Subject: [PATCH 07/20] fix: seeking in a partition reports positions it cannot
 represent

Positions above i64::MAX and positions before the start were silently turned
into position 0, and a relative seek could overflow.
---
 src/new_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 2e1488a..9dc575d 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -177,12 +177,13 @@ impl<'a, RS: Read + Seek> CryptPartReader<'a, RS> {
 impl<'a, RS: Read + Seek> Seek for CryptPartReader<'a, RS> {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let new_pos = match pos {
-            SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off,
-            SeekFrom::Start(off) => off as i64,
+            SeekFrom::Current(off) => self.crypt_part_state.current_position.checked_add_signed(off),
+            SeekFrom::Start(off) => Some(off),
             // TODO: support seeking from the end when it's known?
             SeekFrom::End(_off) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
-        self.crypt_part_state.current_position = new_pos.max(0) as u64;
+        self.crypt_part_state.current_position =
+            new_pos.ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?;
         Ok(self.crypt_part_state.current_position)
     }
 
-- 
2.43.0


From c622c91f921111d6081028c2193d7b5406be3da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:19 +0000
Subject: [PATCH 08/20] fix: malformed file system tables are reported as
 errors

---
 src/fst.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index f53f79b..503da8a 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -142,6 +142,9 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
     Ok(res.into())
 }
 
+/// How deep directories can be nested in a file system table that is read
+const MAX_DEPTH: usize = 256;
+
 /// Implements the file system table
 #[derive(Default, Clone)]
 pub struct Fst {
@@ -318,15 +321,15 @@ impl Fst {
             });
         }
         let total_node_count = root_node.length - 1;
-        let mut nodes = Vec::with_capacity(total_node_count as usize);
-        nodes.push(root_node);
+        // the count is not trusted, it might be larger than the data that's there
+        let mut nodes = vec![root_node];
         for _ in 0..total_node_count {
             nodes.push(rs.read_be::<RawFstNode>()?);
         }
         let str_offset = rs.stream_position()?;
 
         let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1)?;
+            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -336,15 +339,29 @@ impl Fst {
         raw_nodes: &Vec<RawFstNode>,
         children_end: u32,
         cur_idx: &mut u32,
+        depth: usize,
     ) -> binrw::BinResult<Vec<FstNode>> {
-        let mut nodes = Vec::with_capacity(raw_nodes.len());
+        let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
-                let files =
-                    Self::transform_fst_rec(rs, str_offset, raw_nodes, node.length, cur_idx)?;
+                // the children have to be part of the parent
+                if node.length < *cur_idx || node.length > children_end || depth >= MAX_DEPTH {
+                    return Err(binrw::Error::Custom {
+                        pos: str_offset,
+                        err: Box::new(format!("invalid FST directory {name}: {node:?}")),
+                    });
+                }
+                let files = Self::transform_fst_rec(
+                    rs,
+                    str_offset,
+                    raw_nodes,
+                    node.length,
+                    cur_idx,
+                    depth + 1,
+                )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
                 nodes.push(FstNode::File {
@@ -354,7 +371,6 @@ impl Fst {
                 });
             }
         }
-        assert_eq!(*cur_idx, children_end);
         Ok(nodes)
     }
 
-- 
2.43.0


From 6d6e5e2c03fd917baae4c61b2b39c22ca1145c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:53 +0000
Subject: [PATCH 09/20] fix: a ticket with an unknown common key is an error

---
 src/structs.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index df8a7d5..d3d57fd 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{self, Read, Seek, SeekFrom};
 
 use aes::{
     cipher::{block_padding::NoPadding, BlockDecryptMut},
@@ -98,24 +98,44 @@ pub struct TicketTimeLimit {
     pub time_limit: u32,
 }
 
-fn decrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn get_common_key(common_key_idx: u8) -> io::Result<[u8; 16]> {
+    COMMON_KEYS
+        .get(common_key_idx as usize)
+        .copied()
+        .ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("unknown common key {common_key_idx}"),
+            )
+        })
+}
+
+fn decrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> io::Result<[u8; 16]> {
     let mut decrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcDec::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcDec::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .decrypt_padded_b2b_mut::<NoPadding>(key, &mut decrypted)
         .unwrap();
-    decrypted
+    Ok(decrypted)
 }
 
-fn encrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn encrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> io::Result<[u8; 16]> {
     let mut encrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcEnc::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcEnc::new(&get_common_key(common_key_idx)?.into(), &iv.into())
         .encrypt_padded_b2b_mut::<NoPadding>(key, &mut encrypted)
         .unwrap();
-    encrypted
+    Ok(encrypted)
 }
 
 #[binrw]
@@ -128,7 +148,7 @@ pub struct Ticket {
     pub ecdh: [u8; 0x3C],
     #[brw(pad_before = 3)]
     #[br(temp)]
-    #[bw(calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
+    #[bw(try_calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
     encrypted_key: [u8; 16],
     #[brw(pad_before = 1)]
     pub ticket_id: [u8; 8],
@@ -145,7 +165,7 @@ pub struct Ticket {
     pub unk2: u16,
     pub time_limits: [TicketTimeLimit; 8],
     #[bw(ignore)]
-    #[br(calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
+    #[br(try_calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
     pub title_key: [u8; 16],
 }
 
-- 
2.43.0


From 93597ef8a9cd218eea242b75fc7f6acfa832ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:56 +0000
Subject: [PATCH 10/20] fix: sizes read from an image no longer overflow or
 drive allocations

---
 src/new_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9dc575d..86a0c94 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -93,7 +93,8 @@ impl EncryptedPartState {
         buffer: &mut Vec<u8>,
     ) -> io::Result<()> {
         buffer.clear();
-        buffer.reserve(length as usize);
+        // the length is not trusted, it might be larger than the data that's there
+        buffer.reserve(length.min(GROUP_DATA_SIZE) as usize);
         let mut group = offset / GROUP_DATA_SIZE;
         let mut block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
@@ -299,9 +300,9 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
-        let fullsize = 32 + apploader_header.size1 + apploader_header.size2;
+        let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
         let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize as u64, &mut buf)?;
+        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
         Ok(buf)
     }
 
-- 
2.43.0


From fc98cb8aaa61c831d8560556416a966dc22f1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:49 +0000
Subject: [PATCH 11/20] fix: the executable is read up to the end of its last
 section

---
 src/new_reader.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 86a0c94..3829fe4 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -21,6 +21,8 @@ use crate::{
 
 type Aes128CbcDec = cbc::Decryptor<Aes128>;
 
+const DOL_HEADER_SIZE: u64 = 0x100;
+
 pub struct WiiIsoReader<RS: Read + Seek> {
     pub file: RS,
     // TODO: proper structs
@@ -314,24 +316,22 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(dol_offset))?;
         let dol_header = crypt_part_reader.read_be::<DOLHeader>()?;
-        let mut dol_size = dol_header.text_off[0];
-        dol_size = dol_size.saturating_add(
-            dol_header
-                .text_sizes
-                .iter()
-                .chain(dol_header.data_sizes.iter())
-                .cloned()
-                .reduce(|accum, item| accum.saturating_add(item))
-                .unwrap(),
-        );
-        if dol_size == u32::MAX {
+        // the dol ends where its last section ends
+        let offsets = dol_header.text_off.iter().chain(&dol_header.data_off);
+        let sizes = dol_header.text_sizes.iter().chain(&dol_header.data_sizes);
+        let dol_size = offsets
+            .zip(sizes)
+            .filter(|(_, size)| **size != 0)
+            .map(|(offset, size)| *offset as u64 + *size as u64)
+            .fold(DOL_HEADER_SIZE, u64::max);
+        if dol_size > u32::MAX as u64 {
             Err(binrw::Error::Custom {
                 pos: dol_offset,
                 err: Box::new("overflow calculating dol size!"),
             })
         } else {
             let mut out_buf = Vec::new();
-            crypt_part_reader.read_into_vec(dol_offset, dol_size as u64, &mut out_buf)?;
+            crypt_part_reader.read_into_vec(dol_offset, dol_size, &mut out_buf)?;
             Ok(out_buf)
         }
     }
-- 
2.43.0


From cbd29c5c1397373f2e4f702266d0c2580945f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:41 +0000
Subject: [PATCH 12/20] fix: game titles that fill or exceed their field no
 longer shift the disc header

---
 src/structs.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index d3d57fd..d1c2fb6 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -5,7 +5,7 @@ use aes::{
     cipher::{BlockEncryptMut, KeyIvInit},
     Aes128,
 };
-use binrw::{binrw, BinReaderExt, NullString};
+use binrw::{binrw, BinReaderExt};
 
 use crate::{ShiftedU64, COMMON_KEYS};
 
@@ -241,6 +241,24 @@ pub struct WiiPartitionHeader {
     pub data_size: ShiftedU64,
 }
 
+/// the title is terminated by a 0 byte unless it fills the entire field
+fn title_from_raw(raw: &[u8; 64]) -> String {
+    let len = raw.iter().position(|b| *b == 0).unwrap_or(raw.len());
+    String::from_utf8_lossy(&raw[..len]).into_owned()
+}
+
+fn title_to_raw(title: &str) -> io::Result<[u8; 64]> {
+    let mut raw = [0; 64];
+    if title.len() > raw.len() || title.contains('\0') {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            format!("game title can't be stored: {title:?}"),
+        ));
+    }
+    raw[..title.len()].copy_from_slice(title.as_bytes());
+    Ok(raw)
+}
+
 /// Wii disc header
 #[binrw]
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -256,9 +274,8 @@ pub struct DiscHeader {
     pub wii_magic: u32,
     /// If this is a GameCube disc, this will be 0xC2339F3D
     pub gcn_magic: u32,
-    #[brw(pad_size_to(64))]
-    #[br(map = |s| NullString::to_string(&s))]
-    #[bw(map = |s| NullString::from(s.clone()))]
+    #[br(map = |raw: [u8; 64]| title_from_raw(&raw))]
+    #[bw(try_map = |title: &String| title_to_raw(title))]
     pub game_title: String,
     /// Disable hash verification
     pub disable_hash_verification: u8,
-- 
2.43.0


From f8fe828e040c952f35578f4e5f453131d74ec1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:40 +0000
Subject: [PATCH 13/20] fix: a partition that could not be added is not listed

---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 18798ea..0869027 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -115,10 +115,6 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-        self.partitions.push(WiiPartTableEntry {
-            part_data_off: part_data_off.into(),
-            part_type,
-        });
         // placeholder header
         let mut part_header = WiiPartitionHeader {
             ticket,
@@ -289,6 +285,11 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // write partition header
         partition_window.seek(SeekFrom::Start(0))?;
         partition_window.write_be(&part_header)?;
+        // only now the partition is complete
+        self.partitions.push(WiiPartTableEntry {
+            part_data_off: part_data_off.into(),
+            part_type,
+        });
         Ok(())
     }
 
-- 
2.43.0


From 1e55e9bf38a561e3b29b3f04d097729ca6b9cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:40 +0000
Subject: [PATCH 14/20] fix: metadata without contents is refused instead of
 panicking

---
 src/builder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 0869027..4649607 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -113,6 +113,14 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         C: FnMut(u8),
     {
         progress_cb(0);
+        if tmd.contents.is_empty() {
+            // there is nowhere to put the content hash
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "the tmd doesn't have any contents",
+            )
+            .into());
+        }
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
         // placeholder header
-- 
2.43.0


From cf332669e4e42812bf1de615555b7ddc50fd9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:43 +0000
Subject: [PATCH 15/20] fix: metadata and certificates too large for their area
 are refused

---
 src/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 4649607..d5a6977 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -147,6 +147,13 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         partition_window.write_be(&cert_chain)?;
         part_header.cert_chain_size =
             (partition_window.stream_position()? - *part_header.cert_chain_off) as u32;
+        if *part_header.cert_chain_off + part_header.cert_chain_size as u64 > 0x8000 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "the tmd and certificates don't fit in front of the global hash table",
+            )
+            .into());
+        }
         // global hash table at 0x8000, encrypted data starts at 0x20000
         // let mut h3: Box<[u8; 0x18000]> = vec![0u8; 0x18000].into_boxed_slice().try_into().unwrap();
         // now we write encrypted data
-- 
2.43.0


From f57a03e30d9e84df4285a7f95f388b7cc8c65f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:54 +0000
Subject: [PATCH 16/20] verif hook: expose the directory reader under
 cfg(disc_riider_verif)

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index ecaed9c..ed46667 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,6 +22,7 @@ pub use window::IOWindow;
 #[cfg(disc_riider_verif)]
 #[doc(hidden)]
 pub mod verif {
+    pub use crate::dir_reader::build_fst_from_directory_tree;
     pub use crate::reader_writer::WiiEncryptedReadWriteStream;
 }
 
-- 
2.43.0


From 46b5869a6ad9820df1105731a14bd9fac1511a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:54 +0000
Subject: [PATCH 17/20] fix: extraction refuses names that lead out of the
 destination directory

---
 disc-riider-py/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index e7611b8..587109f 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -2,7 +2,7 @@ use std::{
     convert::Infallible,
     fs::{self, create_dir_all, OpenOptions},
     io::{Read, Seek, SeekFrom, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use binrw::{BinWrite, BinWriterExt};
@@ -76,6 +76,13 @@ impl WiiIsoExtractor {
     }
 }
 
+/// names that are not exactly one path component would leave the destination
+fn is_plain_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(components.next(), Some(Component::Normal(c)) if c == name)
+        && components.next().is_none()
+}
+
 pub fn binrw_write_file(p: &Path, value: &impl for<'a> BinWrite<Args<'a> = ()>) -> PyResult<()> {
     let mut f = fs::File::create(p).into_pyerr_with_path(p)?;
     f.write_be(value).into_pyerr_with_path(p)?;
@@ -234,6 +241,12 @@ impl WiiIsoExtractor {
                     if let FstNode::File { offset, length, .. } = node {
                         let mut filepath = section_path.join("files");
                         for name in names {
+                            if !is_plain_name(name) {
+                                return Err(std::io::Error::new(
+                                    std::io::ErrorKind::InvalidData,
+                                    format!("cannot extract a file named {name:?}"),
+                                ));
+                            }
                             filepath.push(name);
                         }
                         // println!("{filepath:?}");
-- 
2.43.0


From 12e8ee9c79e66cc504921aaf9cfddcd37b4115a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:54 +0000
Subject: [PATCH 18/20] fix: an extracted section without files can be rebuilt

---
 disc-riider-py/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index 587109f..7438552 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -211,6 +211,8 @@ impl WiiIsoExtractor {
 
             let section_path_disk = section_path.join("disc");
             create_dir_all(&section_path_disk)?;
+            // rebuilding expects this, even if there are no files
+            create_dir_all(section_path.join("files"))?;
 
             binrw_write_file(&section_path_disk.join("header.bin"), &disc_header)?;
             fs::write(section_path_disk.join("region.bin"), region)?;
-- 
2.43.0


From 7db42df66ee42f2a3f28dabfa32554fdf27a939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:54 +0000
Subject: [PATCH 19/20] fix: extracting a file that is not completely there is
 an error

---
 disc-riider-py/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index 7438552..4f7d9f0 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -258,12 +258,12 @@ impl WiiIsoExtractor {
                         let mut outfile = fs::File::create(&filepath)?;
                         wii_encrypt_reader.seek(SeekFrom::Start(*offset))?;
                         let mut bytes_left = *length as usize;
-                        loop {
+                        while bytes_left > 0 {
                             let bytes_to_read = bytes_left.min(buffer.len());
                             let bytes_read =
                                 wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;
                             if bytes_read == 0 {
-                                break;
+                                return Err(std::io::ErrorKind::UnexpectedEof.into());
                             }
 
                             outfile.write_all(&buffer[..bytes_read])?;
-- 
2.43.0


From 08b0e1f5cdc968b6999fda8e317ab56c8f93bbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:57 +0000
Subject: [PATCH 20/20] fix: copying an image without a data partition is an
 error, and without THP copies everything

---
 src/builder.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index d5a6977..8e62f6b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -396,20 +396,16 @@ pub fn build_copy(src: &Path, dest: &Path) -> Result<(), CpBuildErr> {
         .partitions()
         .iter()
         .find(|p| p.get_type() == WiiPartType::Data)
-        .unwrap()
-        .clone();
+        .cloned()
+        .ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "no data partition"))?;
     let mut part_read_info = reader.open_partition(data_part)?;
     let ticket = part_read_info.get_partition_header().ticket.clone();
     let tmd = part_read_info.read_tmd(&mut reader)?;
     let cert_chain = part_read_info.read_certificates(&mut reader)?;
     let bi2 = part_read_info.read_bi2(&mut reader)?;
     let mut original_fst = part_read_info.get_fst().clone();
-    let thp_dir = original_fst.find_node_path_mut("THP").unwrap();
-    match thp_dir {
-        FstNode::File { .. } => unreachable!(),
-        FstNode::Directory { files, .. } => {
-            files.retain(|f| f.get_name().starts_with("Demo"));
-        }
+    if let Some(FstNode::Directory { files, .. }) = original_fst.find_node_path_mut("THP") {
+        files.retain(|f| f.get_name().starts_with("Demo"));
     }
     let mut copy_builder = CopyBuilder {
         bi2,
-- 
2.43.0

