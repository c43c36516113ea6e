From 596e691b0b88d6aed4e9470a77df5162a4e43ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:30 +0000
Subject: [PATCH 01/25] fix: IOWindow::read_exact failed exactly when enough
 bytes were left

---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 9f15e14..77cf45c 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -62,7 +62,7 @@ where
 
     fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
         if let Some(bytes_left) = self.bytes_left() {
-            if bytes_left > buf.len() {
+            if bytes_left < buf.len() {
                 return Err(io::ErrorKind::UnexpectedEof.into());
             }
         }
-- 
2.43.0


From 23e4192a1a2c872119dc4df01fd512ef3b4b7cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:30 +0000
Subject: [PATCH 02/25] fix: IOWindow relative seeks ignored the window
 position when the source was elsewhere

---
 src/window.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index 77cf45c..4b0365f 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -113,7 +113,10 @@ where
 {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
         let position = self.source.seek(match pos {
-            SeekFrom::Current(_) => pos,
+            // relative to the window's own position, the source might be somewhere else
+            SeekFrom::Current(off) => {
+                SeekFrom::Start((self.start + self.pos).saturating_add_signed(off))
+            }
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
                     SeekFrom::Start((self.start + length).saturating_add_signed(off))
-- 
2.43.0


From 40bc5a683471dabfc6c0e4399a5a7081295f77c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 03/25] fix: game titles of 64 or more bytes moved all later
 disc header fields

---
 src/structs.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index df8a7d5..879b6fa 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -5,7 +5,7 @@ use aes::{
     cipher::{BlockEncryptMut, KeyIvInit},
     Aes128,
 };
-use binrw::{binrw, BinReaderExt, NullString};
+use binrw::{binrw, BinReaderExt};
 
 use crate::{ShiftedU64, COMMON_KEYS};
 
@@ -221,6 +221,21 @@ pub struct WiiPartitionHeader {
     pub data_size: ShiftedU64,
 }
 
+fn decode_title(field: &[u8; 64]) -> String {
+    let len = field.iter().position(|b| *b == 0).unwrap_or(field.len());
+    String::from_utf8_lossy(&field[..len]).into_owned()
+}
+
+fn encode_title(title: &str) -> Result<[u8; 64], String> {
+    let bytes = title.as_bytes();
+    let mut field = [0; 64];
+    field
+        .get_mut(..bytes.len())
+        .ok_or_else(|| format!("game title {title:?} is longer than 64 bytes"))?
+        .copy_from_slice(bytes);
+    Ok(field)
+}
+
 /// Wii disc header
 #[binrw]
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -236,9 +251,8 @@ pub struct DiscHeader {
     pub wii_magic: u32,
     /// If this is a GameCube disc, this will be 0xC2339F3D
     pub gcn_magic: u32,
-    #[brw(pad_size_to(64))]
-    #[br(map = |s| NullString::to_string(&s))]
-    #[bw(map = |s| NullString::from(s.clone()))]
+    #[br(map = |b: [u8; 64]| decode_title(&b))]
+    #[bw(try_map = |s: &String| encode_title(s))]
     pub game_title: String,
     /// Disable hash verification
     pub disable_hash_verification: u8,
-- 
2.43.0


From aac9b910b83a51565e61c1af9ca553c4edfa21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 04/25] fix: keep title bytes that are not UTF-8 when a disc
 header is read and written back

---
 src/structs.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index 879b6fa..79e7fe1 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -221,18 +221,40 @@ pub struct WiiPartitionHeader {
     pub data_size: ShiftedU64,
 }
 
+// title bytes that aren't UTF-8 are kept as private use characters, so that
+// writing the title back restores them
+const TITLE_ESCAPE: u32 = 0xF700;
+
 fn decode_title(field: &[u8; 64]) -> String {
     let len = field.iter().position(|b| *b == 0).unwrap_or(field.len());
-    String::from_utf8_lossy(&field[..len]).into_owned()
+    let escape = |b: &u8| char::from_u32(TITLE_ESCAPE + *b as u32).unwrap();
+    let mut title = String::new();
+    for chunk in field[..len].utf8_chunks() {
+        for c in chunk.valid().chars() {
+            if (TITLE_ESCAPE..TITLE_ESCAPE + 0x100).contains(&(c as u32)) {
+                title.extend(c.encode_utf8(&mut [0; 4]).as_bytes().iter().map(escape));
+            } else {
+                title.push(c);
+            }
+        }
+        title.extend(chunk.invalid().iter().map(escape));
+    }
+    title
 }
 
 fn encode_title(title: &str) -> Result<[u8; 64], String> {
-    let bytes = title.as_bytes();
+    let mut bytes = Vec::new();
+    for c in title.chars() {
+        match (c as u32).checked_sub(TITLE_ESCAPE) {
+            Some(b @ 0..=0xFF) => bytes.push(b as u8),
+            _ => bytes.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
+        }
+    }
     let mut field = [0; 64];
     field
         .get_mut(..bytes.len())
         .ok_or_else(|| format!("game title {title:?} is longer than 64 bytes"))?
-        .copy_from_slice(bytes);
+        .copy_from_slice(&bytes);
     Ok(field)
 }
 
-- 
2.43.0


From f311bf6f02823d9bb0952d2bcb690fa27d44a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:13 +0000
Subject: [PATCH 05/25] fix: reading or writing a ticket with an unknown common
 key index panicked

---
 src/structs.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index 79e7fe1..c0a0cf4 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -98,24 +98,38 @@ pub struct TicketTimeLimit {
     pub time_limit: u32,
 }
 
-fn decrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn get_common_key(common_key_idx: u8) -> Result<&'static [u8; 16], String> {
+    COMMON_KEYS
+        .get(common_key_idx as usize)
+        .ok_or_else(|| format!("unknown common key index {common_key_idx}"))
+}
+
+fn decrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut decrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcDec::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcDec::new(get_common_key(common_key_idx)?.into(), &iv.into())
         .decrypt_padded_b2b_mut::<NoPadding>(key, &mut decrypted)
         .unwrap();
-    decrypted
+    Ok(decrypted)
 }
 
-fn encrypt_title_key(key: &[u8; 16], common_key_idx: u8, title_id: &[u8; 8]) -> [u8; 16] {
+fn encrypt_title_key(
+    key: &[u8; 16],
+    common_key_idx: u8,
+    title_id: &[u8; 8],
+) -> Result<[u8; 16], String> {
     let mut encrypted = [0; 16];
     let mut iv = [0u8; 0x10];
     iv[..8].copy_from_slice(title_id);
-    Aes128CbcEnc::new(&COMMON_KEYS[common_key_idx as usize].into(), &iv.into())
+    Aes128CbcEnc::new(get_common_key(common_key_idx)?.into(), &iv.into())
         .encrypt_padded_b2b_mut::<NoPadding>(key, &mut encrypted)
         .unwrap();
-    encrypted
+    Ok(encrypted)
 }
 
 #[binrw]
@@ -128,7 +142,7 @@ pub struct Ticket {
     pub ecdh: [u8; 0x3C],
     #[brw(pad_before = 3)]
     #[br(temp)]
-    #[bw(calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
+    #[bw(try_calc = encrypt_title_key(title_key, *common_key_idx, title_id))]
     encrypted_key: [u8; 16],
     #[brw(pad_before = 1)]
     pub ticket_id: [u8; 8],
@@ -145,7 +159,7 @@ pub struct Ticket {
     pub unk2: u16,
     pub time_limits: [TicketTimeLimit; 8],
     #[bw(ignore)]
-    #[br(calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
+    #[br(try_calc = decrypt_title_key(&encrypted_key, common_key_idx, &title_id))]
     pub title_key: [u8; 16],
 }
 
-- 
2.43.0


From 468dd8431cc4c7f45bd9791b3464e72d5efb8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:45 +0000
Subject: [PATCH 06/25] fix: malformed file system tables panicked, overflowed
 the stack or exhausted memory

---
 src/fst.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index a2ffa68..ae0a510 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -142,6 +142,9 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
     Ok(res.into())
 }
 
+/// Deepest supported directory nesting, the table is processed recursively
+const MAX_DEPTH: usize = 512;
+
 /// Implements the file system table
 #[derive(Default, Clone)]
 pub struct Fst {
@@ -318,15 +321,15 @@ impl Fst {
             });
         }
         let total_node_count = root_node.length - 1;
-        let mut nodes = Vec::with_capacity(total_node_count as usize);
-        nodes.push(root_node);
+        // the count isn't trustworthy, don't reserve memory for it upfront
+        let mut nodes = vec![root_node];
         for _ in 0..total_node_count {
             nodes.push(rs.read_be::<RawFstNode>()?);
         }
         let str_offset = rs.stream_position()?;
 
         let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1)?;
+            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -336,15 +339,28 @@ impl Fst {
         raw_nodes: &Vec<RawFstNode>,
         children_end: u32,
         cur_idx: &mut u32,
+        depth: usize,
     ) -> binrw::BinResult<Vec<FstNode>> {
-        let mut nodes = Vec::with_capacity(raw_nodes.len());
+        let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
             let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
             *cur_idx += 1;
             if node.is_directory {
-                let files =
-                    Self::transform_fst_rec(rs, str_offset, raw_nodes, node.length, cur_idx)?;
+                if !(*cur_idx..=children_end).contains(&node.length) || depth >= MAX_DEPTH {
+                    return Err(binrw::Error::Custom {
+                        pos: str_offset,
+                        err: Box::new(format!("invalid FST directory {name:?}: {node:?}")),
+                    });
+                }
+                let files = Self::transform_fst_rec(
+                    rs,
+                    str_offset,
+                    raw_nodes,
+                    node.length,
+                    cur_idx,
+                    depth + 1,
+                )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
                 nodes.push(FstNode::File {
@@ -354,7 +370,6 @@ impl Fst {
                 });
             }
         }
-        assert_eq!(*cur_idx, children_end);
         Ok(nodes)
     }
 
-- 
2.43.0


From 609682102b4d914b74babdb9e8387cf8b22a30db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:45 +0000
Subject: [PATCH 07/25] fix: file names that Shift-JIS can't represent exactly
 were silently stored under another name

---
 src/fst.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fst.rs b/src/fst.rs
index ae0a510..a80e28b 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -541,7 +541,11 @@ fn rec_build_fst_bytes(
 ) -> Result<(), FstToBytesError> {
     for node in nodes {
         let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());
-        if error {
+        // some characters are only replaced by a similar one, and the name ends at the first NUL
+        if error
+            || bytes.contains(&0)
+            || SHIFT_JIS.decode_without_bom_handling(&bytes).0 != *node.get_name()
+        {
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
-- 
2.43.0


From e6d63e1f1919b96bcc5a111d07fe1797aebd7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:46 +0000
Subject: [PATCH 08/25] fix: refuse file system tables whose names don't fit 24
 bit offsets or that can't be read back

---
 src/fst.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index a80e28b..58edf81 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -532,12 +532,17 @@ pub struct FstToBytes {
 pub enum FstToBytesError {
     #[error("{0} can't be converted into shift-jis!")]
     InvalidShiftJis(String),
+    #[error("the file names are too long for the file system table!")]
+    NamesTooLong,
+    #[error("{0} is nested too deeply!")]
+    TooDeep(String),
 }
 
 fn rec_build_fst_bytes(
     nodes: &Vec<FstNode>,
     name_offsets: &mut Vec<u32>,
     str_bytes: &mut Vec<u8>,
+    depth: usize,
 ) -> Result<(), FstToBytesError> {
     for node in nodes {
         let (bytes, _, error) = SHIFT_JIS.encode(node.get_name());
@@ -549,12 +554,18 @@ fn rec_build_fst_bytes(
             return Err(FstToBytesError::InvalidShiftJis(node.get_name().clone()));
         }
         let name_offset = str_bytes.len() as u32;
+        if name_offset > 0xffffff {
+            return Err(FstToBytesError::NamesTooLong);
+        }
         str_bytes.extend_from_slice(bytes.as_ref());
         str_bytes.push(0);
         name_offsets.push(name_offset as u32);
         match node {
             FstNode::Directory { files, .. } => {
-                rec_build_fst_bytes(files, name_offsets, str_bytes)?;
+                if depth >= MAX_DEPTH {
+                    return Err(FstToBytesError::TooDeep(node.get_name().clone()));
+                }
+                rec_build_fst_bytes(files, name_offsets, str_bytes, depth + 1)?;
             }
             &FstNode::File { .. } => {}
         }
@@ -574,7 +585,7 @@ impl TryFrom<Fst> for FstToBytes {
         str_offsets.push(0);
         str_bytes.push(0);
         // recursive
-        rec_build_fst_bytes(&value.entries, &mut str_offsets, &mut str_bytes)?;
+        rec_build_fst_bytes(&value.entries, &mut str_offsets, &mut str_bytes, 0)?;
         Ok(FstToBytes {
             str_offsets,
             str_bytes,
-- 
2.43.0


From a2cac3bcf2e5bd0ae2b2cee9310a4c8735743859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:47 +0000
Subject: [PATCH 09/25] fix: executables with gaps between or reordered
 sections were cut off when read

---
 src/new_reader.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9071f98..9cc43d2 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -309,16 +309,20 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(dol_offset))?;
         let dol_header = crypt_part_reader.read_be::<DOLHeader>()?;
-        let mut dol_size = dol_header.text_off[0];
-        dol_size = dol_size.saturating_add(
-            dol_header
-                .text_sizes
-                .iter()
-                .chain(dol_header.data_sizes.iter())
-                .cloned()
-                .reduce(|accum, item| accum.saturating_add(item))
-                .unwrap(),
-        );
+        // the sections can be in any order and have gaps between them
+        let dol_size = dol_header
+            .text_off
+            .iter()
+            .chain(dol_header.data_off.iter())
+            .zip(
+                dol_header
+                    .text_sizes
+                    .iter()
+                    .chain(dol_header.data_sizes.iter()),
+            )
+            .filter(|(_, size)| **size != 0)
+            .map(|(off, size)| off.saturating_add(*size))
+            .fold(dol_header.text_off[0], u32::max);
         if dol_size == u32::MAX {
             Err(binrw::Error::Custom {
                 pos: dol_offset,
-- 
2.43.0


From 99c801308989353be297daca148f6c6c37004d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:47 +0000
Subject: [PATCH 10/25] fix: untrusted apploader and file table sizes
 overflowed or were allocated upfront

---
 src/new_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 9cc43d2..3ec2cdc 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -93,7 +93,8 @@ impl EncryptedPartState {
         buffer: &mut Vec<u8>,
     ) -> io::Result<()> {
         buffer.clear();
-        buffer.reserve(length as usize);
+        // the length isn't trustworthy, reserve at most one group upfront
+        buffer.reserve(length.min(GROUP_DATA_SIZE) as usize);
         let mut group = offset / GROUP_DATA_SIZE;
         let mut block = (offset % GROUP_DATA_SIZE) / BLOCK_DATA_SIZE;
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
@@ -295,9 +296,9 @@ impl WiiPartitionReadInfo {
         let mut crypt_part_reader = self.get_crypto_reader(reader);
         crypt_part_reader.seek(SeekFrom::Start(0x2440))?;
         let apploader_header: ApploaderHeader = crypt_part_reader.read_be()?;
-        let fullsize = 32 + apploader_header.size1 + apploader_header.size2;
+        let fullsize = 32 + apploader_header.size1 as u64 + apploader_header.size2 as u64;
         let mut buf = Vec::new();
-        crypt_part_reader.read_into_vec(0x2440, fullsize as u64, &mut buf)?;
+        crypt_part_reader.read_into_vec(0x2440, fullsize, &mut buf)?;
         Ok(buf)
     }
 
-- 
2.43.0


From 269f5ca41c53f47e4f9e4d75e99d99834a11ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:01 +0000
Subject: [PATCH 11/25] fix: system files and copied files reaching beyond the
 partition data were silently shortened

---
 src/new_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index 3ec2cdc..d5f42a9 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -100,7 +100,7 @@ impl EncryptedPartState {
         let mut offset_in_block_data = offset % BLOCK_DATA_SIZE;
         while buffer.len() < length as usize {
             if offset >= self.data_size {
-                break;
+                return Err(io::ErrorKind::UnexpectedEof.into());
             }
             // we either copy the entire block or what's needed to fill the vec
             let count_to_copy =
-- 
2.43.0


From 6fe41d9e28db9f552826d28ddd2c01ad1e804a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:02 +0000
Subject: [PATCH 12/25] fix: seeking partition streams and windows to very
 large positions overflowed or went to the start

---
 src/new_reader.rs | 10 ++++++----
 src/window.rs     |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/new_reader.rs b/src/new_reader.rs
index d5f42a9..26b4fc2 100644
--- a/src/new_reader.rs
+++ b/src/new_reader.rs
@@ -174,13 +174,15 @@ impl<'a, RS: Read + Seek> CryptPartReader<'a, RS> {
 
 impl<'a, RS: Read + Seek> Seek for CryptPartReader<'a, RS> {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
-        let new_pos = match pos {
-            SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off,
-            SeekFrom::Start(off) => off as i64,
+        self.crypt_part_state.current_position = match pos {
+            SeekFrom::Current(off) => self
+                .crypt_part_state
+                .current_position
+                .saturating_add_signed(off),
+            SeekFrom::Start(off) => off,
             // TODO: support seeking from the end when it's known?
             SeekFrom::End(_off) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
-        self.crypt_part_state.current_position = new_pos.max(0) as u64;
         Ok(self.crypt_part_state.current_position)
     }
 
diff --git a/src/window.rs b/src/window.rs
index 4b0365f..8cfbbb0 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -124,7 +124,7 @@ where
                     return Err(io::ErrorKind::Unsupported.into());
                 }
             }
-            SeekFrom::Start(off) => SeekFrom::Start(self.start + off),
+            SeekFrom::Start(off) => SeekFrom::Start(self.start.saturating_add(off)),
         })?;
         self.pos = position.saturating_sub(self.start);
         Ok(self.pos)
-- 
2.43.0


From 94d3435e46ccff5c5e555e1bdfdf04dc7ad8eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:21 +0000
Subject: [PATCH 13/25] fix: a partition that could not be added was still
 listed in the partition table

---
 src/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 18798ea..ee7498b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -115,10 +115,6 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         progress_cb(0);
         let part_data_off = self.current_data_offset;
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
-        self.partitions.push(WiiPartTableEntry {
-            part_data_off: part_data_off.into(),
-            part_type,
-        });
         // placeholder header
         let mut part_header = WiiPartitionHeader {
             ticket,
@@ -289,6 +285,10 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // write partition header
         partition_window.seek(SeekFrom::Start(0))?;
         partition_window.write_be(&part_header)?;
+        self.partitions.push(WiiPartTableEntry {
+            part_data_off: part_data_off.into(),
+            part_type,
+        });
         Ok(())
     }
 
-- 
2.43.0


From 34eee9335d6799de08789690a0b189ca52a0be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:22 +0000
Subject: [PATCH 14/25] fix: a TMD without contents panicked and too much
 metadata was overwritten by the hash table

---
 src/builder.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index ee7498b..d470fe2 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -28,6 +28,10 @@ fn align_next(num: u64, alignment: u64) -> u64 {
     num.wrapping_add(alignment - 1) & !(alignment - 1)
 }
 
+fn invalid_data(msg: &str) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, msg)
+}
+
 #[derive(thiserror::Error, Debug)]
 pub enum PartitionAddError<E: Error> {
     #[error("{0}")]
@@ -129,6 +133,9 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         // TODO: check that the header has a size of 704
         // already aligned to 0x20
         part_header.tmd_off = 704.into();
+        if tmd.contents.is_empty() {
+            return Err(invalid_data("tmd doesn't have a content entry").into());
+        }
         // space for TMD
         let mut tmd_buf = Vec::new();
         Cursor::new(&mut tmd_buf).write_be(&tmd)?;
@@ -139,6 +146,9 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         partition_window.write_be(&cert_chain)?;
         part_header.cert_chain_size =
             (partition_window.stream_position()? - *part_header.cert_chain_off) as u32;
+        if *part_header.cert_chain_off + part_header.cert_chain_size as u64 > 0x8000 {
+            return Err(invalid_data("tmd and certificates don't fit before the hash table").into());
+        }
         // global hash table at 0x8000, encrypted data starts at 0x20000
         // let mut h3: Box<[u8; 0x18000]> = vec![0u8; 0x18000].into_boxed_slice().try_into().unwrap();
         // now we write encrypted data
-- 
2.43.0


From b3d325d9217bab5062b67a05c1e4f4862bb65457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:39 +0000
Subject: [PATCH 15/25] fix: partition data beyond the hash table limit
 panicked

---
 src/reader_writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reader_writer.rs b/src/reader_writer.rs
index 3479d93..9d01865 100644
--- a/src/reader_writer.rs
+++ b/src/reader_writer.rs
@@ -13,6 +13,9 @@ use crate::{BLOCK_DATA_OFFSET, BLOCK_DATA_SIZE, BLOCK_SIZE, GROUP_DATA_SIZE, GRO
 type Aes128CbcEnc = cbc::Encryptor<Aes128>;
 type Aes128CbcDec = cbc::Decryptor<Aes128>;
 
+// number of hashes that fit in the h3 table
+const MAX_H3_GROUPS: u64 = 0x18000 / 20;
+
 enum OpenMode {
     Readonly { max_group: u64 },
     // write can either be "over"write or completely writing from scratch
@@ -389,6 +392,12 @@ impl<'a, WS: Write + Read + Seek> Write for WiiEncryptedReadWriteStream<'a, WS>
                         // we are above the limit
                         break;
                     }
+                    if group >= MAX_H3_GROUPS {
+                        return Err(io::Error::new(
+                            io::ErrorKind::InvalidData,
+                            "too much data for a partition",
+                        ));
+                    }
                     // if we're not in the current group of the buffer anymore, load that group
                     if let Some(current_group) = self.inner.current_group {
                         if current_group != group {
-- 
2.43.0


From fca058761bb65d1a7461c025ebbc55d6653288d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:39 +0000
Subject: [PATCH 16/25] fix: files over 4 GiB and oversized bi2 data were
 silently truncated when building

---
 src/builder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index d470fe2..f8e75b2 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -179,7 +179,12 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         let mut fst = FstToBytes::try_from(source_fst)?;
         let mut part_disc_header = partition_def.get_disc_header()?;
         crypto_writer.seek(SeekFrom::Start(0x440))?;
-        crypto_writer.write_all(&partition_def.get_bi2()?)?;
+        let bi2 = partition_def.get_bi2()?;
+        if bi2.len() > 0x2000 {
+            return Err(invalid_data("bi2 is larger than 0x2000 bytes").into());
+        }
+        crypto_writer.write_all(&bi2)?;
+        drop(bi2);
 
         // write apploader (always at the same address)
         crypto_writer.seek(SeekFrom::Start(0x2440))?;
@@ -211,7 +216,10 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
             *offset = crypto_writer.stream_position()?;
             let (data, padding) = partition_def.get_file_data(path)?;
             let mut remaining_data = data.as_ref();
-            *size = remaining_data.len() as u32;
+            *size = remaining_data
+                .len()
+                .try_into()
+                .map_err(|_| invalid_data("file is larger than 4 GiB"))?;
             while remaining_data.len() > 0 {
                 let bytes_to_write = remaining_data.len().min(0x1_000_000);
                 let batch;
-- 
2.43.0


From a45b39dd985a5ed97eae0ee963372e4355a9c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:40 +0000
Subject: [PATCH 17/25] fix: build_copy panicked for images without a THP
 directory or DATA partition

---
 src/builder.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f8e75b2..b597945 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -398,7 +398,7 @@ pub fn build_copy(src: &Path, dest: &Path) -> Result<(), CpBuildErr> {
         .partitions()
         .iter()
         .find(|p| p.get_type() == WiiPartType::Data)
-        .unwrap()
+        .ok_or_else(|| invalid_data("there is no data partition"))?
         .clone();
     let mut part_read_info = reader.open_partition(data_part)?;
     let ticket = part_read_info.get_partition_header().ticket.clone();
@@ -406,12 +406,8 @@ pub fn build_copy(src: &Path, dest: &Path) -> Result<(), CpBuildErr> {
     let cert_chain = part_read_info.read_certificates(&mut reader)?;
     let bi2 = part_read_info.read_bi2(&mut reader)?;
     let mut original_fst = part_read_info.get_fst().clone();
-    let thp_dir = original_fst.find_node_path_mut("THP").unwrap();
-    match thp_dir {
-        FstNode::File { .. } => unreachable!(),
-        FstNode::Directory { files, .. } => {
-            files.retain(|f| f.get_name().starts_with("Demo"));
-        }
+    if let Some(FstNode::Directory { files, .. }) = original_fst.find_node_path_mut("THP") {
+        files.retain(|f| f.get_name().starts_with("Demo"));
     }
     let mut copy_builder = CopyBuilder {
         bi2,
-- 
2.43.0


From 804c3f40281fa6ac530e6374c3c59f9522d5e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:40 +0000
Subject: [PATCH 18/25] fix: files reaching beyond the partition data were
 extracted silently shortened

---
 disc-riider-py/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index e7611b8..757eeef 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -248,6 +248,9 @@ impl WiiIsoExtractor {
                             let bytes_read =
                                 wii_encrypt_reader.read(&mut buffer[..bytes_to_read])?;
                             if bytes_read == 0 {
+                                if bytes_left > 0 {
+                                    return Err(std::io::ErrorKind::UnexpectedEof.into());
+                                }
                                 break;
                             }
 
-- 
2.43.0


From 8a393ace984be4363ee90f9cb8cea3787342c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:42 +0000
Subject: [PATCH 19/25] fix: file names from the image could make the
 extraction write outside of the destination

---
 disc-riider-py/src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index 757eeef..9d3a6ba 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -2,7 +2,7 @@ use std::{
     convert::Infallible,
     fs::{self, create_dir_all, OpenOptions},
     io::{Read, Seek, SeekFrom, Write},
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use binrw::{BinWrite, BinWriterExt};
@@ -76,6 +76,13 @@ impl WiiIsoExtractor {
     }
 }
 
+/// whether the name is a single normal path component
+fn is_plain_name(name: &str) -> bool {
+    let mut components = Path::new(name).components();
+    matches!(components.next(), Some(Component::Normal(c)) if c == name)
+        && components.next().is_none()
+}
+
 pub fn binrw_write_file(p: &Path, value: &impl for<'a> BinWrite<Args<'a> = ()>) -> PyResult<()> {
     let mut f = fs::File::create(p).into_pyerr_with_path(p)?;
     f.write_be(value).into_pyerr_with_path(p)?;
@@ -217,10 +224,17 @@ impl WiiIsoExtractor {
             let mut total_bytes = 0usize;
             partition
                 .fst
-                .callback_all_files::<std::io::Error, _>(&mut |_, node| {
+                .callback_all_files::<std::io::Error, _>(&mut |names, node| {
                     if let FstNode::File { length, .. } = node {
                         total_bytes += *length as usize;
                     }
+                    // names come from the image, they must not lead out of the files folder
+                    if let Some(name) = names.last().filter(|name| !is_plain_name(name)) {
+                        return Err(std::io::Error::new(
+                            std::io::ErrorKind::InvalidData,
+                            format!("invalid file name {name:?}"),
+                        ));
+                    }
 
                     Ok(())
                 })?;
-- 
2.43.0


From fa193aa3d7344a833cea491e715ec8618600ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:43 +0000
Subject: [PATCH 20/25] fix: refuse partitions that would start beyond the
 addressable 16 GiB

---
 src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index b597945..b88e03b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -118,6 +118,9 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
     {
         progress_cb(0);
         let part_data_off = self.current_data_offset;
+        if part_data_off >> 2 > u32::MAX as u64 {
+            return Err(invalid_data("no space left for another partition").into());
+        }
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
         // placeholder header
         let mut part_header = WiiPartitionHeader {
-- 
2.43.0


From f8c44ce3abd513edcbcfa73cfff93321e68d04b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:29 +0000
Subject: [PATCH 21/25] fix: extracting a section without files left a
 directory that cannot be rebuilt

---
 disc-riider-py/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/disc-riider-py/src/lib.rs b/disc-riider-py/src/lib.rs
index 9d3a6ba..d07e7c8 100644
--- a/disc-riider-py/src/lib.rs
+++ b/disc-riider-py/src/lib.rs
@@ -219,6 +219,8 @@ impl WiiIsoExtractor {
                 .partition_reader
                 .extract_system_files(&section_path, &mut self.iso)
                 .into_pyerr()?;
+            // rebuilding needs this folder, even when there are no files
+            create_dir_all(section_path.join("files"))?;
             let mut buffer = [0; 0x10_000];
             // count files
             let mut total_bytes = 0usize;
-- 
2.43.0


From 59c3aaa1833a77a9f90c5ac1b4bd574ed7ec9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 22/25] fix: copying an image with a file and a directory of
 the same name fails instead of panicking

---
 src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index b88e03b..dbc16f8 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -380,7 +380,8 @@ impl<'b, RS: Read + Seek> WiiPartitionDefinition<std::convert::Infallible> for C
                     .read_into_vec(*offset, *length as u64, &mut self.buffer)?;
                 Ok((Cow::Borrowed(&self.buffer), 0))
             }
-            _ => panic!("???"),
+            // a file and a directory can have the same name in a broken image
+            _ => Err(invalid_data("ambiguous file name").into()),
         }
     }
 }
-- 
2.43.0


From 75a685ba0483997272a937a8966d79457624b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:20 +0000
Subject: [PATCH 23/25] fix: seeking from the end of a very long window doesn't
 overflow

---
 src/window.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 8cfbbb0..5d1f999 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -115,11 +115,11 @@ where
         let position = self.source.seek(match pos {
             // relative to the window's own position, the source might be somewhere else
             SeekFrom::Current(off) => {
-                SeekFrom::Start((self.start + self.pos).saturating_add_signed(off))
+                SeekFrom::Start(self.start.saturating_add(self.pos.saturating_add_signed(off)))
             }
             SeekFrom::End(off) => {
                 if let Some(length) = self.length {
-                    SeekFrom::Start((self.start + length).saturating_add_signed(off))
+                    SeekFrom::Start(self.start.saturating_add(length.saturating_add_signed(off)))
                 } else {
                     return Err(io::ErrorKind::Unsupported.into());
                 }
-- 
2.43.0


From 777d74d12ba946ce7bcfe7bedaea2eac988b18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:31 +0000
Subject: [PATCH 24/25] fix: bound the memory for names of a file system table
 whose entries share long names

---
 src/fst.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/fst.rs b/src/fst.rs
index 58edf81..4ae2ead 100644
--- a/src/fst.rs
+++ b/src/fst.rs
@@ -4,7 +4,7 @@ use std::{
     iter::once,
 };
 
-use binrw::{binrw, BinReaderExt, BinWriterExt, NullString};
+use binrw::{binrw, io::TakeSeekExt, BinReaderExt, BinWriterExt, NullString};
 use encoding_rs::SHIFT_JIS;
 use thiserror::Error;
 
@@ -129,9 +129,14 @@ impl AsMut<FstNode> for FstNode {
     }
 }
 
-fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<String> {
+fn read_shiftjs<RS: Read + Seek>(
+    rs: &mut RS,
+    offset: u64,
+    name_bytes_left: &mut u64,
+) -> binrw::BinResult<String> {
     rs.seek(SeekFrom::Start(offset))?;
-    let null_str = rs.read_be::<NullString>()?;
+    let null_str = rs.take_seek(*name_bytes_left).read_be::<NullString>()?;
+    *name_bytes_left -= null_str.len() as u64 + 1;
     let (res, _, err) = SHIFT_JIS.decode(&null_str);
     if err {
         return Err(binrw::Error::Custom {
@@ -145,6 +150,10 @@ fn read_shiftjs<RS: Read + Seek>(rs: &mut RS, offset: u64) -> binrw::BinResult<S
 /// Deepest supported directory nesting, the table is processed recursively
 const MAX_DEPTH: usize = 512;
 
+/// Most bytes all names (with their terminators) can have together,
+/// several entries of a table can share the bytes of a long name
+const MAX_NAME_BYTES: u64 = 0x400_0000;
+
 /// Implements the file system table
 #[derive(Default, Clone)]
 pub struct Fst {
@@ -328,8 +337,15 @@ impl Fst {
         }
         let str_offset = rs.stream_position()?;
 
-        let fst_nodes =
-            Self::transform_fst_rec(rs, str_offset, &nodes, total_node_count + 1, &mut 1, 0)?;
+        let fst_nodes = Self::transform_fst_rec(
+            rs,
+            str_offset,
+            &nodes,
+            total_node_count + 1,
+            &mut 1,
+            0,
+            &mut { MAX_NAME_BYTES },
+        )?;
         Ok(Self { entries: fst_nodes })
     }
 
@@ -340,11 +356,12 @@ impl Fst {
         children_end: u32,
         cur_idx: &mut u32,
         depth: usize,
+        name_bytes_left: &mut u64,
     ) -> binrw::BinResult<Vec<FstNode>> {
         let mut nodes = Vec::new();
         while *cur_idx < children_end {
             let node = &raw_nodes[*cur_idx as usize];
-            let name = read_shiftjs(rs, str_offset + node.name_offset as u64)?;
+            let name = read_shiftjs(rs, str_offset + node.name_offset as u64, name_bytes_left)?;
             *cur_idx += 1;
             if node.is_directory {
                 if !(*cur_idx..=children_end).contains(&node.length) || depth >= MAX_DEPTH {
@@ -360,6 +377,7 @@ impl Fst {
                     node.length,
                     cur_idx,
                     depth + 1,
+                    name_bytes_left,
                 )?;
                 nodes.push(FstNode::Directory { name, files });
             } else {
@@ -559,6 +577,9 @@ fn rec_build_fst_bytes(
         }
         str_bytes.extend_from_slice(bytes.as_ref());
         str_bytes.push(0);
+        if str_bytes.len() as u64 > MAX_NAME_BYTES {
+            return Err(FstToBytesError::NamesTooLong);
+        }
         name_offsets.push(name_offset as u32);
         match node {
             FstNode::Directory { files, .. } => {
-- 
2.43.0


From ab2a12dfa6cd6b5eb1071dc1bf1f8253e513c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:36 +0000
Subject: [PATCH 25/25] fix: refuse partitions the partition table has no room
 for instead of overwriting the region

---
 src/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index dbc16f8..6b3fc81 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -121,6 +121,10 @@ impl<WS: Read + Write + Seek> WiiDiscBuilder<WS> {
         if part_data_off >> 2 > u32::MAX as u64 {
             return Err(invalid_data("no space left for another partition").into());
         }
+        // the table starts at 0x40020 and has to end before the region info
+        if self.partitions.len() >= (0x4E000 - 0x40020) / 8 {
+            return Err(invalid_data("no space left in the partition table").into());
+        }
         let mut partition_window = IOWindow::new(&mut self.file, part_data_off, None);
         // placeholder header
         let mut part_header = WiiPartitionHeader {
-- 
2.43.0

