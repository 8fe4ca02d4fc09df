From 9c315b0f605e709e65f511af45d9871e58c6a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 01/26] fix: reject DeviceSQL strings whose length fields are
 too small

The length of a short string includes its header byte and the length of a
long string includes its four byte header. Smaller values made the parser
underflow while computing the content length.
---
 src/pdb/string.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 321f3f7..c1d9a51 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -221,7 +221,9 @@ enum DeviceSQLStringImpl {
         // first byte (`header` here, `flags` in Long). If its set, the
         // string being parsed is a of the ShortASCII kind, if its not, its
         // the Long form.
-        #[br(temp, assert(header & 0b1 == 1))]
+        // The length encoded in the header includes the header byte itself,
+        // so it can never be zero.
+        #[br(temp, assert(header & 0b1 == 1 && header >> 1 != 0))]
         #[bw(calc = (((content.len() + 1) << 1) | 1) as u8)]
         header: u8,
 
@@ -235,7 +237,8 @@ enum DeviceSQLStringImpl {
         #[bw(calc = content.flags())]
         flags: u8,
 
-        #[br(temp)]
+        // The length includes the flags, the length itself and the padding.
+        #[br(temp, assert(length >= 4))]
         #[bw(calc = content.byte_count().unwrap() + 4)]
         length: u16,
 
-- 
2.43.0


From a17c968c901c0360e68764f895a469d5be952f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 02/26] fix: do not mistake UCS-2 strings for ISRCs
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Any UCS-2 string whose first byte happened to be 0x03 (e.g. "七" or "ă")
was parsed as ISRC: the content was cut at the first null byte and the rest
of the string was left unread. Only accept an ISRC if it spans the whole
string body and consists of ASCII characters.
---
 src/pdb/string.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index c1d9a51..cb7f881 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -17,6 +17,8 @@ use binrw::binrw;
 use std::{convert::TryInto, fmt, str::FromStr};
 use thiserror::Error;
 
+/// Size of an ISRC in its serialized form (magic byte, 12 characters, null byte).
+const ISRC_BODY_SIZE: u16 = 14;
 const MAX_SHORTSTR_SIZE: usize = ((u8::MAX >> 1) - 1) as usize;
 
 /// Error Objects occurring when dealing with [DeviceSQLString]'s
@@ -256,9 +258,15 @@ enum LongBody {
     // instead of the stricter ISRC
 
     // ISRC strings are a bug/flaw in pioneers implementation, this is technically
-    // a semi-dirty workaround
-    #[br(pre_assert(flags == 0x90))]
-    Isrc(#[brw(magic = 0x3u8)] binrw::NullString),
+    // a semi-dirty workaround. The magic byte and the terminating null byte
+    // need to enclose exactly `len` bytes, otherwise this is a UCS2LE string
+    // that just happens to start with the magic byte. ISRCs have 12 characters.
+    #[br(pre_assert(flags == 0x90 && (len == ISRC_BODY_SIZE || len % 2 == 1)))]
+    Isrc(
+        #[brw(magic = 0x3u8)]
+        #[br(assert(self_0.len() + 2 == usize::from(len) && self_0.is_ascii()))]
+        binrw::NullString,
+    ),
     #[br(pre_assert(flags == 0x40))]
     Ascii(#[br(count = usize::from(len))] Vec<u8>),
     #[br(pre_assert(flags == 0x90))]
-- 
2.43.0


From 5a414a790a43905d55f4c6d18db27088b9fea608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 03/26] fix: do not panic when displaying a DeviceSQL string
 with invalid bytes

Short and long ASCII strings read from a file may contain arbitrary bytes.
Replace invalid sequences like it is already done for UCS-2 strings.
---
 src/pdb/string.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index cb7f881..525d7bf 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -152,11 +152,9 @@ impl fmt::Display for DeviceSQLString {
             | DeviceSQLStringImpl::Long {
                 content: LongBody::Ascii(content),
                 ..
-            } => {
-                f.write_str(std::str::from_utf8(content).expect(
-                    "internal invariant violated: ASCII/UTF-8 content expected to be valid",
-                ))
-            }
+                // NOTE: The content may be anything when it has been read from a file, so invalid
+                // sequences are replaced here, too (see below).
+            } => f.write_str(&String::from_utf8_lossy(content)),
             DeviceSQLStringImpl::Long {
                 content: LongBody::Isrc(null_str),
             } => {
-- 
2.43.0


From 27cf60a1f1eca1276d3a687ff810b8b7a5dbc34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 04/26] fix: reject UCS-2 strings that do not fit the DeviceSQL
 length field

A mostly ASCII string of 32767 bytes with a single non-ASCII character needs
65532 bytes as UCS-2, which overflowed the 16-bit length on writing.
---
 src/pdb/string.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 525d7bf..848e412 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -17,6 +17,8 @@ use binrw::binrw;
 use std::{convert::TryInto, fmt, str::FromStr};
 use thiserror::Error;
 
+/// The length field of long strings includes four bytes of header.
+const MAX_LONG_BODY_SIZE: usize = u16::MAX as usize - 4;
 /// Size of an ISRC in its serialized form (magic byte, 12 characters, null byte).
 const ISRC_BODY_SIZE: u16 = 14;
 const MAX_SHORTSTR_SIZE: usize = ((u8::MAX >> 1) - 1) as usize;
@@ -77,10 +79,14 @@ impl DeviceSQLString {
                     content: LongBody::Ascii(string.as_bytes().to_owned()),
                 }))
             } else {
+                // note: The DeviceSQL database may only support UCS-2 so
+                // we might need to do some additional filtering here
+                let content: Vec<u16> = string.encode_utf16().collect();
+                if content.len() * 2 > MAX_LONG_BODY_SIZE {
+                    return Err(StringError::TooLong);
+                }
                 Ok(Self(DeviceSQLStringImpl::Long {
-                    // note: The DeviceSQL database may only support UCS-2 so
-                    // we might need to do some additional filtering here
-                    content: LongBody::Ucs2le(string.encode_utf16().collect()),
+                    content: LongBody::Ucs2le(content),
                 }))
             }
         } else {
-- 
2.43.0


From acca1d92db44741a6ed58c6878e8adb7cb5c9de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:57 +0000
Subject: [PATCH 05/26] hook: expose internals to external verification under
 cfg(rekordcrate_verif)

---
 src/lib.rs     | 10 ++++++++++
 src/main.rs    | 12 ++++++++++++
 src/pdb/mod.rs | 26 ++++++++++++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d050d34..8d02586 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,3 +34,13 @@ pub(crate) mod xor;
 pub use crate::device::DeviceExportLoader;
 pub use crate::util::RekordcrateError as Error;
 pub use crate::util::RekordcrateResult as Result;
+
+/// Access to crate internals for external verification (empty unless enabled).
+#[doc(hidden)]
+#[allow(unexpected_cfgs)]
+pub mod verif_hooks {
+    #[cfg(rekordcrate_verif)]
+    pub use crate::pdb::verif_hooks::*;
+    #[cfg(rekordcrate_verif)]
+    pub use crate::xor::XorStream;
+}
diff --git a/src/main.rs b/src/main.rs
index 818a014..75ed256 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -439,3 +439,15 @@ fn main() -> rekordcrate::Result<()> {
         Commands::DumpXML { path } => dump_xml(path),
     }
 }
+
+/// Access to private functions for external verification (empty unless enabled).
+#[allow(unexpected_cfgs)]
+pub(crate) mod verif_hooks {
+    #[cfg(rekordcrate_verif)]
+    pub(crate) fn export_playlists(
+        path: &std::path::Path,
+        output_dir: &std::path::Path,
+    ) -> rekordcrate::Result<()> {
+        super::export_playlists(path, output_dir)
+    }
+}
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index f2786b7..c0ca303 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -2100,3 +2100,29 @@ impl PageHeapObject for Row {
         }
     }
 }
+
+/// Access to private items for external verification (empty unless enabled).
+#[allow(unexpected_cfgs)]
+pub(crate) mod verif_hooks {
+    /// Heap bytes computed for a row.
+    #[cfg(rekordcrate_verif)]
+    #[must_use]
+    pub fn row_heap_bytes(row: &super::Row) -> u16 {
+        super::PageHeapObject::heap_bytes_required(row, ())
+    }
+    /// Heap bytes computed for a string.
+    #[cfg(rekordcrate_verif)]
+    #[must_use]
+    pub fn string_heap_bytes(string: &super::DeviceSQLString) -> u16 {
+        super::PageHeapObject::heap_bytes_required(string, ())
+    }
+    /// Heap bytes computed for a string behind an offset table.
+    #[cfg(rekordcrate_verif)]
+    #[must_use]
+    pub fn name_heap_bytes(
+        name: &super::OffsetArrayContainer<super::TrailingName, 1>,
+        size: super::OffsetSize,
+    ) -> u16 {
+        super::PageHeapObject::heap_bytes_required(name, size)
+    }
+}
-- 
2.43.0


From 5f6af1c51edd79d7cf23363afff1c0c4a1fe6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:53 +0000
Subject: [PATCH 06/26] fix: report no room instead of overflowing when
 allocating a row

---
 src/pdb/bitfields.rs |  6 ++++++
 src/pdb/mod.rs       | 13 +++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pdb/bitfields.rs b/src/pdb/bitfields.rs
index 7b93471..f5e75eb 100644
--- a/src/pdb/bitfields.rs
+++ b/src/pdb/bitfields.rs
@@ -59,6 +59,12 @@ impl PackedRowCounts {
         Some((rgi, rsi))
     }
 
+    /// Check whether no more rows can be counted, i.e. one of the counters
+    /// (13 bits and 11 bits) has reached its maximum value.
+    pub(crate) fn is_full(&self) -> bool {
+        self.num_rows() >= (1 << 13) - 1 || self.num_rows_valid() >= (1 << 11) - 1
+    }
+
     /// Increment the number of rows e.g. when we allocate a row in the page.
     pub(crate) fn increment_num_rows(&mut self) {
         self.set_num_rows(self.num_rows() + 1);
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index c0ca303..869a10d 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -575,18 +575,23 @@ impl Page {
             PageContent::Index(_) => None,
             PageContent::Data(ref mut dpc) => {
                 // Always align rows to 4 bytes.
-                let bytes = bytes.next_multiple_of(4);
+                let bytes = bytes.checked_next_multiple_of(4)?;
 
                 // Assume the upper bound of required space.
-                let required_bytes = bytes + RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE;
+                let required_bytes =
+                    bytes.checked_add(RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE)?;
                 if self.header.free_size < required_bytes {
                     return None;
                 }
 
+                let row_counts = &mut self.header.packed_row_counts;
+                if row_counts.is_full() {
+                    return None;
+                }
+
                 let offset = self.header.used_size;
-                self.header.used_size += bytes;
+                self.header.used_size = offset.checked_add(bytes)?;
                 self.header.free_size -= bytes;
-                let row_counts = &mut self.header.packed_row_counts;
                 row_counts.increment_num_rows();
                 let (row_group_index, row_subindex) = row_counts.last_row_index().unwrap();
 
-- 
2.43.0


From a7e012672f47ca43aff3a770f5263f4d44c977df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 07/26] fix: reject index pages with more entries than fit and
 print entries with any page number

---
 src/pdb/mod.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 869a10d..b5d22da 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -53,6 +53,9 @@ pub enum PdbError {
     /// Invalid flags were passed when creating an `IndexEntry`.
     #[error("Invalid index flags (expected max 3 bits): {0:#b}")]
     InvalidIndexFlags(u8),
+    /// An index page has more entries than fit into a page.
+    #[error("Too many entries for an index page: {0}")]
+    TooManyIndexEntries(u16),
 }
 
 /// The type of the database were looking at.
@@ -306,7 +309,7 @@ impl fmt::Debug for IndexEntry {
         } else {
             f.debug_struct("IndexEntry")
                 .field("is_empty", &self.is_empty())
-                .field("page_index", &self.page_index().unwrap())
+                .field("page_index", &PageIndex(self.0 >> 3))
                 .field("index_flags", &self.index_flags())
                 .finish()
         }
@@ -367,25 +370,29 @@ pub struct IndexPageContent {
     // Write empty entries to pad out the rest of the page, except the last
     // 20 bytes which are zeros instead.
     #[br(temp)]
-    #[bw(calc = EmptyIndexEntries(
-        Self::total_entries(page_size) - usize::from(header.num_entries)
-    ))]
+    #[bw(try_calc = Self::num_empty_entries(page_size, header.num_entries).map(EmptyIndexEntries))]
     #[bw(pad_after = 20)]
     _empty_entries: EmptyIndexEntries,
 }
 
 impl IndexPageContent {
-    fn total_entries(page_size: u32) -> usize {
+    fn total_entries(page_size: u32) -> Option<u32> {
         // The last 20 bytes in an index page are zeros.
-        let entries_space = page_size - PageHeader::BINARY_SIZE - IndexPageHeader::BINARY_SIZE - 20;
-        (entries_space / IndexEntry::BINARY_SIZE)
-            .try_into()
-            .unwrap()
+        let entries_space =
+            page_size.checked_sub(PageHeader::BINARY_SIZE + IndexPageHeader::BINARY_SIZE + 20)?;
+        Some(entries_space / IndexEntry::BINARY_SIZE)
+    }
+
+    /// Number of unused entries in a page with the given number of entries.
+    fn num_empty_entries(page_size: u32, num_entries: u16) -> Result<u32, PdbError> {
+        Self::total_entries(page_size)
+            .and_then(|total| total.checked_sub(num_entries.into()))
+            .ok_or(PdbError::TooManyIndexEntries(num_entries))
     }
 }
 
 /// Helper struct to write empty index entries while reading nothing.
-struct EmptyIndexEntries(usize);
+struct EmptyIndexEntries(u32);
 
 impl BinRead for EmptyIndexEntries {
     type Args<'a> = ();
@@ -435,7 +442,14 @@ pub enum PageContent {
     ),
     /// The page is an index page.
     #[br(pre_assert(header.page_flags.is_index_page()))]
-    Index(#[bw(args { page_size })] IndexPageContent),
+    Index(
+        #[br(assert(
+            IndexPageContent::num_empty_entries(page_size, self_0.header.num_entries).is_ok(),
+            "index page has too many entries: {}", self_0.header.num_entries
+        ))]
+        #[bw(args { page_size })]
+        IndexPageContent,
+    ),
 }
 
 impl PageContent {
-- 
2.43.0


From 4d33a43592aee749730d9c2a17a189eac66bfab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 08/26] fix: return errors for page number 0 and for pages of a
 foreign type in a table

---
 src/pdb/io.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index d87d81b..529e45a 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -102,10 +102,9 @@ impl<R: Read + Seek> Database<R> {
 
     /// Loads a page into memory.
     pub fn load_page(&mut self, index: PageIndex) -> RekordcrateResult<&mut Page> {
-        let page_entry = self
-            .content
-            .pages
-            .get_mut(index.0 as usize - 1)
+        let page_entry = (index.0 as usize)
+            .checked_sub(1)
+            .and_then(|i| self.content.pages.get_mut(i))
             .ok_or_else(|| RekordcrateError::PageNotPresent(index))?;
         if let LazyPage::NotLoaded = page_entry {
             let page = read_page(
@@ -179,9 +178,12 @@ impl<R: Read + Seek> Database<R> {
                     .into_fallible()
                     .map_err(|_: core::convert::Infallible| unreachable!()))
             })
-            // The parsed row type is determined from the page type, so if we find an unexpected
-            // variant then there is a code bug (not simply a corrupt DB).
-            .map(|row| Ok(row.as_variant_mut().expect("unexpected row type"))))
+            // The parsed row type is determined from the type stored in the page, which may differ
+            // from that of the table in a corrupt DB.
+            .map(|row| {
+                row.as_variant_mut()
+                    .ok_or(RekordcrateError::IntegrityError("unexpected row type"))
+            }))
     }
 
     /// Returns a reference to the PDB header.
-- 
2.43.0


From 9ae06d6fae0339bcb7dc6a7ada29bf546ec0070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 09/26] fix: leave the rest of the header page untouched when
 flushing

---
 src/pdb/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 529e45a..54fd317 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -32,11 +32,12 @@ use std::io::{Read, Seek, Write};
 struct LazyDatabase {
     /// The PDB header.
     #[br(args(db_type))]
-    #[bw(pad_size_to = header.page_size as usize)]
     header: Header,
     /// The pages of the database, initially not loaded.
     #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
-    #[bw(args(header.page_size))]
+    // Seek to the first page instead of padding the header, so that the rest of the header page
+    // is left untouched.
+    #[bw(seek_before = SeekFrom::Start(header.page_size.into()), args(header.page_size))]
     pages: Vec<LazyPage>,
 }
 
-- 
2.43.0


From cc4767db3a367befe9b5cba0c89ab36565c1c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 10/26] fix: keep the XOR key in step with partial reads and
 writes

---
 src/xor.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/xor.rs b/src/xor.rs
index aff09f5..44578ee 100644
--- a/src/xor.rs
+++ b/src/xor.rs
@@ -39,7 +39,8 @@ impl<R: Read> Read for XorStream<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
         let bytes_read = self.stream.read(buf)?;
 
-        for byte in buf {
+        // Only touch the bytes that were actually read, the key must not run ahead of the stream.
+        for byte in buf.iter_mut().take(bytes_read) {
             let key_byte = self.key.next().unwrap_or(0);
             *byte ^= key_byte;
         }
@@ -52,13 +53,18 @@ impl<W: Write> Write for XorStream<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
         let encrypted_buffer: Vec<u8> = buf
             .iter()
-            .map(|x| {
-                let key_byte = self.key.next().unwrap_or(0);
-                x ^ key_byte
-            })
+            .zip(self.key.clone())
+            .map(|(x, key_byte)| x ^ key_byte)
             .collect();
 
-        self.stream.write(&encrypted_buffer)
+        // Only advance the key by the bytes that were actually written, the remaining ones are going
+        // to be passed in again.
+        let bytes_written = self.stream.write(&encrypted_buffer)?;
+        for _ in 0..bytes_written {
+            self.key.next();
+        }
+
+        Ok(bytes_written)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 6881655a4120c4c594dbc1df5fd4fd3bbb2800ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 11/26] fix: reject analysis section headers with contradicting
 sizes instead of overflowing

---
 src/anlz.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 2b25ba2..4af61e9 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -118,8 +118,10 @@ pub struct Header {
     /// Kind of content in this item.
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
+    #[br(assert(size >= 12, "header size {size} is too small"))]
     pub size: u32,
     /// Length of the section (including the header).
+    #[br(assert(total_size >= size, "total size {total_size} is smaller than the header size {size}"))]
     pub total_size: u32,
 }
 
@@ -898,7 +900,7 @@ pub struct WaveformDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries)== header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -926,7 +928,7 @@ pub struct WaveformColorPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -950,7 +952,7 @@ pub struct WaveformColorDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -977,7 +979,7 @@ pub struct Waveform3BandPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Waveform preview column data.
     #[br(count = len_entries)]
@@ -999,7 +1001,7 @@ pub struct Waveform3BandDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -1077,7 +1079,7 @@ impl SongStructureData {
     /// Returns an iterator over the key bytes (RB6+).
     fn get_key(len_entries: u16) -> impl Iterator<Item = u8> {
         Self::KEY_DATA.into_iter().map(move |x: u8| -> u8 {
-            let value = u16::from(x) + len_entries;
+            let value = u16::from(x).wrapping_add(len_entries);
             (value % 256) as u8
         })
     }
-- 
2.43.0


From 7c0381cb74c868c4cff2b2723eaa29355f065d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 12/26] fix: reject analysis sections that do not end where
 their header says

---
 src/anlz.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/anlz.rs b/src/anlz.rs
index 4af61e9..046414e 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -1147,11 +1147,20 @@ pub struct Unknown {
 /// ANLZ Section.
 #[binrw]
 #[derive(Debug, PartialEq, Eq)]
+#[br(stream = reader)]
 pub struct Section {
+    /// Position where this section starts.
+    #[br(temp, try_calc = reader.stream_position())]
+    #[bw(ignore)]
+    start_position: u64,
     /// The header.
     pub header: Header,
     /// The section content.
     #[br(args(header.clone()))]
+    #[br(assert(
+        reader.stream_position()? == start_position + u64::from(header.total_size),
+        "section does not end where its header says"
+    ))]
     pub content: Content,
 }
 
@@ -1189,6 +1198,14 @@ impl ANLZ {
             sections.push(section);
         }
 
+        let position = reader.stream_position()?;
+        if position != final_position {
+            return Err(binrw::Error::AssertFail {
+                pos: position,
+                message: "last section exceeds the file size".to_owned(),
+            });
+        }
+
         Ok(sections)
     }
 }
-- 
2.43.0


From 96355e67cdfd2e953e0c35fb880e2214a6cd9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 13/26] fix: reject length-prefixed wide strings without
 terminator and keep all others unchanged

---
 src/anlz.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 046414e..511796b 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -294,22 +294,29 @@ impl BinRead for LenPrefixedWideString {
         _args: Self::Args<'_>,
     ) -> BinResult<Self> {
         let len: u32 = u32::read_options(reader, endian, ())?;
-        let len = len as usize;
         if len == 0 {
             return Ok(Self(String::new()));
         }
-        let mut bytes = vec![0u8; len];
-        reader.read_exact(&mut bytes)?;
-        let code_units: Vec<u16> = bytes
+        // The length is not trustworthy, so do not allocate more memory than there is data.
+        let mut bytes = Vec::new();
+        reader.take(u64::from(len)).read_to_end(&mut bytes)?;
+        if bytes.len() as u64 != u64::from(len) {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
+        let mut code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
             .collect();
-        let s = String::from_utf16(&code_units)
-            .map(|s| s.trim_end_matches('\0').to_string())
-            .map_err(|e| binrw::Error::Custom {
-                pos: reader.stream_position().unwrap_or(0),
-                err: Box::new(e),
-            })?;
+        if len % 2 != 0 || code_units.pop() != Some(0) {
+            return Err(binrw::Error::AssertFail {
+                pos: reader.stream_position()?,
+                message: format!("string of {len} bytes is not terminated by a wide NUL"),
+            });
+        }
+        let s = String::from_utf16(&code_units).map_err(|e| binrw::Error::Custom {
+            pos: reader.stream_position().unwrap_or(0),
+            err: Box::new(e),
+        })?;
         Ok(Self(s))
     }
 }
-- 
2.43.0


From 56a54659a8359e8dd66e6a14976edf71e7243399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 14/26] fix: reject cue entries that do not fit their declared
 size

---
 src/anlz.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 511796b..f70e02d 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -176,6 +176,7 @@ pub enum CueType {
 #[brw(big)]
 pub struct Cue {
     /// Cue entry header.
+    #[br(assert(header.total_size == 56, "cue entry has the wrong size"))]
     pub header: Header,
     /// Hot cue number.
     /// | Value | Hot cue        |
@@ -348,7 +349,12 @@ impl BinWrite for LenPrefixedWideString {
 #[binrw]
 #[derive(Debug, PartialEq, Eq)]
 #[brw(big)]
+#[br(stream = reader)]
 pub struct ExtendedCue {
+    /// Position where this entry starts.
+    #[br(temp, try_calc = reader.stream_position())]
+    #[bw(ignore)]
+    start_position: u64,
     /// Cue entry header.
     pub header: Header,
     /// Hot cue number.
@@ -471,11 +477,16 @@ pub struct ExtendedCue {
     unknown9: u32,
     /// Unknown field.
     unknown10: u32,
+    /// Number of bytes of this entry that were read so far.
+    #[br(temp, calc = reader.stream_position()? - start_position)]
+    #[br(assert(bytes_read <= header.total_size.into(), "cue entry exceeds its size"))]
+    #[bw(ignore)]
+    bytes_read: u64,
     /// Trailing unknown bytes after `unknown10` to the end of the entry.
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(count = header.total_size.saturating_sub(68 + comment.byte_len()) as usize)]
+    #[br(count = u64::from(header.total_size) - bytes_read)]
     pub trailing: Vec<u8>,
 }
 
-- 
2.43.0


From a2f626dbf707ff8521fa6c7288994fbb3eb6e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 15/26] fix: reject data pages smaller than their headers
 instead of underflowing

---
 src/pdb/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index b5d22da..e545db5 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -668,7 +668,9 @@ impl DataPageHeader {
 #[binrw]
 #[derive(Debug, PartialEq, Eq, Clone)]
 #[br(little, import { page_size: u32, page_header: &PageHeader })]
+#[br(pre_assert(page_size >= Self::MIN_PAGE_SIZE, "page size {page_size} is too small for a data page"))]
 #[bw(little, import { page_size: u32 })]
+#[bw(assert(page_size >= Self::MIN_PAGE_SIZE, "page size {page_size} is too small for a data page"))]
 pub struct DataPageContent {
     /// The header of the data page.
     pub header: DataPageHeader,
@@ -702,8 +704,11 @@ pub struct DataPageContent {
 }
 
 impl DataPageContent {
+    /// Smallest size that leaves room for the headers.
+    const MIN_PAGE_SIZE: u32 = PageHeader::BINARY_SIZE + DataPageHeader::BINARY_SIZE;
+
     fn page_heap_size(page_size: u32) -> u32 {
-        page_size - PageHeader::BINARY_SIZE - DataPageHeader::BINARY_SIZE
+        page_size - Self::MIN_PAGE_SIZE
     }
 }
 
-- 
2.43.0


From 0dfa8142859a648890bfbd4add2b4609b044facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 16/26] fix: do not allocate page entries beyond the end of the
 database file

---
 src/pdb/io.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 54fd317..a1caed7 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -34,7 +34,7 @@ struct LazyDatabase {
     #[br(args(db_type))]
     header: Header,
     /// The pages of the database, initially not loaded.
-    #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
+    #[br(parse_with = unloaded_pages, args(&header))]
     // Seek to the first page instead of padding the header, so that the rest of the header page
     // is left untouched.
     #[bw(seek_before = SeekFrom::Start(header.page_size.into()), args(header.page_size))]
@@ -47,6 +47,22 @@ enum LazyPage {
     Loaded(Page),
 }
 
+/// Creates an entry for each page that the header announces and that lies (at least partially)
+/// within the stream.
+#[binrw::parser(reader)]
+fn unloaded_pages(header: &Header) -> BinResult<Vec<LazyPage>> {
+    let position = reader.stream_position()?;
+    let length = reader.seek(SeekFrom::End(0))?;
+    reader.seek(SeekFrom::Start(position))?;
+
+    let announced = u64::from(header.next_unused_page.0).saturating_sub(1);
+    let available = match header.page_size {
+        0 => 0,
+        page_size => length.div_ceil(page_size.into()).saturating_sub(1),
+    };
+    Ok(vec![LazyPage::NotLoaded; announced.min(available) as usize])
+}
+
 impl BinWrite for LazyPage {
     type Args<'a> = (u32,);
 
-- 
2.43.0


From 56b08daeac3723efb93cc3291b51e3db2c98a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 17/26] fix: build the playlist tree of a device even if
 playlist nodes form a cycle

---
 src/device.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index f7250fa..439131e 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -534,32 +534,33 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
     })?;
 
     fn get_child_nodes(
-        playlists: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        playlists: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         id: PlaylistTreeNodeId,
-    ) -> impl Iterator<Item = crate::Result<PlaylistNode>> + '_ {
+    ) -> crate::Result<Vec<PlaylistNode>> {
+        // Take the children out of the map, so that nodes which form a cycle are not visited again.
         playlists
-            .get(&id)
+            .remove(&id)
+            .unwrap_or_default()
             .into_iter()
-            .flat_map(|nodes| nodes.iter())
             .map(|node| -> crate::Result<PlaylistNode> {
                 let child_node = if node.is_folder() {
                     let folder = PlaylistFolder {
                         id: node.id,
-                        name: node.name.clone().into_string()?,
-                        children: get_child_nodes(playlists, node.id)
-                            .collect::<crate::Result<Vec<PlaylistNode>>>()?,
+                        name: node.name.into_string()?,
+                        children: get_child_nodes(playlists, node.id)?,
                     };
                     PlaylistNode::Folder(folder)
                 } else {
                     let playlist = Playlist {
                         id: node.id,
-                        name: node.name.clone().into_string()?,
+                        name: node.name.into_string()?,
                     };
                     PlaylistNode::Playlist(playlist)
                 };
                 Ok(child_node)
             })
+            .collect()
     }
 
-    get_child_nodes(&playlists, PlaylistTreeNodeId(0)).collect::<crate::Result<Vec<PlaylistNode>>>()
+    get_child_nodes(&mut playlists, PlaylistTreeNodeId(0))
 }
-- 
2.43.0


From 61862498754c0b42efa8f496b11cda6515ca6379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 18/26] fix: list playlists even if playlist nodes form a cycle

---
 src/main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 75ed256..aafe74e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -148,16 +148,17 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         println!("{} - {}", artist.offsets.name, track.offsets.title)
     }
     fn print_children_of(
-        tree: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        tree: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>,
         artists: &HashMap<ArtistId, Artist>,
         tracks: &HashMap<TrackId, Track>,
         id: PlaylistTreeNodeId,
         level: usize,
     ) {
-        tree.get(&id)
+        // Take the children out of the map, so that nodes which form a cycle are not visited again.
+        tree.remove(&id)
+            .unwrap_or_default()
             .iter()
-            .flat_map(|nodes| nodes.iter())
             .for_each(|node| {
                 let indentation = "    ".repeat(level);
                 println!(
@@ -177,7 +178,7 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     }
 
     print_children_of(
-        &playlist_tree,
+        &mut playlist_tree,
         &playlist_entries,
         &artists,
         &tracks,
-- 
2.43.0


From 2ebb77158df237fba609f6faa3912c2bd3ca4d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 19/26] fix: keep exported playlists inside the output
 directory

---
 src/main.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index aafe74e..e77f418 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -17,7 +17,7 @@ use rekordcrate::xml::Document;
 use rekordcrate::{anlz::ANLZ, util::TableIndex};
 use std::collections::BTreeMap;
 use std::fs::File;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 #[derive(Parser)]
 #[command(author, version, about)]
@@ -217,6 +217,16 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         .map(|track| Ok((track.id, track.offsets.file_path.clone().into_string()?)))
         .collect::<HashMap<_, _>>()?;
 
+    /// Turns the name of a playlist or folder into the name of a single file or directory, so that
+    /// the path it is appended to cannot be left.
+    fn file_name(name: &str) -> String {
+        let name = name.replace(std::path::is_separator, "_");
+        match Path::new(&name).components().next() {
+            None | Some(Component::Normal(_)) => name,
+            _ => name.replace(['.', ':'], "_"),
+        }
+    }
+
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
@@ -226,7 +236,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
             PlaylistNode::Folder(folder) => folder
                 .children
                 .into_iter()
-                .try_for_each(|child| walk_tree(child, &path.join(&folder.name), visit)),
+                .try_for_each(|child| walk_tree(child, &path.join(file_name(&folder.name)), visit)),
             PlaylistNode::Playlist(playlist) => visit(playlist, path),
         }
     }
@@ -234,7 +244,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     playlists.into_iter().try_for_each(|node| {
         walk_tree(node, output_dir, &|playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(format!("{}.m3u", playlist.name));
+            let playlist_path = path.join(file_name(&format!("{}.m3u", playlist.name)));
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From c7ad64f651ce8e09f3bfcdc325efe26ccc06ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 20/26] fix: keep absent attributes and empty lists of XML
 documents

Absent attributes of a track were written as empty ones, which came back as empty texts or
could not be parsed as numbers; empty collections, folders and playlists were written but
could not be parsed.
---
 src/xml.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 0f5d07d..f544394 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -69,6 +69,7 @@ pub struct Collection {
 
     /// Track entries of collection.
     #[serde(rename = "TRACK")]
+    #[serde(default)]
     pub track: Vec<Track>,
 }
 
@@ -82,57 +83,70 @@ pub struct Track {
 
     /// Name of track
     #[serde(rename = "@Name")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub name: Option<String>,
 
     /// Name of artist
     #[serde(rename = "@Artist")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub artist: Option<String>,
 
     /// Name of composer (or producer)
     #[serde(rename = "@Composer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub composer: Option<String>,
 
     /// Name of Album
     #[serde(rename = "@Album")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub album: Option<String>,
 
     /// Name of goupe
     #[serde(rename = "@Grouping")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub grouping: Option<String>,
 
     /// Name of genre
     #[serde(rename = "@Genre")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub genre: Option<String>,
 
     /// Type of audio file
     #[serde(rename = "@Kind")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub kind: Option<String>,
 
     /// Size of audio file
     /// Unit : Octet
     #[serde(rename = "@Size")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub size: Option<i64>,
 
     /// Duration of track
     /// Unit : Second (without decimal numbers)
     #[serde(rename = "@TotalTime")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub totaltime: Option<f64>,
 
     /// Order number of the disc of the album
     #[serde(rename = "@DiscNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub discnumber: Option<i32>,
 
     /// Order number of the track in the album
     #[serde(rename = "@TrackNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tracknumber: Option<i32>,
 
     /// Year of release
     #[serde(rename = "@Year")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub year: Option<i32>,
 
     /// Value of average BPM
     /// Unit : Second (with decimal numbers)
     #[serde(rename = "@AverageBpm")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub averagebpm: Option<f64>,
 
     /// Date of last modification
@@ -150,19 +164,23 @@ pub struct Track {
     /// Encoding bit rate
     /// Unit : Kbps
     #[serde(rename = "@BitRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub bitrate: Option<i32>,
 
     /// Frequency of sampling
     /// Unit : Hertz
     #[serde(rename = "@SampleRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub samplerate: Option<f64>,
 
     /// Comments
     #[serde(rename = "@Comments")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub comments: Option<String>,
 
     /// Play count of the track
     #[serde(rename = "@PlayCount")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub playcount: Option<i32>,
 
     /// Date of last playing
@@ -174,6 +192,7 @@ pub struct Track {
     /// Rating of the track
     /// 0 star = "@0", 1 star = "51", 2 stars = "102", 3 stars = "153", 4 stars = "204", 5 stars = "255"
     #[serde(rename = "@Rating")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub rating: Option<i32>, // TODO: Use StarRating type here
 
     /// Location of the file
@@ -183,18 +202,22 @@ pub struct Track {
 
     /// Name of remixer
     #[serde(rename = "@Remixer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub remixer: Option<String>,
 
     /// Tonality (Kind of musical key)
     #[serde(rename = "@Tonality")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tonality: Option<String>,
 
     /// Name of record label
     #[serde(rename = "@Label")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub label: Option<String>,
 
     /// Name of mix
     #[serde(rename = "@Mix")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub mix: Option<String>,
 
     /// Colour for track grouping
@@ -364,7 +387,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     // Create anonymous type
                                     #[derive(serde::Deserialize)]
                                     struct Nodes {
-                                        #[serde(rename = "NODE")]
+                                        #[serde(rename = "NODE", default)]
                                         content: Vec<PlaylistGenericNode>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -383,7 +406,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     // Create anonymous type
                                     #[derive(serde::Deserialize)]
                                     struct Tracks {
-                                        #[serde(rename = "TRACK")]
+                                        #[serde(rename = "TRACK", default)]
                                         content: Vec<PlaylistTrack>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -441,6 +464,7 @@ pub struct PlaylistFolderNode {
     // can just take the number of elements in the `tracks` vector instead.
     /// Nodes
     #[serde(rename = "NODE")]
+    #[serde(default)]
     pub nodes: Vec<PlaylistGenericNode>,
 }
 
-- 
2.43.0


From d02010701635cfa791c71b94329ca0be6a432086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:06 +0000
Subject: [PATCH 21/26] hook: expose the command line's functions to external
 verification

---
 src/main.rs | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index e77f418..0778c00 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -461,4 +461,49 @@ pub(crate) mod verif_hooks {
     ) -> rekordcrate::Result<()> {
         super::export_playlists(path, output_dir)
     }
+    #[cfg(rekordcrate_verif)]
+    pub(crate) fn list_playlists(path: &std::path::Path) -> rekordcrate::Result<()> {
+        super::list_playlists(path)
+    }
+    #[cfg(rekordcrate_verif)]
+    pub(crate) fn list_settings(path: &std::path::Path) -> rekordcrate::Result<()> {
+        super::list_settings(path)
+    }
+    #[cfg(rekordcrate_verif)]
+    pub(crate) fn dump_anlz(path: &std::path::Path) -> rekordcrate::Result<()> {
+        super::dump_anlz(path)
+    }
+    #[cfg(rekordcrate_verif)]
+    pub(crate) fn dump_pdb(
+        path: &std::path::Path,
+        typ: super::DatabaseType,
+        parse_unknown_tables: bool,
+    ) -> rekordcrate::Result<()> {
+        super::dump_pdb(path, typ, parse_unknown_tables)
+    }
+    #[cfg(rekordcrate_verif)]
+    pub(crate) fn dump_setting(
+        path: &std::path::Path,
+        setting_type: super::SettingType,
+    ) -> rekordcrate::Result<()> {
+        super::dump_setting(path, setting_type)
+    }
+    #[cfg(rekordcrate_verif)]
+    pub(crate) fn dump_xml(path: &std::path::Path) -> rekordcrate::Result<()> {
+        super::dump_xml(path)
+    }
+    #[cfg(rekordcrate_verif)]
+    pub(crate) fn guess_db_type(
+        path: &std::path::Path,
+        db_type: Option<&str>,
+    ) -> Option<super::DatabaseType> {
+        super::guess_db_type(path, db_type)
+    }
+    #[cfg(rekordcrate_verif)]
+    pub(crate) fn guess_setting_type(
+        path: &std::path::Path,
+        setting_type: Option<&str>,
+    ) -> Option<super::SettingType> {
+        super::guess_setting_type(path, setting_type)
+    }
 }
-- 
2.43.0


From 398114bbc5c29364916f8f21acda817da16e0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 22/26] fix: report malformed XML documents as errors

dump-xml panicked on every document quick_xml refuses. It returns the error
as the other dump commands do.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0778c00..f02d1ce 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -343,7 +343,7 @@ fn dump_setting(path: &Path, setting_type: SettingType) -> rekordcrate::Result<(
 fn dump_xml(path: &Path) -> rekordcrate::Result<()> {
     let file = File::open(path)?;
     let reader = std::io::BufReader::new(file);
-    let document: Document = quick_xml::de::from_reader(reader).expect("failed to deserialize XML");
+    let document: Document = quick_xml::de::from_reader(reader).map_err(std::io::Error::other)?;
     println!("{:#?}", document);
 
     Ok(())
-- 
2.43.0


From f2facbd298b415230ef89b13f110a06677a67be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 23/26] fix: flush the stream when a database is flushed

flush() and close() reported success although a buffering stream could still
fail to store the data.
---
 src/pdb/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index a1caed7..2a5c295 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -233,6 +233,7 @@ impl<RW: Read + Write + Seek> Database<RW> {
         let endian = Endian::Little;
         self.io.seek(SeekFrom::Start(0))?;
         self.content.write_options(&mut self.io, endian, ())?;
+        self.io.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 87e7b386882e8af039808202f11efcf3779fe702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 24/26] fix: do not take I/O errors for unknown values

Enumerations with a catch-all variant took a read that failed once for a
mismatch, so that a known page type, section kind, file type, menu visibility
or ISRC was read as an unknown or different one.
---
 src/anlz.rs       |  6 +++++-
 src/pdb/mod.rs    | 10 +++++++---
 src/pdb/string.rs | 14 +++++++++++---
 src/util.rs       | 18 +++++++++++++++++-
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index f70e02d..d2b285f 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -26,7 +26,10 @@
 
 #![allow(clippy::must_use_candidate)]
 
-use crate::{util::ColorIndex, xor::XorStream};
+use crate::{
+    util::{parse_buffered, ColorIndex},
+    xor::XorStream,
+};
 use binrw::{
     binrw,
     io::{Read, Seek, Write},
@@ -116,6 +119,7 @@ pub enum ContentKind {
 #[brw(big)]
 pub struct Header {
     /// Kind of content in this item.
+    #[br(parse_with = parse_buffered::<4, _, _>)]
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
     #[br(assert(size >= 12, "header size {size} is too small"))]
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index e545db5..5a239c8 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -39,7 +39,9 @@ use std::fmt;
 use crate::pdb::ext::{ExtPageType, ExtRow};
 use crate::pdb::offset_array::OffsetSize;
 use crate::pdb::string::DeviceSQLString;
-use crate::util::{parse_at_offsets, write_at_offsets, ColorIndex, FileType, TableIndex};
+use crate::util::{
+    parse_at_offsets, parse_buffered, write_at_offsets, ColorIndex, FileType, TableIndex,
+};
 use binrw::{binrw, BinRead, BinResult, BinWrite, Endian};
 use std::io::{Read, Seek, SeekFrom, Write};
 use thiserror::Error;
@@ -185,7 +187,7 @@ impl PageIndex {
 #[brw(import(db_type: DatabaseType))]
 pub struct Table {
     /// Identifies the type of rows that this table contains.
-    #[br(args(db_type))]
+    #[br(parse_with = parse_buffered::<4, _, _>, args(db_type))]
     pub page_type: PageType,
     /// Unknown field, maybe links to a chain of empty pages if the database is ever garbage
     /// collected (?).
@@ -523,7 +525,7 @@ pub struct PageHeader {
     /// Type of information that the rows of this page contain.
     ///
     /// Should match the page type of the table that this page belongs to.
-    #[br(args(db_type))]
+    #[br(parse_with = parse_buffered::<4, _, _>, args(db_type))]
     pub page_type: PageType,
     /// Index of the next page with the same page type.
     ///
@@ -1821,6 +1823,7 @@ pub struct Track {
     /// User rating of this track (0 to 5 starts).
     pub rating: u8,
     /// Format of the file.
+    #[br(parse_with = parse_buffered::<2, _, _>)]
     file_type: FileType,
     /// offsets (strings) at row end
     #[brw(args(0x5C, subtype.get_offset_size(), ()))]
@@ -1934,6 +1937,7 @@ pub struct Menu {
     /// Experiments confirmed that changing this from `Hidden` to `Visible` makes hidden menus
     /// (like Genre) appear, although some menus do not show in the CDJ-350 even when made
     /// visible here.
+    #[br(parse_with = parse_buffered::<1, _, _>)]
     pub visibility: MenuVisibility,
 
     /// Visual position in the menu list.
diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 848e412..f6d4430 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -13,8 +13,8 @@
 
 use super::PageHeapObject;
 use crate::pdb::offset_array::OffsetArrayItemAlignment;
-use binrw::binrw;
-use std::{convert::TryInto, fmt, str::FromStr};
+use binrw::{binrw, BinRead, BinResult};
+use std::{convert::TryInto, fmt, io::Cursor, str::FromStr};
 use thiserror::Error;
 
 /// The length field of long strings includes four bytes of header.
@@ -249,7 +249,7 @@ enum DeviceSQLStringImpl {
         length: u16,
 
         #[brw(magic(0u8))] // padding
-        #[br(args(flags, length - 4))]
+        #[br(parse_with = parse_long_body, args(flags, length - 4))]
         content: LongBody,
     },
 }
@@ -278,6 +278,14 @@ enum LongBody {
     Ucs2le(#[br(count = usize::from(len / 2))] Vec<u16>),
 }
 
+/// Parses the body from its bytes, which are read first. Otherwise an I/O error in one variant would
+/// be taken for a mismatch.
+#[binrw::parser(reader, endian)]
+fn parse_long_body(flags: u8, len: u16) -> BinResult<LongBody> {
+    let bytes: Vec<u8> = binrw::helpers::count(usize::from(len))(reader, endian, ())?;
+    LongBody::read_options(&mut Cursor::new(bytes), endian, (flags, len))
+}
+
 impl LongBody {
     pub fn byte_count(&self) -> Result<u16, StringError> {
         match self {
diff --git a/src/util.rs b/src/util.rs
index 2cf4f5c..9f1fa53 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -8,7 +8,7 @@
 
 //! Common types used in multiple modules.
 
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 
 use crate::pdb::string::StringError;
 use crate::pdb::{PageIndex, PageType};
@@ -142,6 +142,22 @@ pub enum FileType {
     Other(u16),
 }
 
+/// Parses a value from its `N` bytes, which are read first.
+///
+/// A type with a catch-all variant would take an I/O error in any other variant for a mismatch.
+pub(crate) fn parse_buffered<'a, const N: usize, T, R>(
+    reader: &mut R,
+    endian: Endian,
+    args: T::Args<'a>,
+) -> BinResult<T>
+where
+    T: BinRead,
+    R: Read + Seek,
+{
+    let bytes = <[u8; N]>::read_options(reader, endian, ())?;
+    T::read_options(&mut Cursor::new(bytes), endian, args)
+}
+
 /// Parses a sequence of values with `BinRead` from the offsets provided by the iterator.
 pub(crate) fn parse_at_offsets<Offset, Value, T, Args, It, Reader>(
     it: It,
-- 
2.43.0


From c10b9ba55e694a587a138c647f1a7771703be678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:08 +0000
Subject: [PATCH 25/26] fix: keep track paths with several leading slashes
 below the device directory

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f02d1ce..fa495da 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -255,7 +255,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
                         "{}",
                         export_path
                             .canonicalize()?
-                            .join(track.strip_prefix('/').unwrap_or(track))
+                            .join(track.trim_start_matches('/'))
                             .display(),
                     )?;
                 }
-- 
2.43.0


From 8b0713677d0d359904a91c23ac2c7b8b56be05a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 26/26] fix: show the language simplified Chinese under its
 name

---
 src/setting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setting.rs b/src/setting.rs
index 335f274..49d78ab 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -854,8 +854,8 @@ pub enum Language {
     #[display("한국어")]
     Korean,
     /// Named "简体中文" in the Rekordbox preferences.
-    ChineseSimplified,
     #[display("简体中文")]
+    ChineseSimplified,
     /// Named "繁體中文" in the Rekordbox preferences.
     #[display("繁體中文")]
     ChineseTraditional,
-- 
2.43.0

