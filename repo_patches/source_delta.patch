From 850d07cca071bd1931492f329727b010ddfbad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:11 +0000
Subject: [PATCH 01/22] fix: a lone quote in a string or XTENSION value is an
 error, not a panic

---
 src/card.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index c8205bc..5ec69a2 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -174,7 +174,7 @@ impl TryFrom<&CardBuf> for Card {
 
 fn parse_extension(buf: &[u8; 80]) -> Result<Card, Error> {
     let (value, comment) = split_value_and_comment(&buf[10..])?;
-    if value.starts_with("'") && value.ends_with("'") {
+    if value.len() > 1 && value.starts_with("'") && value.ends_with("'") {
         let end = value.len() - 1;
         let x = value[1..end].trim_ascii().parse()?;
         Ok(Card::Xtension { x, comment })
@@ -277,6 +277,10 @@ fn parse_string(s: String) -> Result<String, Error> {
     let start_quote = s.starts_with("'");
     let end_quote = s.ends_with("'");
     let value: &str = match (start_quote, end_quote) {
+        // a lone quote opens a string that is never closed
+        (true, true) if s.len() == 1 => {
+            return Err(Error::StaticError("missing single quote at end"))
+        }
         (true, true) => &s[1..s.len() - 1], // string enclosed in single quotes
         (false, false) => &s,               // comment string has no quotes
         (true, false) => return Err(Error::StaticError("missing single quote at end")),
-- 
2.43.0


From 0e381cb9dbdf9fd933a9308a14ec464ea05fa615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:11 +0000
Subject: [PATCH 02/22] fix: find the unit of a comment that starts with a
 space after the slash

---
 src/card.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/card.rs b/src/card.rs
index 5ec69a2..9305c60 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -520,6 +520,8 @@ impl<'de> IntoDeserializer<'de, Error> for &'de Value {
 /// FITSv4 section 4.3.2. Units in comment fields
 fn parse_unit(comment: &Option<String>) -> Option<&str> {
     if let Some(c) = comment {
+        // the slash is usually followed by a space, which is kept in the comment
+        let c = c.trim_start();
         if c.starts_with("[") {
             if let Some(i) = c.find("]") {
                 Some(&c[1..i])
-- 
2.43.0


From dfc93b75164561cd4b4be51a1edfa123f62f77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:11 +0000
Subject: [PATCH 03/22] fix: a CONTINUE record that does not immediately follow
 a continued string is orphaned

---
 src/hdu/header/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 69054d9..5943a99 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -309,7 +309,8 @@ fn process_cards(cards: &[Card]) -> Result<ValueMap, Error> {
                 }
             }
             // TODO log skipped card at debug level
-            _ => ( /* NOOP */),
+            // A CONTINUE record that comes after this card does not immediately follow the continued string
+            _ => kw = None,
         }
     }
     Err(Error::StaticError("Missing END card"))
-- 
2.43.0


From 1bdb535e561a68808bd5b957ff8d1e0c9286ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:11 +0000
Subject: [PATCH 04/22] fix: skip to the next HDU from any position of the
 reader

---
 src/fits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fits.rs b/src/fits.rs
index 70e524e..3a1b230 100644
--- a/src/fits.rs
+++ b/src/fits.rs
@@ -65,14 +65,16 @@ where
 
         // current seek position since the start of the stream
         let cur_pos = self.reader.stream_position()? as usize;
-        let mut num_bytes_to_skip = self.num_bytes_in_cur_du - (cur_pos - self.pos_start_cur_du);
+        // Signed: the reader may be anywhere, e.g. past the data unit
+        let mut num_bytes_to_skip =
+            self.num_bytes_in_cur_du as i64 - (cur_pos as i64 - self.pos_start_cur_du as i64);
 
         let offset_in_2880_block = self.num_bytes_in_cur_du % 2880;
         let is_aligned_on_block = offset_in_2880_block == 0;
         if !is_aligned_on_block {
-            num_bytes_to_skip += 2880 - offset_in_2880_block;
+            num_bytes_to_skip += 2880 - offset_in_2880_block as i64;
         }
-        self.reader.seek_relative(num_bytes_to_skip as i64)?;
+        self.reader.seek_relative(num_bytes_to_skip)?;
 
         Ok(())
     }
-- 
2.43.0


From be68b639662c4d28b55b5e0ca587ea31f6d7bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:45 +0000
Subject: [PATCH 05/22] fix: a logical table value is true for 'T' only, not
 for any nonzero byte

---
 src/hdu/data/bintable/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 64759f7..9e91585 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -484,7 +484,7 @@ where
 
                 let value = match ty {
                     VariableArrayTy::L => {
-                        let value = self.reader.read_u8().ok()? != 0;
+                        let value = self.reader.read_u8().ok()? == b'T';
                         *num_bytes_to_read -= L::BYTES_SIZE as u64;
                         DataValue::Logical {
                             value,
@@ -624,7 +624,7 @@ where
                             }
 
                             Some(DataValue::Logical {
-                                value: byte != 0,
+                                value: byte == b'T',
                                 column: ColumnId::Index(col_idx),
                                 idx,
                             }) // Determine the count idx inside the field
-- 
2.43.0


From cd3c1db0ac11b7a5da745e14f14236b34b8ee664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:45 +0000
Subject: [PATCH 06/22] fix: a bit column occupies the bytes that hold its
 bits, rounded up

---
 src/hdu/data/bintable/data.rs        | 2 +-
 src/hdu/header/extension/bintable.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 9e91585..8413802 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -635,7 +635,7 @@ where
                             self.byte_offset += X::BYTES_SIZE;
 
                             self.item_idx += 1;
-                            if self.item_idx == (*repeat_count / 8) + 1 {
+                            if self.item_idx == repeat_count.div_ceil(8) {
                                 self.seek_to_next_col().ok()?;
                             }
 
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index a801ebd..91e0110 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -509,12 +509,12 @@ impl Xtension for BinTable {
             (naxis1 as usize) * (naxis2 as usize)
         };
 
-        let num_bits_per_row = tforms
+        // Each field starts on a byte boundary, bit fields as well
+        let num_bytes_per_row = tforms
             .iter()
-            .map(|tform| tform.num_bits_field() as u64)
+            .map(|tform| tform.num_bytes_field() as u64)
             .sum::<u64>();
 
-        let num_bytes_per_row = num_bits_per_row >> 3;
         if num_bytes_per_row != naxis1 {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
         }
-- 
2.43.0


From b06de73818d8396dd95f47065b5c1859ebfb59d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:54 +0000
Subject: [PATCH 07/22] fix: columns of repeat count 0, empty and duplicate
 column selections

---
 src/hdu/data/bintable/data.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 8413802..a37d171 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -210,7 +210,10 @@ impl<R> TableData<R> {
             })
             .collect();
 
-        let cols_idx = (0..(ctx.tforms.len())).collect();
+        // A field whose repeat count is 0 holds no value
+        let cols_idx = (0..(ctx.tforms.len()))
+            .filter(|&idx| ctx.tforms[idx].num_bytes_field() > 0)
+            .collect();
 
         let col_idx = 0;
         let item_idx = 0;
@@ -276,9 +279,14 @@ impl<R> TableData<R> {
                     }
                 }
             }
-        ).collect();
+        )
+        // A field whose repeat count is 0 holds no value
+        .filter(|&idx| self.ctx.tforms[idx].num_bytes_field() > 0)
+        .collect();
 
         self.cols_idx.sort_unstable();
+        // A row is read in one go, from its first selected column to its last one
+        self.cols_idx.dedup();
 
         // We must go to the first column at this point
         self.seek_to_first_col = true;
@@ -454,7 +462,7 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         // First get the column index in the main data table where the reader is
-        let col_idx = self.cols_idx[self.col_idx];
+        let col_idx = *self.cols_idx.get(self.col_idx)?;
 
         // a select fields has been done, we must offset to the first col
         if self.seek_to_first_col {
-- 
2.43.0


From 4a9f3b1537e933f4b8ee0b81b60953ebc56d8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:54 +0000
Subject: [PATCH 08/22] fix: seek to a row from anywhere in the table and
 iterate over the rows from there

---
 src/hdu/data/bintable/data.rs | 22 +++++++++++++---------
 src/hdu/data/bintable/row.rs  |  4 +++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index a37d171..29fc362 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -288,7 +288,9 @@ impl<R> TableData<R> {
         // A row is read in one go, from its first selected column to its last one
         self.cols_idx.dedup();
 
-        // We must go to the first column at this point
+        // We must go to the first column of the current row at this point
+        self.col_idx = 0;
+        self.item_idx = 0;
         self.seek_to_first_col = true;
 
         self
@@ -348,15 +350,23 @@ where
                 "The row index specified is > than the number of rows of the table",
             ))
         } else {
+            // the reader may be inside the heap
+            self.jump_to_main_table()?;
+
             self.col_idx = 0;
             self.row_idx = idx;
             self.item_idx = 0;
+            self.seek_to_first_col = false;
 
+            let first_col_offset = self
+                .cols_idx
+                .first()
+                .map_or(0, |&idx| self.col_byte_offsets[idx]);
             let new_byte_offset =
                 // go to the beginning of the idx-th row
                 (idx as i64) * (self.ctx.naxis1 as i64)
                 // go to the first column of that row
-                + (self.col_byte_offsets[self.cols_idx[0]] as i64);
+                + first_col_offset as i64;
 
             // Offset for moving from the current position to the new row position
             let off =
@@ -466,13 +476,7 @@ where
 
         // a select fields has been done, we must offset to the first col
         if self.seek_to_first_col {
-            self.seek_to_first_col = false;
-
-            let off = self.col_byte_offsets[col_idx] as i64;
-            // seek to the next col location
-            self.reader.seek_relative(off).ok()?;
-            // update the byte offset as well
-            self.byte_offset += off as usize;
+            self.seek_to_row(self.row_idx).ok()?;
         }
 
         match &mut self.state {
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 90f8851..de5f991 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -13,7 +13,9 @@ pub struct TableRowData<R> {
 
 impl<R> TableRowData<R> {
     pub fn new(data: TableData<R>) -> Self {
-        Self { data, idx_row: 0 }
+        // The data may have been read or seeked before
+        let idx_row = data.row_idx;
+        Self { data, idx_row }
     }
 
     pub fn get_ctx(&self) -> &BinTable {
-- 
2.43.0


From 50f733f07bc412fd60b8272c9c13dce67c4c746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:44 +0000
Subject: [PATCH 09/22] fix: read past variable length arrays with no element

---
 src/hdu/data/bintable/data.rs | 42 +++++++++++++++++++++++++++++------
 src/hdu/data/bintable/row.rs  |  2 +-
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 29fc362..20d1a9c 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -471,6 +471,22 @@ where
     type Item = DataValue;
 
     fn next(&mut self) -> Option<Self::Item> {
+        loop {
+            // Variable length arrays may be empty
+            if let Some(value) = self.next_in_field()? {
+                return Some(value);
+            }
+        }
+    }
+}
+
+impl<R> TableData<R>
+where
+    R: Read + Seek + Debug,
+{
+    /// Read the next value of the current field, `Some(None)` if that field is a variable length array
+    /// with no element, `None` at the end of the table
+    pub(crate) fn next_in_field(&mut self) -> Option<Option<DataValue>> {
         // First get the column index in the main data table where the reader is
         let col_idx = *self.cols_idx.get(self.col_idx)?;
 
@@ -479,7 +495,7 @@ where
             self.seek_to_row(self.row_idx).ok()?;
         }
 
-        match &mut self.state {
+        let value = match &mut self.state {
             DataReaderState::HEAP {
                 ty,
                 num_bytes_to_read,
@@ -619,7 +635,7 @@ where
                 // Read the next value
 
                 if self.byte_offset == self.main_data_table_byte_size {
-                    None
+                    return None;
                 } else {
                     let idx = self.item_idx;
 
@@ -815,7 +831,12 @@ where
 
                             self.byte_offset += P::BYTES_SIZE;
 
-                            if self.heap {
+                            if self.heap && num_elems == 0 {
+                                // nothing to read for this field
+                                self.seek_to_next_col().ok()?;
+
+                                None
+                            } else if self.heap {
                                 self.jump_to_heap(
                                     *ty,
                                     offset_byte as u64,
@@ -824,7 +845,7 @@ where
                                 )
                                 .ok()?;
 
-                                self.next()
+                                self.next_in_field()?
                             } else {
                                 // We need to seek to the next call if we do not jump to the heap, notifying
                                 // we finished parsing this field
@@ -846,11 +867,16 @@ where
 
                             self.byte_offset += Q::BYTES_SIZE;
 
-                            if self.heap {
+                            if self.heap && num_elems == 0 {
+                                // nothing to read for this field
+                                self.seek_to_next_col().ok()?;
+
+                                None
+                            } else if self.heap {
                                 self.jump_to_heap(*ty, offset_byte, num_elems, *t_byte_size)
                                     .ok()?;
 
-                                self.next()
+                                self.next_in_field()?
                             } else {
                                 // We need to seek to the next call if we do not jump to the heap, notifying
                                 // we finished parsing this field
@@ -866,7 +892,9 @@ where
                     }
                 }
             }
-        }
+        };
+
+        Some(value)
     }
 }
 
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index de5f991..85a8df3 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -51,7 +51,7 @@ where
         let mut row_data = vec![];
 
         while self.data.row_idx == self.idx_row {
-            row_data.push(self.data.next()?);
+            row_data.extend(self.data.next_in_field()?);
         }
 
         self.idx_row += 1;
-- 
2.43.0


From a3d3b4c34c751b6a23e5af76bc16461039495348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:31 +0000
Subject: [PATCH 10/22] fix: descriptors of bit arrays count bits, and
 out-of-range descriptors end the iteration

---
 src/hdu/data/bintable/data.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 20d1a9c..9c1d1bf 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -10,6 +10,7 @@ use crate::hdu::header::extension::bintable::{BinTable, TFormType};
 use crate::hdu::FitsRead;
 use byteorder::BigEndian;
 use log::warn;
+use std::convert::TryFrom;
 use std::io::SeekFrom;
 use std::io::{BufReader, Read};
 
@@ -408,14 +409,23 @@ where
             // We are already in the heap, we do nothing
             DataReaderState::HEAP { .. } => (),
             DataReaderState::MainTable => {
+                const OUT_OF_RANGE: Error = Error::StaticError("Array descriptor out of range");
+
+                // Bits are packed in bytes, each read as one value
+                let n_elems = match ty {
+                    VariableArrayTy::X => n_elems.div_ceil(8),
+                    _ => n_elems,
+                };
+                let num_bytes_to_read = n_elems.checked_mul(t_byte_size).ok_or(OUT_OF_RANGE)?;
+
                 // Move to the HEAP
-                let off =
-                    // go back to the beginning of the main table data block
-                    - (self.byte_offset as i64)
+                let off = i64::try_from(byte_offset)
+                    .ok()
                     // from the beginning of the main table go to the beginning of the heap
-                    + self.ctx.theap as i64
-                    // from the beginning of the heap go to the start of the array
-                    + byte_offset as i64;
+                    .and_then(|off| off.checked_add(i64::try_from(self.ctx.theap).ok()?))
+                    .ok_or(OUT_OF_RANGE)?
+                    // go back to the beginning of the main table data block
+                    - (self.byte_offset as i64);
 
                 // Get the current location used to go back to the main table
                 let pos = SeekFrom::Start(self.reader.stream_position()?);
@@ -423,7 +433,6 @@ where
                 // Go to the HEAP
                 self.reader.seek_relative(off)?;
 
-                let num_bytes_to_read = n_elems * t_byte_size;
                 self.state = DataReaderState::HEAP {
                     ty,
                     main_table_pos: pos,
-- 
2.43.0


From af9fa2e218734e83a130692d0f43f94cbe487cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:19 +0000
Subject: [PATCH 11/22] fix: reject headers whose sizes overflow instead of
 panicking

---
 src/hdu/header/extension/asciitable.rs |  2 ++
 src/hdu/header/extension/bintable.rs   | 40 +++++++++++++++-----------
 src/hdu/header/extension/image.rs      |  5 +++-
 src/hdu/header/extension/mod.rs        | 12 ++++++++
 src/hdu/header/mod.rs                  |  5 +++-
 5 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/hdu/header/extension/asciitable.rs b/src/hdu/header/extension/asciitable.rs
index d981f47..f8560ea 100644
--- a/src/hdu/header/extension/asciitable.rs
+++ b/src/hdu/header/extension/asciitable.rs
@@ -7,6 +7,7 @@ use crate::error::Error;
 
 use crate::hdu::header::Bitpix;
 
+use crate::hdu::header::extension::data_unit_size;
 use crate::hdu::header::ValueMap;
 use crate::hdu::header::Xtension;
 use serde::Deserialize;
@@ -114,6 +115,7 @@ impl Xtension for AsciiTable {
         // NAXIS1
         let naxis1 = values.check_for_naxisi(1)?;
         let naxis2 = values.check_for_naxisi(2)?;
+        data_unit_size(&[naxis1, naxis2], 0)?;
 
         // PCOUNT
         let pcount = values.check_for_pcount()?;
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 91e0110..de8e8ac 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -6,7 +6,7 @@ use crate::hdu::Value;
 use async_trait::async_trait;
 use serde::Serialize;
 
-use super::Xtension;
+use super::{data_unit_size, Xtension};
 
 use crate::hdu::header::ValueMap;
 use log::warn;
@@ -208,6 +208,7 @@ impl Xtension for BinTable {
 
         // PCOUNT
         let pcount = values.check_for_pcount()?;
+        data_unit_size(&[naxis1, naxis2], pcount)?;
 
         // GCOUNT
         let gcount = values.check_for_gcount()?;
@@ -288,8 +289,8 @@ impl Xtension for BinTable {
         // in the first row of the table, and the tile containing the last pixel in the image appears in the
         // last row of the binary table.
         let (z_naxisn, z_tilen) = if let Some(z_naxis) = z_naxis {
-            let mut z_naxisn = Vec::with_capacity(z_naxis);
-            let mut z_tilen = Vec::with_capacity(z_naxis);
+            let mut z_naxisn = Vec::new();
+            let mut z_tilen = Vec::new();
 
             for i in 1..=z_naxis {
                 let znaxisn = if let Ok(value) = values.get_parsed(&format!("ZNAXIS{i}")) {
@@ -368,7 +369,12 @@ impl Xtension for BinTable {
                     .collect::<String>();
 
                 let num_count_digits = count.len();
-                let repeat_count = count.parse::<usize>().unwrap_or(1);
+                let repeat_count = if count.is_empty() {
+                    1
+                } else {
+                    // too large a number cannot match NAXIS1, this is checked below
+                    count.parse::<usize>().unwrap_or(usize::MAX)
+                };
                 // If the field type is not found, discard it as well
                 let Some(field_ty) = tform.chars().nth(num_count_digits) else {
                     warn!("Cannot extract the field type of {tform_kw}");
@@ -513,9 +519,9 @@ impl Xtension for BinTable {
         let num_bytes_per_row = tforms
             .iter()
             .map(|tform| tform.num_bytes_field() as u64)
-            .sum::<u64>();
+            .try_fold(0, |sum: u64, num_bytes| sum.checked_add(num_bytes));
 
-        if num_bytes_per_row != naxis1 {
+        if num_bytes_per_row != Some(naxis1) {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
         }
 
@@ -768,17 +774,17 @@ pub(crate) enum ArrayDescriptorTy {
 impl TFormType {
     pub(crate) fn num_bits_field(&self) -> usize {
         match self {
-            TFormType::L { repeat_count } => repeat_count * L::BITS_SIZE, // Logical
-            TFormType::X { repeat_count } => repeat_count * X::BITS_SIZE, // Bit
-            TFormType::B { repeat_count } => repeat_count * B::BITS_SIZE, // Unsigned byte
-            TFormType::I { repeat_count } => repeat_count * I::BITS_SIZE, // 16-bit integer
-            TFormType::J { repeat_count } => repeat_count * J::BITS_SIZE, // 32-bit integer
-            TFormType::K { repeat_count } => repeat_count * K::BITS_SIZE, // 64-bit integer
-            TFormType::A { repeat_count } => repeat_count * A::BITS_SIZE, // Character
-            TFormType::E { repeat_count } => repeat_count * E::BITS_SIZE, // Single-precision floating point
-            TFormType::D { repeat_count } => repeat_count * D::BITS_SIZE, // Double-precision floating point
-            TFormType::C { repeat_count } => repeat_count * C::BITS_SIZE, // Single-precision complex
-            TFormType::M { repeat_count } => repeat_count * M::BITS_SIZE, // Double-precision complex
+            TFormType::L { repeat_count } => repeat_count.saturating_mul(L::BITS_SIZE), // Logical
+            TFormType::X { repeat_count } => repeat_count.saturating_mul(X::BITS_SIZE), // Bit
+            TFormType::B { repeat_count } => repeat_count.saturating_mul(B::BITS_SIZE), // Unsigned byte
+            TFormType::I { repeat_count } => repeat_count.saturating_mul(I::BITS_SIZE), // 16-bit integer
+            TFormType::J { repeat_count } => repeat_count.saturating_mul(J::BITS_SIZE), // 32-bit integer
+            TFormType::K { repeat_count } => repeat_count.saturating_mul(K::BITS_SIZE), // 64-bit integer
+            TFormType::A { repeat_count } => repeat_count.saturating_mul(A::BITS_SIZE), // Character
+            TFormType::E { repeat_count } => repeat_count.saturating_mul(E::BITS_SIZE), // Single-precision floating point
+            TFormType::D { repeat_count } => repeat_count.saturating_mul(D::BITS_SIZE), // Double-precision floating point
+            TFormType::C { repeat_count } => repeat_count.saturating_mul(C::BITS_SIZE), // Single-precision complex
+            TFormType::M { repeat_count } => repeat_count.saturating_mul(M::BITS_SIZE), // Double-precision complex
             TFormType::P { .. } => P::BITS_SIZE, // Array Descriptor (32-bit)
             TFormType::Q { .. } => Q::BITS_SIZE, // Array Descriptor (64-bit)
         }
diff --git a/src/hdu/header/extension/image.rs b/src/hdu/header/extension/image.rs
index 66ca7bc..19538b5 100644
--- a/src/hdu/header/extension/image.rs
+++ b/src/hdu/header/extension/image.rs
@@ -4,6 +4,7 @@ use serde::Serialize;
 use crate::error::Error;
 use crate::hdu::header::Bitpix;
 
+use crate::hdu::header::extension::data_unit_size;
 use crate::hdu::header::ValueMap;
 use crate::hdu::header::Xtension;
 
@@ -49,7 +50,9 @@ impl Xtension for Image {
         // The size of each NAXIS
         let naxisn = (1..=naxis)
             .map(|naxis_i| values.check_for_naxisi(naxis_i))
-            .collect::<Result<_, _>>()?;
+            .collect::<Result<Box<[u64]>, _>>()?;
+
+        data_unit_size(&[data_unit_size(&naxisn, 0)?, bitpix.byte_size() as u64], 0)?;
 
         Ok(Image { bitpix, naxisn })
     }
diff --git a/src/hdu/header/extension/mod.rs b/src/hdu/header/extension/mod.rs
index 7942b1d..a3f669e 100644
--- a/src/hdu/header/extension/mod.rs
+++ b/src/hdu/header/extension/mod.rs
@@ -46,6 +46,18 @@ impl FromStr for XtensionType {
     }
 }
 
+/// The size in bytes of a data unit made of the product of `factors` followed by `extra` bytes
+///
+/// Returns an error if a reader cannot address it
+pub(crate) fn data_unit_size(factors: &[u64], extra: u64) -> Result<u64, Error> {
+    factors
+        .iter()
+        .try_fold(1, |size: u64, &factor| size.checked_mul(factor))
+        .and_then(|size| size.checked_add(extra))
+        .filter(|&size| size <= i64::MAX as u64 / 2)
+        .ok_or(Error::StaticError("The data unit is too large"))
+}
+
 #[async_trait(?Send)]
 pub trait Xtension {
     /// Return the total size in bytes of the data area
diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 5943a99..7acf723 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -154,7 +154,10 @@ impl ValueMap {
     }
 
     fn check_for_tfields(&self) -> Result<usize, Error> {
-        self.get_parsed("TFIELDS")
+        match self.get_parsed("TFIELDS")? {
+            tfields if tfields <= 999 => Ok(tfields),
+            _ => Err(Error::StaticError("TFIELDS must not exceed 999")),
+        }
     }
 }
 
-- 
2.43.0


From 337d7ff9bf36c45bd4ad8cb02bccd66ab07ee638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:19 +0000
Subject: [PATCH 12/22] fix: raw bytes of a truncated data unit do not panic

---
 src/hdu/data/bintable/data.rs | 3 ++-
 src/hdu/data/image.rs         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 9c1d1bf..8dbe2a1 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -168,7 +168,8 @@ where
         let raw_bytes = inner.as_ref();
 
         let s = self.start_pos as usize;
-        let e = s + (self.ctx.get_num_bytes_data_block() as usize);
+        // The file may be truncated
+        let e = (s + (self.ctx.get_num_bytes_data_block() as usize)).min(raw_bytes.len());
         &raw_bytes[s..e]
     }
 }
diff --git a/src/hdu/data/image.rs b/src/hdu/data/image.rs
index 9b5ee0a..f6df2c2 100644
--- a/src/hdu/data/image.rs
+++ b/src/hdu/data/image.rs
@@ -97,7 +97,8 @@ where
         let raw_bytes = inner.as_ref();
 
         let s = self.start_pos as usize;
-        let e = s + (self.num_bytes_data_block as usize);
+        // The file may be truncated
+        let e = (s + (self.num_bytes_data_block as usize)).min(raw_bytes.len());
         &raw_bytes[s..e]
     }
 }
-- 
2.43.0


From a93827958cf72a8dbd264c67033401ed1edcd110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:32 +0000
Subject: [PATCH 13/22] fix: differences of RICE compressed pixels wrap around

The decoder is a port of CFITSIO's ricecomp.c, which relies on the wrap
around of 32-bit integers. Two adjacent pixels far apart made the decoder
panic when overflow checks are on.
---
 src/hdu/data/bintable/tile_compressed/rice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index b9a9fac..278635f 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -285,7 +285,7 @@ where
                             diff = !(diff >> 1);
                         }
 
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
@@ -342,7 +342,7 @@ where
                         } else {
                             diff = !(diff >> 1);
                         }
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
-- 
2.43.0


From 092adc50d4af5b21d998db944ab7e14572c5f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:46 +0000
Subject: [PATCH 14/22] fix: read the quantization method of tile compressed
 images

Enumerations could not be deserialized from string values, ZQUANTIZ was
therefore always ignored and the dithering never subtracted.
---
 src/card.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index 9305c60..a5c61e5 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -6,6 +6,7 @@ pub type Keyword = [u8; 8];
 /// Holds 80 bytes of ASCII characters, i.e. one line in a FITS compliant file.
 pub type CardBuf = [u8; 80];
 
+use serde::de::value::BorrowedStrDeserializer;
 use serde::de::IntoDeserializer;
 use serde::{forward_to_deserialize_any, Deserializer, Serialize};
 
@@ -499,9 +500,27 @@ impl<'de> Deserializer<'de> for &'de Value {
         }
     }
 
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        match self {
+            // the name of a variant
+            Value::String { value, comment: _ } => {
+                visitor.visit_enum(BorrowedStrDeserializer::new(value))
+            }
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
-        seq tuple tuple_struct map struct enum identifier ignored_any
+        seq tuple tuple_struct map struct identifier ignored_any
         newtype_struct unit_struct
     }
 }
-- 
2.43.0


From bfad344c347e3aaf850fe147b853e8a153c2a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:19 +0000
Subject: [PATCH 15/22] fix: follow CFITSIO's random sequence when subtracting
 the dithering

The sequence of a tile starts at the random value of index
(row - 1 + ZDITHER0 - 1) modulo 10000, counting from 0; blank pixels take a
random value as well, and the end of the list continues at the next seed.
---
 src/hdu/data/bintable/tile_compressed/mod.rs  | 98 ++++++++++++-------
 .../data/bintable/tile_compressed/pixels.rs   | 20 ++--
 2 files changed, 70 insertions(+), 48 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index 7668cac..c5c120f 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -93,6 +93,9 @@ pub struct F64Keywords {
 impl F64Keywords {
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
+        // every pixel takes a random value, the blank ones as well
+        let ri = self.quantiz.next_random_value();
+
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
@@ -100,26 +103,14 @@ impl F64Keywords {
             }
         }
 
-        match &mut self.quantiz {
+        match &self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
-                let ri = RAND_VALUES[*i1];
-                // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
-
-                ((value as f32) - ri + 0.5) * self.scale + self.zero
-            }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither1(_) => ((value as f32) - ri + 0.5) * self.scale + self.zero,
+            Quantiz::SubtractiveDither2(_) => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     0.0
                 } else {
-                    let ri = RAND_VALUES[*i1];
-                    // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
             }
@@ -130,6 +121,9 @@ impl F64Keywords {
 impl F32Keywords {
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
+        // every pixel takes a random value, the blank ones as well
+        let ri = self.quantiz.next_random_value();
+
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
@@ -137,26 +131,14 @@ impl F32Keywords {
             }
         }
 
-        match &mut self.quantiz {
+        match &self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
-                let ri = RAND_VALUES[*i1];
-                // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
-
-                ((value as f32) - ri + 0.5) * self.scale + self.zero
-            }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither1(_) => ((value as f32) - ri + 0.5) * self.scale + self.zero,
+            Quantiz::SubtractiveDither2(_) => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     0.0
                 } else {
-                    let ri = RAND_VALUES[*i1];
-                    // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
             }
@@ -201,7 +183,7 @@ impl Keywords for F32Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -243,7 +225,7 @@ impl Keywords for F64Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -296,8 +278,56 @@ impl Keywords for I32Keywords {
 #[derive(Debug)]
 enum Quantiz {
     NoDither,
-    SubtractiveDither1 { i1: usize },
-    SubtractiveDither2 { i1: usize },
+    SubtractiveDither1(Dither),
+    SubtractiveDither2(Dither),
+}
+
+impl Quantiz {
+    /// Random value to subtract from the next pixel
+    fn next_random_value(&mut self) -> f32 {
+        match self {
+            Quantiz::NoDither => 0.0,
+            Quantiz::SubtractiveDither1(dither) | Quantiz::SubtractiveDither2(dither) => {
+                dither.next()
+            }
+        }
+    }
+}
+
+/// Position in the sequence of random values
+#[derive(Debug)]
+struct Dither {
+    i0: usize,
+    i1: usize,
+}
+
+impl Dither {
+    /// # Params
+    ///
+    /// * `row` - the row of the tile, starting from 1
+    /// * `z_dither_0` - value of the ZDITHER0 keyword, starting from 1 as well
+    fn new(row: usize, z_dither_0: i64) -> Self {
+        let n = N_RANDOM as i64;
+        let i0 = (row as i64 % n + z_dither_0 % n - 2).rem_euclid(n);
+
+        Self::at(i0 as usize)
+    }
+
+    fn at(i0: usize) -> Self {
+        let i1 = (RAND_VALUES[i0] * 500.0) as usize;
+        Self { i0, i1 }
+    }
+
+    fn next(&mut self) -> f32 {
+        let ri = RAND_VALUES[self.i1];
+
+        self.i1 += 1;
+        if self.i1 == N_RANDOM {
+            *self = Self::at((self.i0 + 1) % N_RANDOM);
+        }
+
+        ri
+    }
 }
 
 #[cfg(test)]
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 9ed59ab..0876769 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -1,10 +1,10 @@
 use flate2::read::GzDecoder;
 
 use super::super::DataValue;
-use super::dithering::RAND_VALUES;
 use super::rice::RICEDecoder;
 use super::{
-    F32Keywords, F64Keywords, I16Keywords, I32Keywords, Keywords, Quantiz, TileDesc, U8Keywords,
+    Dither, F32Keywords, F64Keywords, I16Keywords, I32Keywords, Keywords, Quantiz, TileDesc,
+    U8Keywords,
 };
 use crate::error::Error;
 use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType, ZQuantiz};
@@ -537,14 +537,10 @@ where
 
             *quantiz = match z_quantiz {
                 ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
+                    Quantiz::SubtractiveDither1(Dither::new(row_idx, *z_dither_0))
                 }
                 ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
+                    Quantiz::SubtractiveDither2(Dither::new(row_idx, *z_dither_0))
                 }
                 _ => Quantiz::NoDither,
             };
@@ -715,14 +711,10 @@ where
 
             *quantiz = match z_quantiz {
                 ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
+                    Quantiz::SubtractiveDither1(Dither::new(row_idx, *z_dither_0))
                 }
                 ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
+                    Quantiz::SubtractiveDither2(Dither::new(row_idx, *z_dither_0))
                 }
                 _ => Quantiz::NoDither,
             };
-- 
2.43.0


From 6a894b67f53f075ed681ed58cce648b8f21c4175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:29 +0000
Subject: [PATCH 16/22] fix: do not interpret tables that cannot be tile
 compressed images

Missing ZSCALE/ZZERO columns, columns of another type than expected, columns
of several values and tiles with no pixel or too many of them made the
pixel iterator panic. Such tables are read as ordinary ones.
---
 src/hdu/data/bintable/tile_compressed/mod.rs | 10 +--
 src/hdu/header/extension/bintable.rs         | 76 ++++++++++++++++++++
 2 files changed, 82 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index c5c120f..3c1379a 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -157,13 +157,14 @@ impl Keywords for F32Keywords {
         } = config;
 
         let ctx = header.get_xtension();
-        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE").unwrap();
-        let z_zero_idx = ctx.find_field_by_ttype("ZZERO").unwrap();
+        let z_scale_idx = ctx.value_idx(ctx.find_field_by_ttype("ZSCALE").unwrap());
+        let z_zero_idx = ctx.value_idx(ctx.find_field_by_ttype("ZZERO").unwrap());
 
         let mut z_blank = None;
         let z_blank_idx = ctx
             // Check for a field named ZBLANK
             .find_field_by_ttype("ZBLANK")
+            .map(|idx| ctx.value_idx(idx))
             .or_else(|| {
                 z_blank = header
                     .get_parsed("ZBLANK")
@@ -199,13 +200,14 @@ impl Keywords for F64Keywords {
         } = config;
 
         let ctx = header.get_xtension();
-        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE").unwrap();
-        let z_zero_idx = ctx.find_field_by_ttype("ZZERO").unwrap();
+        let z_scale_idx = ctx.value_idx(ctx.find_field_by_ttype("ZSCALE").unwrap());
+        let z_zero_idx = ctx.value_idx(ctx.find_field_by_ttype("ZZERO").unwrap());
 
         let mut z_blank = None;
         let z_blank_idx = ctx
             // Check for a field named ZBLANK
             .find_field_by_ttype("ZBLANK")
+            .map(|idx| ctx.value_idx(idx))
             .or_else(|| {
                 z_blank = header
                     .get_parsed("ZBLANK")
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index de8e8ac..8003fe0 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -75,6 +75,39 @@ fn find_field_by_ttype(ttypes: &[Option<String>], ttype: &str) -> Option<usize>
     })
 }
 
+/// Check for the fields that map the integers of a quantized image to floating point values
+fn has_quantization_fields(tforms: &[TFormType], ttypes: &[Option<String>]) -> bool {
+    let tform = |ttype| find_field_by_ttype(ttypes, ttype).map(|idx| &tforms[idx]);
+    let is_float = |ttype| {
+        matches!(
+            tform(ttype),
+            Some(TFormType::E { repeat_count: 1 } | TFormType::D { repeat_count: 1 })
+        )
+    };
+
+    is_float("ZSCALE")
+        && is_float("ZZERO")
+        && matches!(
+            tform("ZBLANK"),
+            None | Some(
+                TFormType::B { repeat_count: 1 }
+                    | TFormType::I { repeat_count: 1 }
+                    | TFormType::J { repeat_count: 1 }
+                    | TFormType::K { repeat_count: 1 }
+            )
+        )
+}
+
+/// A tile holds at least one pixel. Their number is a 32-bit integer for the decoders
+fn is_tile_size_valid(z_tilen: &[usize]) -> bool {
+    z_tilen
+        .iter()
+        .try_fold(1_usize, |num_pixels, &tile| num_pixels.checked_mul(tile))
+        .map_or(false, |num_pixels| {
+            (1..=i32::MAX as usize).contains(&num_pixels)
+        })
+}
+
 impl BinTable {
     pub fn get_num_cols(&self) -> usize {
         self.tfields
@@ -89,6 +122,14 @@ impl BinTable {
         find_field_by_ttype(&self.ttypes, ttype)
     }
 
+    /// Index, among the values of a row, of the first value of a field
+    pub(crate) fn value_idx(&self, field_idx: usize) -> usize {
+        self.tforms[..field_idx]
+            .iter()
+            .map(|tform| tform.num_values())
+            .sum()
+    }
+
     pub fn get_z_image(&self) -> &Option<TileCompressedImage> {
         &self.z_image
     }
@@ -502,6 +543,22 @@ impl Xtension for BinTable {
                     warn!("Only bitpix u8, i16, i32, f32, f64 are supported");
                     None
                 }
+                (_, Bitpix::F32 | Bitpix::F64) if !has_quantization_fields(&tforms, &ttypes) => {
+                    warn!("Only quantized floating point images are supported");
+                    None
+                }
+                _ if !matches!(
+                    tforms[data_compressed_idx],
+                    TFormType::P { .. } | TFormType::Q { .. }
+                ) =>
+                {
+                    warn!("The compressed data must be a variable length array");
+                    None
+                }
+                _ if !is_tile_size_valid(&tile_compressed.z_tilen) => {
+                    warn!("ZTILEn must be positive and a tile cannot exceed 2^31 - 1 pixels");
+                    None
+                }
                 _ => Some(tile_compressed),
             }
         } else {
@@ -793,6 +850,25 @@ impl TFormType {
     pub(crate) fn num_bytes_field(&self) -> usize {
         self.num_bits_field().div_ceil(8)
     }
+
+    /// Number of values read from a field, without following the array descriptors
+    pub(crate) fn num_values(&self) -> usize {
+        match self {
+            TFormType::L { repeat_count }
+            | TFormType::B { repeat_count }
+            | TFormType::I { repeat_count }
+            | TFormType::J { repeat_count }
+            | TFormType::K { repeat_count }
+            | TFormType::A { repeat_count }
+            | TFormType::E { repeat_count }
+            | TFormType::D { repeat_count }
+            | TFormType::C { repeat_count }
+            | TFormType::M { repeat_count } => *repeat_count,
+            // Bits are read byte by byte
+            TFormType::X { .. } => self.num_bytes_field(),
+            TFormType::P { .. } | TFormType::Q { .. } => 1,
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From cea4c20bca7d8d5e880cfc5f1fa6a1449a5cc6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:29 +0000
Subject: [PATCH 17/22] fix: tiles at the border of a compressed image may be
 smaller

The number of pixels of a tile was always the product of the ZTILEn, the
pixels of the next tiles or garbage were returned in place of those that do
not exist. A tile that cannot be decompressed also left the reader in the
heap and its pixels counted as available.
---
 .../data/bintable/tile_compressed/pixels.rs   | 477 +++++-------------
 1 file changed, 113 insertions(+), 364 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 0876769..e3bcf79 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -10,6 +10,7 @@ use crate::error::Error;
 use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType, ZQuantiz};
 use crate::hdu::header::{Bitpix, Header};
 use crate::{TableData, TableRowData};
+use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
 #[derive(Debug)]
@@ -52,7 +53,7 @@ where
     desc: TileDesc<K>,
 
     z_tile: Box<[usize]>,
-    //z_naxis: Box<[usize]>,
+    z_naxis: Box<[u64]>,
     z_cmp_type: ZCmpType,
     data_compressed_idx: usize,
 }
@@ -75,92 +76,56 @@ where
         mut data: TableData<R>,
         config: &TileCompressedImage,
     ) -> Self {
-        // This buffer is only used if tile compressed image in the gzip compression is to be found
         let TileCompressedImage {
+            z_naxisn,
             z_tilen,
             z_cmp_type,
             data_compressed_idx,
             ..
         } = config;
-        // Allocation of a buffer at init of the iterator that is the size of the biggest tiles we can found
-        // on the tile compressed image. This is simply given by the ZTILEi keyword.
-        // Some tiles found on the border of the image can be smaller
-        let n_elems_max = z_tilen.iter().product::<usize>();
-
-        // FIXME
-        // A little precision. The gzdecoder from flate2 seems to unzip data in a stream of u32 i.e. even if the type of data
-        // to uncompress is byte or short, the result will be cast in a u32. I thus allocate for gzip compression, a buffer of
-        // n_elems_max * size_in_bytes of u32.
-        // It seems to be the same for RICE, so the latter rice decompression code is called on i32
-        let num_bytes_max_tile = n_elems_max * std::mem::size_of::<u32>();
-
-        let buf = vec![0_u8; num_bytes_max_tile];
-
         let desc = TileDesc::new(header, config);
 
         // do not read the heap, we will manage our way decompressing the tiles
         data.read_the_heap(false);
         Self {
-            buf,
+            // allocated for the first tile, the biggest one
+            buf: Vec::new(),
             row_it: data.row_iter(),
 
             desc,
 
-            data_compressed_idx: *data_compressed_idx,
-            //z_naxis: z_naxisn.clone(),
+            data_compressed_idx: header.get_xtension().value_idx(*data_compressed_idx),
+            z_naxis: z_naxisn.clone(),
             z_tile: z_tilen.clone(),
             z_cmp_type: *z_cmp_type,
         }
     }
 }
 
-/*
-/// Compute the size of the tile from its row position inside the compressed data column
-/// FIXME: optimize this computation by using memoization
-pub(crate) fn tile_size_from_row_idx(
-    z_tile: &[usize],
-    z_naxis: &[usize],
-    n: usize,
-) -> Box<[usize]> {
-    let d = z_tile.len();
-
-    if d == 0 {
-        // There must be at least one dimension
-        unreachable!();
-    } else {
-        let mut u = vec![0_usize; z_tile.len()];
-
-        let s = z_naxis
-            .iter()
-            .zip(z_tile.iter())
-            .map(|(naxisi, tilei)| naxisi.div_ceil(*tilei))
-            .collect::<Vec<_>>();
-
-        // Compute the position inside the first dimension
-        u[0] = n % s[0];
-
-        for i in 1..d {
-            u[i] = n
-                - u[0]
-                - (1..i)
-                    .map(|k| {
-                        let prod_sk = s.iter().take(k).product::<usize>();
-                        u[k] * prod_sk
-                    })
-                    .sum::<usize>();
-
-            let prod_si = s.iter().take(i).product::<usize>();
-
-            u[i] = (u[i] / prod_si) % s[i];
+/// Number of pixels of a tile from its row position (starting from 0) inside the compressed data column
+///
+/// The tiles at the border of the image may be smaller than the others. There is no tile beyond the image.
+fn num_pixels_in_tile(z_tile: &[usize], z_naxis: &[u64], row_idx: usize) -> u64 {
+    let mut n = row_idx as u64;
+    let mut num_pixels = 1;
+
+    for (&tile, &naxis) in z_tile.iter().zip(z_naxis) {
+        let tile = tile as u64;
+        let num_tiles = naxis.div_ceil(tile);
+        if num_tiles == 0 {
+            return 0;
         }
 
-        u.iter()
-            .zip(z_naxis.iter().zip(z_tile.iter()))
-            .map(|(&u_i, (&naxis, &tilez))| tilez.min(naxis - u_i * tilez))
-            .collect()
+        num_pixels *= tile.min(naxis - (n % num_tiles) * tile);
+        n /= num_tiles;
+    }
+
+    if n == 0 {
+        num_pixels
+    } else {
+        0
     }
 }
-    */
 
 use std::fmt::Debug;
 impl<R> Iterator for It<R, U8Keywords>
@@ -175,68 +140,9 @@ where
         if self.desc.remaining_pixels == 0 {
             let row_data = self.row_it.next()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.load_tile(&row_data, row_idx)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -275,67 +181,8 @@ where
         if self.desc.remaining_pixels == 0 {
             let row_data = self.row_it.next()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.load_tile(&row_data, row_idx)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -381,67 +228,8 @@ where
         if self.desc.remaining_pixels == 0 {
             let row_data = self.row_it.next()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.load_tile(&row_data, row_idx)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -499,26 +287,8 @@ where
         if self.desc.remaining_pixels == 0 {
             let row_data = self.row_it.next()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
             let TileDesc {
                 keywords:
                     F32Keywords {
@@ -567,48 +337,7 @@ where
                 }
             }
 
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.load_tile(&row_data, row_idx)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -673,26 +402,8 @@ where
         if self.desc.remaining_pixels == 0 {
             let row_data = self.row_it.next()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
             let TileDesc {
                 keywords:
                     F64Keywords {
@@ -741,48 +452,7 @@ where
                 }
             }
 
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.load_tile(&row_data, row_idx)?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -835,6 +505,85 @@ where
     }
 }
 
+impl<R, K> It<R, K>
+where
+    R: Read + Seek,
+    K: Keywords,
+{
+    /// Decompress the tile described by a row
+    ///
+    /// # Params
+    ///
+    /// * `row_data` - The values of the row
+    /// * `row_idx` - The number of rows read so far
+    fn load_tile(&mut self, row_data: &[DataValue], row_idx: usize) -> Option<()> {
+        let byte_offset = match row_data[self.data_compressed_idx] {
+            DataValue::VariableLengthArray32 { offset_byte, .. } => offset_byte as u64,
+            DataValue::VariableLengthArray64 { offset_byte, .. } => offset_byte,
+            _ => unreachable!(),
+        };
+
+        let num_pixels = num_pixels_in_tile(&self.z_tile, &self.z_naxis, row_idx - 1);
+        if num_pixels == 0 {
+            return None;
+        }
+
+        // FIXME
+        // A little precision. The gzdecoder from flate2 seems to unzip data in a stream of u32 i.e. even if the type of data
+        // to uncompress is byte or short, the result will be cast in a u32. I thus allocate for gzip compression, a buffer of
+        // num_pixels * size_in_bytes of u32.
+        // It seems to be the same for RICE, so the latter rice decompression code is called on i32
+        let num_bytes = (num_pixels as usize) * std::mem::size_of::<u32>();
+        self.buf.resize(num_bytes, 0);
+
+        // We jump to the heap at the position of the tile
+        // Then we decomp the tile and store it into out internal buf
+        // Finally we go back to the main data table location before jumping to the heap
+        let ctx = self.row_it.get_ctx();
+        let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
+        let off = i64::try_from(byte_offset)
+            .ok()?
+            // from the beginning of the main table go to the beginning of the heap
+            .checked_add(i64::try_from(ctx.theap).ok()?)?
+            // go back to the beginning of the main table data block
+            - (main_data_table_offset as i64);
+        self.jump_to_location(
+            |s| {
+                let It { buf, row_it, .. } = s;
+
+                let reader = row_it.get_reader();
+
+                match s.z_cmp_type {
+                    // For GZIP2, the byte shuffling is done in the next method
+                    ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
+                        let mut gz = GzDecoder::new(reader);
+                        gz.read_exact(&mut buf[..])?;
+                    }
+                    // FIXME support bytepix
+                    ZCmpType::Rice { blocksize, .. } => {
+                        let mut rice =
+                            RICEDecoder::<_, i32>::new(reader, blocksize as i32, num_pixels as i32);
+                        rice.read_exact(&mut buf[..])?;
+                    }
+                    // Other compression not supported, when parsing the bintable extension keywords
+                    // we ensured that z_image is `None` for other compressions than GZIP or RICE
+                    _ => unreachable!(),
+                }
+
+                Ok(())
+            },
+            SeekFrom::Current(off),
+        )
+        .ok()?;
+
+        // Update the tile compressed currently decompressed
+        self.desc.n_pixels = num_pixels;
+        self.desc.remaining_pixels = num_pixels;
+
+        Some(())
+    }
+}
+
 impl<R, K> It<R, K>
 where
     R: Seek,
@@ -848,9 +597,9 @@ where
         let old_pos = SeekFrom::Start(self.get_reader().stream_position()?);
 
         self.get_reader().seek(pos)?;
-        f(self)?;
+        let res = f(self);
         let _ = self.get_reader().seek(old_pos)?;
 
-        Ok(())
+        res
     }
 }
-- 
2.43.0


From 3a9fa3197250c42792dbc0b6bc3ba35a65622d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:29 +0000
Subject: [PATCH 18/22] fix: bytes of GZIP_2 compressed tiles are shuffled as
 for the other types

---
 src/hdu/data/bintable/tile_compressed/pixels.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index e3bcf79..eb17c74 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -149,12 +149,18 @@ where
         let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
 
         let value = match self.z_cmp_type {
-            ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
+            ZCmpType::Gzip1 => {
                 // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
                 let off = 4 * idx;
                 // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
                 self.buf[off + 3]
             }
+            ZCmpType::Gzip2 => {
+                // the least significant bytes of all the pixels come last
+                let num_bytes = self.buf.len();
+                let step_msb = num_bytes / 4;
+                self.buf[3 * step_msb + idx]
+            }
             ZCmpType::Rice { .. } => {
                 // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
                 let off = 4 * idx;
-- 
2.43.0


From 3a0258db008fd8746b2f293a35b6d9f9b75ac6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:18 +0000
Subject: [PATCH 19/22] fix: the first card of an asynchronously read file must
 be SIMPLE

---
 src/hdu/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hdu/mod.rs b/src/hdu/mod.rs
index 0d33c10..ec94d09 100644
--- a/src/hdu/mod.rs
+++ b/src/hdu/mod.rs
@@ -260,16 +260,21 @@ impl AsyncHDU {
         let cards = consume_cards_async(reader, &mut num_bytes_read).await?;
 
         // Check for SIMPLE keyword
-        let _name: String = "SIMPLE".to_owned();
         if let Card::Value {
-            name: _name,
+            name,
             value: Logical { value: true, .. },
             ..
         } = &cards[0]
         {
-            Ok(AsyncHDU::Primary(
-                async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
-            ))
+            if name == "SIMPLE" {
+                Ok(AsyncHDU::Primary(
+                    async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
+                ))
+            } else {
+                Err(Error::DynamicError(format!(
+                    "Invalid FITS file: expected `SIMPLE` keyword in first card, found `{name}`"
+                )))
+            }
         } else {
             Err(Error::StaticError("not a FITSv4 file"))
         }
-- 
2.43.0


From e06efa915e6b0198312d4e573d0f08f229d87d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:18 +0000
Subject: [PATCH 20/22] fix: keep the bytes already read when an asynchronous
 reader is not ready

---
 src/async_fits.rs      | 145 +++++++++++++++++++++++++----------------
 src/hdu/data/stream.rs |  93 ++++++++++++++------------
 2 files changed, 139 insertions(+), 99 deletions(-)

diff --git a/src/async_fits.rs b/src/async_fits.rs
index 4b6d036..75cb5e3 100644
--- a/src/async_fits.rs
+++ b/src/async_fits.rs
@@ -1,4 +1,4 @@
-use std::pin::Pin;
+use std::pin::{pin, Pin};
 
 use crate::card::Card;
 use crate::hdu;
@@ -8,7 +8,7 @@ use crate::hdu::header::extension::bintable::BinTable;
 use crate::hdu::header::extension::image::Image;
 use crate::hdu::header::extension::Xtension;
 use crate::hdu::header::Header;
-use futures::{Future, Stream};
+use futures::{ready, Future, Stream};
 use serde::Serialize;
 use std::fmt::Debug;
 
@@ -25,6 +25,9 @@ pub struct AsyncFits<R> {
     num_bytes_in_cur_hdu: usize,
     // If an error has been encountered, the HDU iterator ends
     error_parsing_encountered: bool,
+    // The bytes of the next header read so far. The reader may not be ready
+    // in the middle of a header, the next poll then carries on from there
+    header: Vec<u8>,
     reader: R,
 }
 
@@ -39,12 +42,12 @@ impl<R> AsyncFits<R> {
             num_remaining_bytes_in_cur_hdu: 0,
             num_bytes_in_cur_hdu: 0,
             error_parsing_encountered: false,
+            header: Vec::new(),
             start: true,
         }
     }
 }
 
-use futures::AsyncBufReadExt;
 impl<'a, R> AsyncFits<R>
 where
     R: AsyncDataBufRead<'a, Image>
@@ -52,42 +55,80 @@ where
         + AsyncDataBufRead<'a, BinTable>
         + 'a,
 {
+    /// Consume up to `num_bytes` bytes from the reader. Returns 0 if we are at EOF
+    fn poll_consume(
+        &mut self,
+        cx: &mut Context<'_>,
+        num_bytes: usize,
+    ) -> Poll<Result<usize, Error>> {
+        let mut reader = Pin::new(&mut self.reader);
+        let amt = ready!(reader.as_mut().poll_fill_buf(cx))?
+            .len()
+            .min(num_bytes);
+        reader.consume(amt);
+
+        Poll::Ready(Ok(amt))
+    }
+
     /// Returns a boolean to know if we are at EOF
-    async fn consume_until_next_hdu(&mut self) -> Result<bool, Error> {
+    ///
+    /// This can be called again if the reader was not ready
+    fn poll_consume_until_next_hdu(&mut self, cx: &mut Context<'_>) -> Poll<Result<bool, Error>> {
         // 1. Check if there are still bytes to be read to get to the end of data
-        if self.num_remaining_bytes_in_cur_hdu > 0 {
+        while self.num_remaining_bytes_in_cur_hdu > 0 {
             // Then read them
-            <R as AsyncDataBufRead<'_, Image>>::read_n_bytes_exact(
-                &mut self.reader,
-                self.num_remaining_bytes_in_cur_hdu as u64,
-            )
-            .await?;
+            match ready!(self.poll_consume(cx, self.num_remaining_bytes_in_cur_hdu))? {
+                0 => return Poll::Ready(Err(Error::StaticError("The file has reached EOF"))),
+                amt => self.num_remaining_bytes_in_cur_hdu -= amt,
+            }
         }
 
         // 2. We are at the end of the real data. As FITS standard stores data in block of 2880 bytes
         // we must read until the next block of data to get the location of the next HDU
 
-        let is_remaining_bytes = !self.num_bytes_in_cur_hdu.is_multiple_of(2880);
         // Skip the remaining bytes to set the reader where a new HDU begins
-        if is_remaining_bytes {
-            let mut block_mem_buf: [u8; 2880] = [0; 2880];
-
+        while !self.num_bytes_in_cur_hdu.is_multiple_of(2880) {
             let num_off_bytes = 2880 - (self.num_bytes_in_cur_hdu % 2880);
-            match self
-                .reader
-                .read_exact(&mut block_mem_buf[..num_off_bytes])
-                .await
-            {
-                // An error like unexpected EOF is not permitted by the standard but we make it pass
+            match ready!(self.poll_consume(cx, num_off_bytes))? {
+                // An unexpected EOF is not permitted by the standard but we make it pass
                 // interpreting it as the last HDU in the file
-                Err(ref e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(true),
-                Err(e) => return Err(e.into()),
-                Ok(()) => {}
+                0 => return Poll::Ready(Ok(true)),
+                amt => self.num_bytes_in_cur_hdu += amt,
             }
         }
 
-        let eof = self.reader.fill_buf().await?.is_empty();
-        Ok(eof)
+        let eof = ready!(Pin::new(&mut self.reader).poll_fill_buf(cx))?.is_empty();
+        Poll::Ready(Ok(eof))
+    }
+
+    /// Read the blocks of the next header, until the one that contains its END card
+    ///
+    /// This can be called again if the reader was not ready
+    fn poll_header(&mut self, cx: &mut Context<'_>) -> Poll<Result<Vec<u8>, Error>> {
+        loop {
+            let num_bytes_in_block = self.header.len() % 2880;
+            if num_bytes_in_block == 0 {
+                let last_block = &self.header[self.header.len().saturating_sub(2880)..];
+                if last_block
+                    .chunks(80)
+                    .any(|card| card[..8].trim_ascii() == b"END")
+                {
+                    return Poll::Ready(Ok(std::mem::take(&mut self.header)));
+                }
+            }
+
+            let mut block_mem_buf: [u8; 2880] = [0; 2880];
+            let amt =
+                ready!(Pin::new(&mut self.reader)
+                    .poll_read(cx, &mut block_mem_buf[num_bytes_in_block..]))?;
+            if amt == 0 {
+                return Poll::Ready(Err(Error::StaticError(
+                    "Fail reading the header without encountering the END card",
+                )));
+            }
+            self.header
+                .extend_from_slice(&block_mem_buf[num_bytes_in_block..num_bytes_in_block + amt]);
+        }
     }
 
     pub fn get_data<X>(&'a mut self, hdu: &AsyncHDU<X>) -> <R as AsyncDataBufRead<'a, X>>::Data
@@ -128,41 +169,31 @@ where
         if self.error_parsing_encountered {
             Poll::Ready(None)
         } else {
-            let hdu = if !self.start {
-                // We must consume the bytes until the next header is found
-                // if eof then the iterator finishes
-                let consume_tokens_until_next_hdu = self.consume_until_next_hdu();
-                let eof = match std::pin::pin!(consume_tokens_until_next_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // The future finished returning the eof information
-                    Poll::Ready(r) => r,
-                };
-
-                match eof {
-                    Ok(eof) => {
-                        if !eof {
-                            // parse the extension HDU
-                            let r = &mut self.reader;
-                            let parse_x_hdu = hdu::AsyncHDU::new_xtension(r);
-                            match std::pin::pin!(parse_x_hdu).poll(cx) {
-                                Poll::Pending => return Poll::Pending,
-                                // the future finished, returning the parsed hdu or the error while parsing it
-                                Poll::Ready(r) => Some(r),
-                            }
+            // We must consume the bytes until the next header is found
+            // if eof then the iterator finishes
+            let eof = if !self.start && self.header.is_empty() {
+                ready!(self.poll_consume_until_next_hdu(cx))
+            } else {
+                Ok(false)
+            };
+
+            let hdu = match eof {
+                Ok(true) => None,
+                Ok(false) => match ready!(self.poll_header(cx)) {
+                    Ok(header) => {
+                        // the whole header is in memory, these futures are always ready
+                        let mut r = futures::io::BufReader::new(&header[..]);
+                        Some(if self.start {
+                            // parse the primary HDU
+                            ready!(pin!(hdu::AsyncHDU::new_primary(&mut r)).poll(cx))
                         } else {
-                            None
-                        }
+                            // parse the extension HDU
+                            ready!(pin!(hdu::AsyncHDU::new_xtension(&mut r)).poll(cx))
+                        })
                     }
                     Err(e) => Some(Err(e)),
-                }
-            } else {
-                // parse the primary HDU
-                let parse_first_hdu = hdu::AsyncHDU::new_primary(&mut self.reader);
-                match std::pin::pin!(parse_first_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // the future finished, returning the parsed hdu or the error while parsing it
-                    Poll::Ready(r) => Some(r),
-                }
+                },
+                Err(e) => Some(Err(e)),
             };
 
             self.start = false;
diff --git a/src/hdu/data/stream.rs b/src/hdu/data/stream.rs
index ac9cd61..111041c 100644
--- a/src/hdu/data/stream.rs
+++ b/src/hdu/data/stream.rs
@@ -1,5 +1,4 @@
 use byteorder::ByteOrder;
-use futures::AsyncReadExt;
 
 /// An async iterator on the data array
 /// This is an enum whose content depends on the
@@ -28,6 +27,10 @@ where
 {
     pub reader: &'a mut R,
     pub num_remaining_bytes_in_cur_hdu: &'a mut usize,
+    // The first bytes of the next value. The reader may not be ready in the
+    // middle of a value, the next poll then carries on from there
+    buf: [u8; 8],
+    num_bytes_in_buf: usize,
     phantom: std::marker::PhantomData<T>,
 }
 
@@ -39,15 +42,38 @@ where
         Self {
             reader,
             num_remaining_bytes_in_cur_hdu,
+            buf: [0; 8],
+            num_bytes_in_buf: 0,
             phantom: std::marker::PhantomData,
         }
     }
+
+    /// Read the `N` bytes of the next value
+    fn poll_bytes<const N: usize>(
+        &mut self,
+        cx: &mut Context<'_>,
+    ) -> Poll<Result<[u8; N], futures::io::Error>> {
+        while self.num_bytes_in_buf < N {
+            let buf = &mut self.buf[self.num_bytes_in_buf..N];
+            let amt = ready!(Pin::new(&mut *self.reader).poll_read(cx, buf))?;
+            if amt == 0 {
+                return Poll::Ready(Err(futures::io::ErrorKind::UnexpectedEof.into()));
+            }
+            self.num_bytes_in_buf += amt;
+            *self.num_remaining_bytes_in_cur_hdu -= amt;
+        }
+
+        self.num_bytes_in_buf = 0;
+        let mut buf = [0_u8; N];
+        buf.copy_from_slice(&self.buf[..N]);
+        Poll::Ready(Ok(buf))
+    }
 }
 
+use futures::ready;
 use futures::task::Context;
 use futures::task::Poll;
 use futures::AsyncBufRead;
-use futures::Future;
 //use serde::Serialize;
 use std::pin::Pin;
 
@@ -64,20 +90,14 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu + self.num_bytes_in_buf < 1 {
             // The stream has finished
             Poll::Ready(None)
         } else {
-            let mut buf = [0_u8; 1];
-
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_bytes::<1>(cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    *self.num_remaining_bytes_in_cur_hdu -= 1;
-                    Poll::Ready(Some(Ok(buf)))
-                }
+                Poll::Ready(Ok(buf)) => Poll::Ready(Some(Ok(buf))),
             }
         }
     }
@@ -94,18 +114,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu + self.num_bytes_in_buf < std::mem::size_of::<i16>()
+        {
             // The stream has finished
             Poll::Ready(None)
         } else {
-            let mut buf = [0_u8; 2];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_bytes::<2>(cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
+                Poll::Ready(Ok(buf)) => {
                     let item = byteorder::BigEndian::read_i16(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i16>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -124,19 +142,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu + self.num_bytes_in_buf < std::mem::size_of::<i32>()
+        {
             // The stream has finished
             Poll::Ready(None)
         } else {
-            let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_bytes::<4>(cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
+                Poll::Ready(Ok(buf)) => {
                     let item = byteorder::BigEndian::read_i32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i32>();
-
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -155,18 +170,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu + self.num_bytes_in_buf < std::mem::size_of::<i64>()
+        {
             // The stream has finished
             Poll::Ready(None)
         } else {
-            let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_bytes::<8>(cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
+                Poll::Ready(Ok(buf)) => {
                     let item = byteorder::BigEndian::read_i64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i64>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -185,18 +198,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu + self.num_bytes_in_buf < std::mem::size_of::<f32>()
+        {
             // The stream has finished
             Poll::Ready(None)
         } else {
-            let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_bytes::<4>(cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
+                Poll::Ready(Ok(buf)) => {
                     let item = byteorder::BigEndian::read_f32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f32>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -215,18 +226,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu + self.num_bytes_in_buf < std::mem::size_of::<f64>()
+        {
             // The stream has finished
             Poll::Ready(None)
         } else {
-            let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_bytes::<8>(cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
+                Poll::Ready(Ok(buf)) => {
                     let item = byteorder::BigEndian::read_f64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f64>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
-- 
2.43.0


From 8ca2ffa99bcde9dcbe71d8e649fe047bfbbc08ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:47 +0000
Subject: [PATCH 21/22] fix: array descriptors must not reach beyond the data
 unit

---
 src/hdu/data/bintable/data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 8dbe2a1..257d979 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -419,6 +419,13 @@ where
                 };
                 let num_bytes_to_read = n_elems.checked_mul(t_byte_size).ok_or(OUT_OF_RANGE)?;
 
+                // The array must lie in the data unit, what follows belongs to the next HDU
+                byte_offset
+                    .checked_add(self.ctx.theap as u64)
+                    .and_then(|start| start.checked_add(num_bytes_to_read))
+                    .filter(|&end| end <= self.ctx.get_num_bytes_data_block())
+                    .ok_or(OUT_OF_RANGE)?;
+
                 // Move to the HEAP
                 let off = i64::try_from(byte_offset)
                     .ok()
-- 
2.43.0


From 6c64827a80b49714d9955661c7b27bbd47d464d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:20 +0000
Subject: [PATCH 22/22] fix: read gzipped files made of several members to
 their end

---
 src/gz.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gz.rs b/src/gz.rs
index db6df65..064b60e 100644
--- a/src/gz.rs
+++ b/src/gz.rs
@@ -1,4 +1,4 @@
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use std::io::Seek;
 /*
 use crate::hdu::data::FitsRead;
@@ -94,7 +94,7 @@ where
 {
     /// Open a fits file from a path. Can be gzip-compressed
     pub fn new(reader: R) -> Result<Self, Error> {
-        let mut gz = GzDecoder::new(reader);
+        let mut gz = MultiGzDecoder::new(reader);
 
         match gz.header() {
             // `path` points to a file that is gzip-compressed.
@@ -107,7 +107,7 @@ where
             // `path` points to a plain text file.
             None => {
                 let mut r = gz.into_inner();
-                // Since the `GzDecoder` already moved some bytes out of f
+                // Since the `MultiGzDecoder` already moved some bytes out of f
                 // by trying to decompress it, the file must be rewinded
                 // TODO There may be a better way instead of reading the same
                 // file twice.
-- 
2.43.0

