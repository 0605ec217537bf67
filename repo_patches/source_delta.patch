From 06a4d9e79a2e4fa97464f495560e0279115666aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 01/42] fix: report an error for VBR encodings longer than 64
 bits

read_vbr shifted by an ever growing amount when the continuation bit stayed
set, which panics with overflow checks and corrupts the value without them.
---
 llvm-bitcursor/src/error.rs | 4 ++++
 llvm-bitcursor/src/lib.rs   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/llvm-bitcursor/src/error.rs b/llvm-bitcursor/src/error.rs
index 905a66c..b967108 100644
--- a/llvm-bitcursor/src/error.rs
+++ b/llvm-bitcursor/src/error.rs
@@ -25,6 +25,10 @@ pub enum Error {
     #[cfg(any(feature = "vbr", doc))]
     #[error("invalid VBR width (must be > 1 but <= system word width)")]
     InvalidVbrWidth,
+    /// A VBR encoding has more blocks than any `u64` needs.
+    #[cfg(any(feature = "vbr", doc))]
+    #[error("VBR encoding does not terminate within 64 bits")]
+    VbrTooLong,
     /// An I/O operation completed partially, but the inner buffer ended before it full completion.
     #[error("too little data to service request")]
     Short,
diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 70a6d59..e42780f 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -308,6 +308,11 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
 
             // Calculate the shift needed for the next block.
             shift += width - 1;
+
+            // Like LLVM, refuse encodings that run past what a `u64` can hold.
+            if shift >= Self::BLOCK_SIZE_BITS {
+                return Err(Error::VbrTooLong);
+            }
         }
 
         Ok(result)
-- 
2.43.0


From d03190c339727caddbbc1eca9a36b5500fa717f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 02/42] fix: decode the signed VBR spelling of the most
 negative value

LLVM encodes INT64_MIN as a bare sign bit (1); it was decoded as 0.
---
 llvm-bitcursor/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index e42780f..47de886 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -330,7 +330,10 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
         let sgn = (result & 1) != 0;
         result >>= 1;
 
-        if sgn {
+        if sgn && result == 0 {
+            // LLVM spells the most negative value as "-0".
+            Ok(isize::MIN)
+        } else if sgn {
             Ok(-(result as isize))
         } else {
             Ok(result as isize)
-- 
2.43.0


From 021e043eee9ad4eacd4d07d80e07901c89b71df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 03/42] fix: align32 to a 32-bit boundary on short and
 unaligned blocks

The alignment was computed from the bits left in the current block, which is
only right when the block ends on a 32-bit boundary.
---
 llvm-bitcursor/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 47de886..d412441 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -346,10 +346,16 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
     pub fn align32(&mut self) {
         log::debug!("aligning the cursor");
 
-        if self.bit_index >= 32 {
-            self.current_block >>= self.bit_index - 32;
-            self.bit_index = 32;
+        // The next 32-bit boundary, which is not necessarily a multiple of 32 bits
+        // before the end of the current block: blocks can be short, or can start
+        // at any byte after a seek.
+        let skip = (32 - self.tell_bit() % 32) % 32;
+
+        if skip < self.bit_index {
+            self.current_block >>= skip;
+            self.bit_index -= skip;
         } else {
+            self.byte_pos = ((self.tell_bit() + skip) / 8).min(self.byte_len());
             self.clear_block_state();
         }
     }
-- 
2.43.0


From 0560b431ccaf82d2d36b589bfef9ffe5ad1f7836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 04/42] fix: refuse a relative seek whose target overflows
 instead of panicking

---
 llvm-bitcursor/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index d412441..ae68f69 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -385,9 +385,9 @@ impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
                 }
 
                 // Seeking backwards from the end is perfectly fine.
-                ((self.byte_len() as i64) + pos) as u64
+                (self.byte_len() as i64).wrapping_add(pos) as u64
             }
-            io::SeekFrom::Current(pos) => ((self.tell_byte() as i64) + pos) as u64,
+            io::SeekFrom::Current(pos) => (self.tell_byte() as i64).wrapping_add(pos) as u64,
         } as usize;
 
         // Sanity check: we can't seek before or beyond the backing buffer.
-- 
2.43.0


From 09c5acb52831fcef62d4a20c99a3e6b42065d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 05/42] fix: refuse an array as an abbreviation's only operand
 instead of underflowing

---
 llvm-bitstream/src/abbrev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e7293f7..5560003 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -174,7 +174,7 @@ impl Abbrev {
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-                    if idx != num_abbrev_opnds - 2 {
+                    if idx + 2 != num_abbrev_opnds {
                         return Err(Error::AbbrevParse("array operand at invalid index".into()));
                     }
 
-- 
2.43.0


From 4ad1d1a08a090576d4c2b5c53c86a3aa9b54535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 06/42] fix: refuse a literal as an abbreviation's array
 element type

---
 llvm-bitstream/src/abbrev.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 5560003..4e8bd72 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -183,7 +183,11 @@ impl Abbrev {
                     // `done_early` to indicate that we're done with operand parsing.
                     // This works since array operands are guaranteed to be second-to-last,
                     // followed only by their element operand encoding.
-                    cur.read(1)?;
+                    if cur.read(1)? == 1 {
+                        return Err(Error::AbbrevParse(
+                            "array element type must be an encoding, not a literal".into(),
+                        ));
+                    }
                     let elem_enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
                     done_early = true;
 
-- 
2.43.0


From bf57d257b1fce5e25432f964608a7dae2d1e13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 07/42] fix: don't preallocate untrusted record, array and blob
 lengths

---
 llvm-bitstream/src/abbrev.rs | 6 +++---
 llvm-bitstream/src/parser.rs | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 4e8bd72..6284022 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -75,10 +75,10 @@ impl AbbrevOp {
             AbbrevOp::Array(elem) => {
                 // An array operand is encoded as a length (VBR6), followed by
                 // each encoded element of the array.
-                // TODO(ww): Sanity check array_len here.
+                // NOTE: `array_len` is untrusted, so it isn't used to preallocate.
                 let array_len = cur.read_vbr(6)? as usize;
 
-                let mut fields: Fields = Vec::with_capacity(array_len);
+                let mut fields: Fields = vec![];
                 for _ in 0..array_len {
                     fields.extend(elem.parse(cur)?);
                 }
@@ -98,7 +98,7 @@ impl AbbrevOp {
                 // TODO(ww): This read loop is probably slower than it needs to be;
                 // `BitCursor` could probably learn a `read_bytes` API that's
                 // only allowed when the stream is byte-aligned.
-                let mut fields: Fields = Vec::with_capacity(blob_len);
+                let mut fields: Fields = vec![];
                 for _ in 0..blob_len {
                     fields.push(cur.read_exact::<u8>()?.into());
                 }
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a92a88a..1104a88 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -322,7 +322,8 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         log::debug!("unabbrev record code={}, num_opnds={}", code, num_opnds);
 
-        let mut fields: Fields = Vec::with_capacity(num_opnds as usize);
+        // NOTE: `num_opnds` is untrusted, so it isn't used to preallocate.
+        let mut fields: Fields = vec![];
         for _ in 0..num_opnds {
             fields.push(self.cursor.read_vbr(6)?);
         }
-- 
2.43.0


From 63e4bf15d57927bbda79915aec18dcd9d6eda784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 08/42] fix: report an error for abbreviated records without a
 record code

---
 llvm-bitstream/src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 1104a88..c605617 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -362,8 +362,15 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         let mut fields = abbrev.parse(&mut self.cursor)?;
         log::debug!("parsed fields: {:?}", fields);
 
-        // Panic safety: every abbrev contains at least one operand, so this cannot panic.
-        // We also expect the first operand to always be a u64, indicating the record code.
+        // Every abbrev contains at least one operand, but an empty array or blob
+        // contributes no fields, leaving us without a record code.
+        if fields.is_empty() {
+            return Err(Error::AbbrevParse(
+                "abbreviated record has no fields, expected a record code".into(),
+            ));
+        }
+
+        // We expect the first operand to always be a u64, indicating the record code.
         let code: u64 = fields.remove(0);
 
         if self.scope().is_blockinfo() {
-- 
2.43.0


From f58445f8d189939c4e69363ebd5fde581e515c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 09/42] fix: report an error for a SETBID without a block ID

---
 llvm-bitstream/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index c605617..0706999 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -333,7 +333,9 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
                 BlockInfoCode::SetBid => {
-                    let block_id: u64 = record.fields[0];
+                    let block_id: u64 = *record.fields.first().ok_or_else(|| {
+                        Error::StreamParse("SETBID in BLOCKINFO has no block ID".into())
+                    })?;
                     log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
                     self.scope_mut().set_blockinfo_block_id(block_id)?;
                 }
-- 
2.43.0


From 78f1c11ad212e36eaf3ccb5f0ed6bf6ef12d1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 10/42] fix: end a wrapped bitstream at the wrapper's offset
 plus size

---
 llvm-bitstream/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/lib.rs b/llvm-bitstream/src/lib.rs
index 8b68c61..734ac06 100644
--- a/llvm-bitstream/src/lib.rs
+++ b/llvm-bitstream/src/lib.rs
@@ -120,10 +120,10 @@ impl<T: AsRef<[u8]>> Bitstream<T> {
         // NOTE(ww): The `new_with_len` API is a little bit silly -- ideally we'd just
         // take a slice of `inner` and create a new `BitCursor` with it, but we can't do
         // that while preserving the generic `T` bound.
-        // The manual fixup (+ 20) is another artifact of this -- we keep the wrapper header
-        // in the new cursor to make the offsets more intelligible, which means that we
-        // also need to extend the end of our cursor's buffer.
-        let actual_length = (wrapper.size as usize) + 20;
+        // The manual fixup (+ offset) is another artifact of this -- we keep everything before
+        // the wrapped bitstream in the new cursor to make the offsets more intelligible, which
+        // means that we also need to extend the end of our cursor's buffer.
+        let actual_length = (wrapper.size as usize) + (wrapper.offset as usize);
         let mut cur = BitCursor::new_with_len(inner, actual_length)?;
 
         cur.seek(SeekFrom::Start(wrapper.offset.into()))
-- 
2.43.0


From 3766b1949c701b7d2fef722de34efc87d4e9ef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 11/42] fix: don't recurse once per entry that advance()
 doesn't surface

---
 llvm-bitstream/src/parser.rs | 38 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 0706999..6fc6cab 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -392,6 +392,19 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
     /// [`Error::Exhausted`](Error::Exhausted) if the bitstream has
     /// been fully consumed.
     pub fn advance(&mut self) -> Result<StreamEntry, Error> {
+        // NOTE: This is a loop rather than recursion, since the number of consecutive
+        // entries that aren't surfaced is controlled by the input.
+        loop {
+            if let Some(entry) = self.advance_one()? {
+                return Ok(entry);
+            }
+        }
+    }
+
+    /// Consume the next entry in the bitstream, returning `None` if it's a parse detail
+    /// that a stream consumer shouldn't have to be aware of (such as abbrev definitions
+    /// and the BLOCKINFO block).
+    fn advance_one(&mut self) -> Result<Option<StreamEntry>, Error> {
         if self.cursor.exhausted() {
             return Err(Error::Exhausted);
         }
@@ -411,32 +424,17 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             .into();
         log::debug!("next entry ID: {:?}", id);
 
-        // NOTE(ww): The strange `map` + `unwrap_or_else` pattern below is to keep the parser
-        // generalized without having to return `StreamEntries` that correspond to
-        // parse details that a stream consumer shouldn't have to be aware of
-        // (such as abbrev definitions and the BLOCKINFO block).
         match id {
-            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => {
-                self.exit_block()?.map(Ok).unwrap_or_else(|| self.advance())
-            }
-            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self
-                .enter_block()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => self.exit_block(),
+            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self.enter_block(),
             AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
                 // DEFINE_ABBREV is always a parse detail, so we don't even bother
                 // trying to return a StreamEntry for it.
                 self.define_abbrev()?;
-                self.advance()
+                Ok(None)
             }
-            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self
-                .parse_unabbrev()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Defined(abbrev_id) => self
-                .parse_with_abbrev(abbrev_id)?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self.parse_unabbrev(),
+            AbbrevId::Defined(abbrev_id) => self.parse_with_abbrev(abbrev_id),
         }
     }
 }
-- 
2.43.0


From 0cfe6fe954f7d17b81ffd65f6ba08f118f9e645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 12/42] fix: report a zero type width as zero, not as too big

---
 llvm-support/src/align.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 163c2ba..8932bc5 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -179,9 +179,10 @@ impl AlignedTypeWidth {
 impl TryFrom<u32> for AlignedTypeWidth {
     type Error = AlignedTypeWidthError;
     fn try_from(value: u32) -> Result<Self, Self::Error> {
-        match value > 0 && value <= AlignedTypeWidth::MAX {
-            true => Ok(AlignedTypeWidth(value)),
-            false => Err(AlignedTypeWidthError::TooBig(value)),
+        match value {
+            0 => Err(AlignedTypeWidthError::Zero),
+            1..=AlignedTypeWidth::MAX => Ok(AlignedTypeWidth(value)),
+            _ => Err(AlignedTypeWidthError::TooBig(value)),
         }
     }
 }
-- 
2.43.0


From 9a6841a2f964b9e2d113e0b8d8ef0ac484c2bbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 13/42] fix: rewrite an address space's pointer alignment
 instead of duplicating it

---
 llvm-support/src/align.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 8932bc5..53b819b 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -721,9 +721,9 @@ impl PointerAlignSpecs {
         let pos = self.0.iter().rposition(|&other| other <= spec);
         match pos {
             // If we have a match, then we need to either insert or update
-            // depending on whether our match is the same spec as us.
+            // depending on whether our match is for the same address space as us.
             // Panic safety: `pos` is a valid index returned above.
-            Some(pos) => match self.0[pos] == spec {
+            Some(pos) => match self.0[pos].address_space == spec.address_space {
                 true => {
                     // Unwrap safety: `pos` is a valid index returned above.
                     #[allow(clippy::unwrap_used)]
@@ -731,6 +731,8 @@ impl PointerAlignSpecs {
 
                     other.abi_alignment = spec.abi_alignment;
                     other.preferred_alignment = spec.preferred_alignment;
+                    other.pointer_size = spec.pointer_size;
+                    other.index_size = spec.index_size;
                 }
                 false => {
                     self.0.insert(pos + 1, spec);
-- 
2.43.0


From 975eb048c1b848283bab961b7f79bb819089c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 14/42] fix: refuse an alignment spec with a wrong or multibyte
 first character

---
 llvm-support/src/align.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 53b819b..ca8bfb8 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -342,7 +342,7 @@ impl FromStr for TypeAlignSpec {
         // Unwrap safety: we check for a nonempty string above.
         #[allow(clippy::unwrap_used)]
         let id = value.chars().next().unwrap();
-        let body = &value[1..];
+        let body = &value[id.len_utf8()..];
         let parts: Vec<&str> = body.split(':').collect();
 
         match id {
@@ -612,7 +612,10 @@ impl FromStr for PointerAlignSpec {
             ));
         }
 
-        let parts: Vec<&str> = value[1..].split(':').collect();
+        let body = value.strip_prefix('p').ok_or_else(|| {
+            AlignSpecError::Parse(format!("not a pointer alignment spec: {}", value))
+        })?;
+        let parts: Vec<&str> = body.split(':').collect();
 
         // We expect no less than 3 parts: `p[n]`, `size`, and `abi`, with
         // `pref` and `idx` being optional.
-- 
2.43.0


From 05f5f1e37fa0a3c1d03dd00e3dd261cb33844dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 15/42] fix: refuse a parsed pointer alignment that prefers
 less than its ABI

---
 llvm-support/src/align.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index ca8bfb8..c9a9d32 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -648,13 +648,7 @@ impl FromStr for PointerAlignSpec {
             .map(|idx| idx.parse::<u64>())
             .unwrap_or(Ok(pointer_size))?;
 
-        Ok(Self {
-            address_space: address_space,
-            abi_alignment: abi,
-            preferred_alignment: pref,
-            pointer_size: pointer_size,
-            index_size: index_size,
-        })
+        Self::new(address_space, abi, pref, pointer_size, index_size)
     }
 }
 
-- 
2.43.0


From fe70f9ac00c25a825f6e060c1bb0084882accf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 16/42] fix: accept an aggregate ABI alignment of 0, as real
 datalayouts have

---
 llvm-support/src/align.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index c9a9d32..c84da5d 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -366,10 +366,15 @@ impl FromStr for TypeAlignSpec {
                         parts.len()
                     )));
                 }
+                // An aggregate's ABI alignment can be 0, e.g. `a:0:32`. Like LLVM,
+                // we take that to mean that it's byte aligned.
                 let abi = parts[0]
                     .parse::<u64>()
                     .map_err(|e| AlignSpecError::Parse(e.to_string()))
-                    .and_then(|a| Align::from_bit_align(a).map_err(Into::into))?;
+                    .and_then(|a| match a {
+                        0 => Ok(Align::ALIGN8),
+                        a => Align::from_bit_align(a).map_err(Into::into),
+                    })?;
 
                 let pref = parts
                     .get(1)
-- 
2.43.0


From 08549a4b6044f730165a271fded536cedc6fa529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 17/42] fix: accept integer and floating-point binary
 operations on their own types

---
 llvm-support/src/opcode.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/llvm-support/src/opcode.rs b/llvm-support/src/opcode.rs
index 694f31d..1d09f9d 100644
--- a/llvm-support/src/opcode.rs
+++ b/llvm-support/src/opcode.rs
@@ -155,7 +155,7 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
         let is_fp = ty.is_floating_or_floating_vector();
 
         // Binary operations are only valid on integer/fp types or vectors thereof.
-        if !is_fp || !ty.is_integer_or_integer_vector() {
+        if !is_fp && !ty.is_integer_or_integer_vector() {
             return Err(BinaryOpError::InvalidType(ty.clone()));
         }
 
@@ -177,13 +177,13 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
             (BinaryOpcode::SRem, false) => BinaryOp::SRem,
             (BinaryOpcode::SRem, true) => BinaryOp::FRem,
             // The rest are all integer-type only.
-            (BinaryOpcode::Shl, true) => BinaryOp::Shl,
-            (BinaryOpcode::LShr, true) => BinaryOp::LShr,
-            (BinaryOpcode::AShr, true) => BinaryOp::AShr,
-            (BinaryOpcode::And, true) => BinaryOp::And,
-            (BinaryOpcode::Or, true) => BinaryOp::Or,
-            (BinaryOpcode::Xor, true) => BinaryOp::Xor,
-            (_, false) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
+            (BinaryOpcode::Shl, false) => BinaryOp::Shl,
+            (BinaryOpcode::LShr, false) => BinaryOp::LShr,
+            (BinaryOpcode::AShr, false) => BinaryOp::AShr,
+            (BinaryOpcode::And, false) => BinaryOp::And,
+            (BinaryOpcode::Or, false) => BinaryOp::Or,
+            (BinaryOpcode::Xor, false) => BinaryOp::Xor,
+            (_, true) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
         })
     }
 }
-- 
2.43.0


From 16e01cc2f1da14e0061769bbdfba1cf88987a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 18/42] fix: accept vectors of opaque pointers

---
 llvm-support/src/ty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index f015dff..a5c2bec 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -166,7 +166,11 @@ impl Type {
     /// assert!(!Type::Metadata.is_vector_element());
     /// ```
     pub fn is_vector_element(&self) -> bool {
-        self.is_floating() || matches!(self, Type::Integer(_) | Type::Pointer(_))
+        self.is_floating()
+            || matches!(
+                self,
+                Type::Integer(_) | Type::Pointer(_) | Type::OpaquePointer(_)
+            )
     }
 
     /// Returns whether this type is "first class", i.e. is a valid type for an LLVM value.
-- 
2.43.0


From d50fa1b0594210d69b3745e1e955816a93bd1499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 19/42] Guarded accessors for the alignment tables (cfg
 mollusc_verif)

---
 llvm-support/src/align.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index c84da5d..4523a06 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -746,6 +746,26 @@ impl PointerAlignSpecs {
     }
 }
 
+// Accessors for verification, which otherwise don't exist.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(mollusc_verif)]
+    impl super::TypeAlignSpecs {
+        /// The specifications, in the order that they're kept.
+        pub fn verif_specs(&self) -> &[super::TypeAlignSpec] {
+            &self.0
+        }
+    }
+
+    #[cfg(mollusc_verif)]
+    impl super::PointerAlignSpecs {
+        /// The specifications, in the order that they're kept.
+        pub fn verif_specs(&self) -> &[super::PointerAlignSpec] {
+            &self.0
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 16a3cf1d49cc3e3aa4ad21e5f9573ceece4ae00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 20/42] fix: taking a string or blob from a record without
 fields panicked

---
 llvm-mapper/src/unroll.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 614ccd0..9671753 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -34,7 +34,7 @@ impl Record {
     pub fn try_string(&self, idx: usize) -> Result<String, RecordStringError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordStringError::BadIndex(idx, self.0.fields.len()));
         }
 
@@ -54,7 +54,7 @@ impl Record {
     pub fn try_blob(&self, idx: usize) -> Result<Vec<u8>, RecordBlobError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordBlobError::BadIndex(idx, self.0.fields.len()));
         }
 
-- 
2.43.0


From 7f5b5a0603b0e394e45e3fbefab5bd6478ed99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 21/42] fix: string table references whose end overflows
 panicked

---
 llvm-mapper/src/block/strtab.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index 8b1548f..a49e6be 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -79,13 +79,18 @@ impl Strtab {
     pub fn try_get(&self, sref: &StrtabRef) -> Result<&str, StrtabError> {
         let inner = self.as_ref();
 
-        if sref.size == 0 || sref.offset >= inner.len() || sref.offset + sref.size > inner.len() {
+        if sref.size == 0 {
             return Err(StrtabError::BadRange);
         }
 
-        Ok(std::str::from_utf8(
-            &inner[sref.offset..sref.offset + sref.size],
-        )?)
+        // The offset and size come from the bitcode, so their sum can overflow.
+        let span = sref
+            .offset
+            .checked_add(sref.size)
+            .and_then(|end| inner.get(sref.offset..end))
+            .ok_or(StrtabError::BadRange)?;
+
+        Ok(std::str::from_utf8(span)?)
     }
 
     /// Attempts to read a record's name from the string table.
-- 
2.43.0


From 1231de412620d0afb871b7a3692cfecfd457c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 22/42] fix: refuse attribute strings without a terminator
 instead of panicking on them

---
 llvm-mapper/src/block/attributes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index ad39a9c..31ba340 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -393,7 +393,14 @@ impl Attribute {
         macro_rules! take_string {
             // NOTE(ww): Weird double-brace to make sure the macro expands as a full expression.
             () => {{
-                let str_bytes = record.fields()[start + fieldcount..]
+                let rest = &record.fields()[start + fieldcount..];
+
+                // Every string must be NULL-terminated.
+                if !rest.contains(&0) {
+                    return Err(AttributeError::TooShort);
+                }
+
+                let str_bytes = rest
                     .iter()
                     .take_while(|f| **f != 0)
                     .map(|f| u8::try_from(*f))
-- 
2.43.0


From 74ef6eea5a1452121c529704dee607e19d3af1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 23/42] fix: vscale_range had its minimum and maximum swapped

---
 llvm-mapper/src/block/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 31ba340..3458487 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -341,7 +341,7 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
                     max => max,
                 };
 
-                IntAttribute::VScaleRange(max, min)
+                IntAttribute::VScaleRange(min, max)
             }
             AttributeId::UwTable => {
                 IntAttribute::UwTable(UwTableVariant::try_from(value).map_err(|_| {
-- 
2.43.0


From 807bd133068f6db3dbb7dce79d15634669f94141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 24/42] fix: the nosanitize_bounds attribute was not accepted

---
 llvm-mapper/src/block/attributes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 3458487..0540dbb 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -208,6 +208,8 @@ pub enum EnumAttribute {
     SwiftAsync = AttributeId::SwiftAsync as u64,
     /// `nosanitize_coverage`
     NoSanitizeCoverage = AttributeId::NoSanitizeCoverage as u64,
+    /// `nosanitize_bounds`
+    NoSanitizeBounds = AttributeId::NoSanitizeBounds as u64,
     /// `elementtype`
     ElementType = AttributeId::ElementType as u64,
     /// `disable_sanitizer_instrumentation`
-- 
2.43.0


From fe82f95feff7daaea66966f4370d8aeda9227bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 25/42] fix: function alignments were truncated to a byte
 instead of refused

---
 llvm-mapper/src/record/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/function.rs b/llvm-mapper/src/record/function.rs
index ed1966a..ec9f188 100644
--- a/llvm-mapper/src/record/function.rs
+++ b/llvm-mapper/src/record/function.rs
@@ -155,7 +155,8 @@ impl<'ctx> CtxMappable<'ctx, Record> for Function<'ctx> {
 
         // TODO: Upgrade attributes here? It's what LLVM does.
 
-        let alignment = MaybeAlign::try_from(fields[7] as u8)?;
+        // Every valid (encoded) alignment fits in a byte.
+        let alignment = MaybeAlign::try_from(u8::try_from(fields[7]).unwrap_or(u8::MAX))?;
 
         let section = match fields[8] as usize {
             0 => None,
-- 
2.43.0


From 95d228002006003ba4d3db90d70df7ce7f416f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 26/42] fix: integer type widths were truncated to 32 bits
 instead of refused

---
 llvm-mapper/src/block/type_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 3ffdaa9..e086c9f 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -367,7 +367,8 @@ impl TryFrom<&'_ Block> for TypeTable {
                     last_type_name.clear();
                 }
                 TypeCode::Integer => {
-                    let bit_width = type_field!(0) as u32;
+                    let bit_width =
+                        u32::try_from(type_field!(0)).map_err(|_| TypeTableError::BadTable)?;
                     partial_types.add(PartialType::Integer(PartialIntegerType { bit_width }));
                 }
                 TypeCode::Pointer => {
-- 
2.43.0


From a5267b1e019fba81c49cf7d92b232994ca1f3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 27/42] fix: the claimed size of a type table was allocated
 before reading it

---
 llvm-mapper/src/block/type_table.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index e086c9f..2b9ca92 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -228,7 +228,8 @@ impl PartialTypeTable {
     fn new(numentries: usize) -> Self {
         Self {
             numentries: numentries,
-            inner: Vec::with_capacity(numentries),
+            // NOTE: The size comes from the bitcode, so don't reserve space based on it.
+            inner: vec![],
         }
     }
 
@@ -291,7 +292,7 @@ impl TryFrom<&'_ Block> for TypeTable {
     type Error = TypeTableError;
 
     fn try_from(block: &Block) -> Result<Self, Self::Error> {
-        // Figure out how many type entries we have, and reserve the space for them up-front.
+        // Figure out how many type entries we expect to have.
         let numentries = *block
             .records
             .one(TypeCode::NumEntry)
-- 
2.43.0


From 78968f6cea5729ed885bf61d408fab8757258c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 28/42] fix: named and opaque structures were merged into, or
 refused because of, a preceding structure

---
 llvm-mapper/src/block/type_table.rs | 55 ++++++-----------------------
 1 file changed, 11 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 2b9ca92..580eb17 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -237,10 +237,6 @@ impl PartialTypeTable {
         self.inner.push(ty)
     }
 
-    fn last_mut(&mut self) -> Option<&mut PartialType> {
-        self.inner.last_mut()
-    }
-
     /// Fallibly convert a `TypeRef` into its `PartialType` in this partial type table.
     fn get(&self, ty_ref: &TypeRef) -> Result<&PartialType, TypeTableError> {
         self.inner
@@ -345,25 +341,12 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .into());
                     }
 
-                    // Our opaque type might be forward-referenced. If so, we
-                    // fill in the previous type's name. Otherwise, we create
-                    // a new structure type with no body.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() {
-                            return Err(MapError::Invalid(
-                                "forward-declared opaque type already has name".into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types: vec![],
-                            is_packed: false,
-                        }));
-                    }
+                    // Every opaque type is a type in its own right: a structure with no body.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types: vec![],
+                        is_packed: false,
+                    }));
 
                     last_type_name.clear();
                 }
@@ -458,27 +441,11 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .map(|f| TypeRef(*f as usize))
                         .collect::<Vec<_>>();
 
-                    // Like with opaque types, we might be forward-referenced here.
-                    // If so, we update our pre-existing structure type with its
-                    // correct name and fields.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() || !s.field_types.is_empty() {
-                            return Err(MapError::Invalid(
-                                "forward-declared struct type already has name and/or type fields"
-                                    .into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                        s.field_types = field_types;
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types,
-                            is_packed,
-                        }));
-                    }
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types,
+                        is_packed,
+                    }));
 
                     last_type_name.clear();
                 }
-- 
2.43.0


From 7d3472b9477237bfd6f632d6c2c3f1cf9e775d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 29/42] fix: types that contain themselves caused an infinite
 recursion

---
 llvm-mapper/src/block/type_table.rs | 32 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 580eb17..bece29a 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -108,7 +108,17 @@ enum PartialType {
 impl PartialType {
     /// Fallibly convert this `PartialType` into a `Type`, using the given
     /// `PartialTypeTable` as a reference.
-    fn resolve(&self, partials: &PartialTypeTable) -> Result<Type, TypeTableError> {
+    ///
+    /// `depth` is the number of types that this one is nested in.
+    fn resolve(&self, partials: &PartialTypeTable, depth: usize) -> Result<Type, TypeTableError> {
+        let depth = depth + 1;
+
+        // A type that's nested more deeply than there are types contains itself.
+        // `Type` owns its subtypes, so we can't model it.
+        if depth > partials.inner.len() {
+            return Err(MapError::Unsupported("recursive type in type table".into()).into());
+        }
+
         match self {
             PartialType::Half => Ok(Type::Half),
             PartialType::BFloat => Ok(Type::BFloat),
@@ -125,17 +135,17 @@ impl PartialType {
             PartialType::Token => Ok(Type::Token),
             PartialType::Integer(ity) => Ok(Type::new_integer(ity.bit_width)?),
             PartialType::Function(fty) => {
-                let return_type = partials.resolve(&fty.return_type)?;
+                let return_type = partials.resolve(&fty.return_type, depth)?;
                 let param_types = fty
                     .param_types
                     .iter()
-                    .map(|ty_ref| partials.resolve(ty_ref))
+                    .map(|ty_ref| partials.resolve(ty_ref, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_function(return_type, param_types, fty.is_vararg)?)
             }
             PartialType::Pointer(pty) => {
-                let pointee = partials.resolve(&pty.pointee)?;
+                let pointee = partials.resolve(&pty.pointee, depth)?;
 
                 Ok(Type::new_pointer(pointee, pty.address_space)?)
             }
@@ -144,7 +154,7 @@ impl PartialType {
                 let field_types = sty
                     .field_types
                     .iter()
-                    .map(|fty| partials.resolve(fty))
+                    .map(|fty| partials.resolve(fty, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_struct(
@@ -154,20 +164,20 @@ impl PartialType {
                 )?)
             }
             PartialType::Array(aty) => {
-                let element_type = partials.resolve(&aty.element_type)?;
+                let element_type = partials.resolve(&aty.element_type, depth)?;
 
                 Ok(Type::new_array(aty.num_elements, element_type)?)
             }
             PartialType::FixedVector(vty) => {
                 log::debug!("vty: {:?}", vty);
 
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
                 log::debug!("element_type: {:?}", partials.get(&vty.element_type));
 
                 Ok(Type::new_vector(vty.num_elements, element_type)?)
             }
             PartialType::ScalableVector(vty) => {
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
 
                 Ok(Type::new_scalable_vector(vty.num_elements, element_type)?)
             }
@@ -245,14 +255,14 @@ impl PartialTypeTable {
     }
 
     /// Fallibly converts the given `TypeRef` into a fully owned `Type`.
-    fn resolve(&self, ty_ref: &TypeRef) -> Result<Type, TypeTableError> {
+    fn resolve(&self, ty_ref: &TypeRef, depth: usize) -> Result<Type, TypeTableError> {
         // `TypeRef` resolution happens in two steps: we grab the corresponding
         // `PartialType`, and then resolve its subtypes.
         let pty = self.get(ty_ref)?;
 
         log::debug!("type ref {} resolves to {:?}", ty_ref.0, pty);
 
-        pty.resolve(self)
+        pty.resolve(self, depth)
     }
 
     /// Fallibly converts this `PartialTypeTable` into a `TypeTable`.
@@ -266,7 +276,7 @@ impl PartialTypeTable {
         let types = self
             .inner
             .iter()
-            .map(|pty| pty.resolve(&self))
+            .map(|pty| pty.resolve(&self, 0))
             .collect::<Result<Vec<_>, _>>()?;
 
         Ok(TypeTable(types))
-- 
2.43.0


From 25b4f9b9e67c2eda90b8e08a97ebae5c0c3abb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 30/42] fix: COMDAT selection kinds were off by one from their
 encoding

---
 llvm-mapper/src/record/comdat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/record/comdat.rs b/llvm-mapper/src/record/comdat.rs
index 38a97ab..fcdaf8d 100644
--- a/llvm-mapper/src/record/comdat.rs
+++ b/llvm-mapper/src/record/comdat.rs
@@ -37,13 +37,13 @@ pub enum ComdatError {
 
 /// The different kinds of COMDAT selections.
 ///
-/// This is a nearly direct copy of LLVM's `SelectionKind`; see `IR/Comdat.h`.
+/// This is a nearly direct copy of LLVM's `ComdatSelectionKindCodes`; see `Bitcode/LLVMBitCodes.h`.
 #[non_exhaustive]
 #[derive(Debug, TryFromPrimitive)]
 #[repr(u64)]
 pub enum SelectionKind {
     /// The linker may choose any COMDAT.
-    Any,
+    Any = 1,
     /// The data referenced by the COMDAT must be the same.
     ExactMatch,
     /// The linker will choose the largest COMDAT.
-- 
2.43.0


From 64fa655adf359396142bccb5f42d59f9d69b8155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 31/42] fix: alias records have an address space before the
 aliasee

---
 llvm-mapper/src/record/alias.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/llvm-mapper/src/record/alias.rs b/llvm-mapper/src/record/alias.rs
index 4bad8d2..408648c 100644
--- a/llvm-mapper/src/record/alias.rs
+++ b/llvm-mapper/src/record/alias.rs
@@ -16,7 +16,7 @@ use crate::unroll::Record;
 #[derive(Debug, Error)]
 pub enum AliasError {
     /// The alias record is too short to be well-formed.
-    #[error("alias record too short: {0} < 5 fields")]
+    #[error("alias record too short: {0} < 6 fields")]
     TooShort(usize),
 
     /// The alias record is in an old unsupported format.
@@ -81,10 +81,10 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             return Err(AliasError::V1Unsupported);
         }
 
-        // Every alias record has at least 5 fields, corresponding to
-        // [strtab_offset, strtab_size, *v1], where v1 has 3 mandatory fields:
-        // [alias type, aliasee value#, linkage, ...]
-        if fields.len() < 5 {
+        // Every alias record has at least 6 fields, corresponding to
+        // [strtab_offset, strtab_size, *v1], where v1 has 4 mandatory fields:
+        // [alias type, addrspace, aliasee value#, linkage, ...]
+        if fields.len() < 6 {
             return Err(AliasError::TooShort(fields.len()));
         }
 
@@ -93,32 +93,33 @@ impl<'ctx> CtxMappable<'ctx, Record> for Alias<'ctx> {
             .type_table
             .get(fields[2])
             .ok_or(AliasError::Type(fields[2]))?;
-        let value_index = fields[3];
-        let linkage = Linkage::from(fields[4]);
+        // fields[3]: addrspace
+        let value_index = fields[4];
+        let linkage = Linkage::from(fields[5]);
 
         let visibility = fields
-            .get(5)
+            .get(6)
             .map_or_else(|| Ok(Visibility::Default), |v| Visibility::try_from(*v))?;
 
-        let storage_class = fields.get(6).map_or_else(
+        let storage_class = fields.get(7).map_or_else(
             || Ok(DllStorageClass::Default),
             |v| DllStorageClass::try_from(*v),
         )?;
 
         let tls_mode = fields
-            .get(7)
+            .get(8)
             .copied()
             .map(ThreadLocalMode::from)
             .unwrap_or(ThreadLocalMode::NotThreadLocal);
 
         let unnamed_addr = fields
-            .get(8)
+            .get(9)
             .copied()
             .map(UnnamedAddr::from)
             .unwrap_or(UnnamedAddr::None);
 
         let preemption_specifier = fields
-            .get(9)
+            .get(10)
             .copied()
             .map(RuntimePreemption::from)
             .unwrap_or(RuntimePreemption::DsoPreemptable);
-- 
2.43.0


From 64f4eaffb1db115d908f9cb7848673b6b939c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 32/42] fix: old attribute entries panicked instead of being
 refused

---
 llvm-mapper/src/block/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 0540dbb..dd1fd2b 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -484,7 +484,7 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
 
             match code {
                 AttributeCode::EntryOld => {
-                    unimplemented!();
+                    return Err(MapError::Unsupported("old attribute entry records".into()).into());
                 }
                 AttributeCode::Entry => {
                     let mut groups = vec![];
-- 
2.43.0


From 0308a82451908a625992548f727f2497d926b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 33/42] fix: function blocks panicked with "not implemented"
 instead of being refused

---
 llvm-mapper/src/block/function/mod.rs | 94 ++++++++++++++-------------
 1 file changed, 50 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 605ede3..7e98227 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -43,6 +43,11 @@ pub enum FunctionError {
     Map(#[from] MapError),
 }
 
+/// Returns an error for a function code that we recognize, but don't support yet.
+fn unsupported(code: FunctionCode) -> FunctionError {
+    MapError::Unsupported(format!("function record: {code:?}")).into()
+}
+
 /// Models the `MODULE_CODE_FUNCTION` record.
 #[non_exhaustive]
 #[derive(Debug)]
@@ -116,11 +121,11 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                 FunctionCode::DeclareBlocks => continue,
 
                 // Operand bundles.
-                FunctionCode::OperandBundle => unimplemented!(),
+                FunctionCode::OperandBundle => return Err(unsupported(code)),
 
                 // Debug state.
-                FunctionCode::DebugLoc => unimplemented!(),
-                FunctionCode::DebugLocAgain => unimplemented!(),
+                FunctionCode::DebugLoc => return Err(unsupported(code)),
+                FunctionCode::DebugLocAgain => return Err(unsupported(code)),
 
                 // The big one: all instructions.
                 FunctionCode::InstBinop => {
@@ -133,18 +138,18 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opval, opty, destty, castopc]
                     let [_opval, _opty, _destty, _castopc] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstGepOld => todo!(),
-                FunctionCode::InstSelect => todo!(),
-                FunctionCode::InstExtractelt => todo!(),
-                FunctionCode::InstInsertelt => todo!(),
-                FunctionCode::InstShufflevec => todo!(),
-                FunctionCode::InstCmp => todo!(),
-                FunctionCode::InstRet => todo!(),
-                FunctionCode::InstBr => todo!(),
-                FunctionCode::InstSwitch => todo!(),
-                FunctionCode::InstInvoke => todo!(),
-                FunctionCode::InstUnreachable => todo!(),
-                FunctionCode::InstPhi => todo!(),
+                FunctionCode::InstGepOld => return Err(unsupported(code)),
+                FunctionCode::InstSelect => return Err(unsupported(code)),
+                FunctionCode::InstExtractelt => return Err(unsupported(code)),
+                FunctionCode::InstInsertelt => return Err(unsupported(code)),
+                FunctionCode::InstShufflevec => return Err(unsupported(code)),
+                FunctionCode::InstCmp => return Err(unsupported(code)),
+                FunctionCode::InstRet => return Err(unsupported(code)),
+                FunctionCode::InstBr => return Err(unsupported(code)),
+                FunctionCode::InstSwitch => return Err(unsupported(code)),
+                FunctionCode::InstInvoke => return Err(unsupported(code)),
+                FunctionCode::InstUnreachable => return Err(unsupported(code)),
+                FunctionCode::InstPhi => return Err(unsupported(code)),
                 FunctionCode::InstAlloca => {
                     // [instty, opty, op, align]
                     let [_instty, _opty, _op, _align] = unpack_fields!(4)?;
@@ -153,49 +158,50 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opty, op, align, vol]
                     let [_opty, _op, _align, _vol] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstVaarg => todo!(),
-                FunctionCode::InstStoreOld => todo!(),
-                FunctionCode::InstExtractval => todo!(),
-                FunctionCode::InstInsertval => todo!(),
-                FunctionCode::InstCmp2 => todo!(),
-                FunctionCode::InstVselect => todo!(),
-                FunctionCode::InstInboundsGepOld => todo!(),
-                FunctionCode::InstIndirectbr => todo!(),
-                FunctionCode::InstCall => todo!(),
-                FunctionCode::InstFence => todo!(),
-                FunctionCode::InstCmpxchgOld => todo!(),
-                FunctionCode::InstAtomicrmwOld => todo!(),
-                FunctionCode::InstResume => todo!(),
-                FunctionCode::InstLandingpadOld => todo!(),
-                FunctionCode::InstLoadatomic => todo!(),
-                FunctionCode::InstStoreatomicOld => todo!(),
-                FunctionCode::InstGep => todo!(),
+                FunctionCode::InstVaarg => return Err(unsupported(code)),
+                FunctionCode::InstStoreOld => return Err(unsupported(code)),
+                FunctionCode::InstExtractval => return Err(unsupported(code)),
+                FunctionCode::InstInsertval => return Err(unsupported(code)),
+                FunctionCode::InstCmp2 => return Err(unsupported(code)),
+                FunctionCode::InstVselect => return Err(unsupported(code)),
+                FunctionCode::InstInboundsGepOld => return Err(unsupported(code)),
+                FunctionCode::InstIndirectbr => return Err(unsupported(code)),
+                FunctionCode::InstCall => return Err(unsupported(code)),
+                FunctionCode::InstFence => return Err(unsupported(code)),
+                FunctionCode::InstCmpxchgOld => return Err(unsupported(code)),
+                FunctionCode::InstAtomicrmwOld => return Err(unsupported(code)),
+                FunctionCode::InstResume => return Err(unsupported(code)),
+                FunctionCode::InstLandingpadOld => return Err(unsupported(code)),
+                FunctionCode::InstLoadatomic => return Err(unsupported(code)),
+                FunctionCode::InstStoreatomicOld => return Err(unsupported(code)),
+                FunctionCode::InstGep => return Err(unsupported(code)),
                 FunctionCode::InstStore => {
                     // [ptrty, ptr, valty, val, align, vol]
                     let [_ptrty, _ptr, _valty, _val] = unpack_fields!(4)?;
 
                     // NOTE: Two more optional fields: align and vol.
                 }
-                FunctionCode::InstStoreatomic => todo!(),
-                FunctionCode::InstCmpxchg => todo!(),
-                FunctionCode::InstLandingpad => todo!(),
-                FunctionCode::InstCleanupret => todo!(),
-                FunctionCode::InstCatchret => todo!(),
-                FunctionCode::InstCatchpad => todo!(),
-                FunctionCode::InstCleanuppad => todo!(),
-                FunctionCode::InstCatchswitch => todo!(),
+                FunctionCode::InstStoreatomic => return Err(unsupported(code)),
+                FunctionCode::InstCmpxchg => return Err(unsupported(code)),
+                FunctionCode::InstLandingpad => return Err(unsupported(code)),
+                FunctionCode::InstCleanupret => return Err(unsupported(code)),
+                FunctionCode::InstCatchret => return Err(unsupported(code)),
+                FunctionCode::InstCatchpad => return Err(unsupported(code)),
+                FunctionCode::InstCleanuppad => return Err(unsupported(code)),
+                FunctionCode::InstCatchswitch => return Err(unsupported(code)),
                 FunctionCode::InstUnop => {
                     // [opval, ty, opcode]
                     let [_opval, ty, opcode] = unpack_fields!(3)?;
                     let _ty = get_type!(ty)?;
                     let _opcode = UnaryOp::try_from(opcode)?;
                 }
-                FunctionCode::Instcallbr => todo!(),
-                FunctionCode::InstFreeze => todo!(),
-                FunctionCode::InstAtomicrmw => todo!(),
+                FunctionCode::Instcallbr => return Err(unsupported(code)),
+                FunctionCode::InstFreeze => return Err(unsupported(code)),
+                FunctionCode::InstAtomicrmw => return Err(unsupported(code)),
             }
         }
 
-        unimplemented!()
+        // TODO: Actually construct the function.
+        Err(MapError::Unsupported("function blocks".into()).into())
     }
 }
-- 
2.43.0


From 3e5dba500e3d2b9473944f870e40513dbede5dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 34/42] fix: the claimed number of basic blocks was allocated
 before reading them

---
 llvm-mapper/src/block/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 7e98227..a471351 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -63,7 +63,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
         // TODO: Handle each `MODULE_CODE_FUNCTION`'s sub-blocks.
 
         // A function block should have exactly one DECLAREBLOCKS record.
-        let nblocks = {
+        let _nblocks = {
             let declareblocks = block
                 .records
                 .exactly_one(FunctionCode::DeclareBlocks)
@@ -77,7 +77,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
 
         // Like the type table, we need a little bit of a state machine to
         // construct each function's basic blocks and constituent instructions.
-        let mut _bbs: Vec<BasicBlock> = Vec::with_capacity(nblocks as usize);
+        let mut _bbs: Vec<BasicBlock> = vec![];
         let mut _bb = BasicBlock::default();
 
         for record in block.records.into_iter() {
-- 
2.43.0


From d77fc00b58535b17e8d49409e8ff024d65c85023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 35/42] Guarded accessors for the mapper (cfg mollusc_verif)

---
 llvm-mapper/src/block/attributes.rs |  12 +++
 llvm-mapper/src/lib.rs              |   2 +
 llvm-mapper/src/unroll.rs           |  29 +++++++
 llvm-mapper/src/verif.rs            | 117 ++++++++++++++++++++++++++++
 4 files changed, 160 insertions(+)
 create mode 100644 llvm-mapper/src/verif.rs

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index dd1fd2b..8735991 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -607,3 +607,15 @@ impl TryFrom<&'_ Block> for AttributeGroups {
         Ok(AttributeGroups(groups))
     }
 }
+
+// Accessors for verification, which otherwise don't exist.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(mollusc_verif)]
+    impl super::AttributeEntry {
+        /// The attribute groups, in the order that they're listed.
+        pub fn verif_groups(&self) -> &[super::AttributeGroup] {
+            &self.0
+        }
+    }
+}
diff --git a/llvm-mapper/src/lib.rs b/llvm-mapper/src/lib.rs
index 32ce9e2..0d70915 100644
--- a/llvm-mapper/src/lib.rs
+++ b/llvm-mapper/src/lib.rs
@@ -11,5 +11,7 @@ pub mod error;
 pub mod map;
 pub mod record;
 pub mod unroll;
+#[allow(unexpected_cfgs)]
+mod verif;
 
 pub use unroll::Bitcode;
diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 9671753..931299e 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -504,6 +504,35 @@ pub struct BitcodeModule {
     pub symtab: Option<Symtab>,
 }
 
+// Accessors for verification, which otherwise don't exist.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(mollusc_verif)]
+    impl super::Record {
+        /// Creates a record.
+        pub fn verif_new(code: u64, fields: Vec<u64>) -> Self {
+            Self(super::BsRecord {
+                abbrev_id: None,
+                code,
+                fields,
+            })
+        }
+    }
+
+    #[cfg(mollusc_verif)]
+    impl super::Block {
+        /// Creates a block.
+        pub fn verif_new(id: u64, records: Vec<super::Record>, blocks: Vec<Self>) -> Self {
+            let mut new = Self::new(id);
+            new.records.0 = records;
+            for block in blocks {
+                new.blocks.0.entry(block.id).or_default().push(block);
+            }
+            new
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/llvm-mapper/src/verif.rs b/llvm-mapper/src/verif.rs
new file mode 100644
index 0000000..47839d6
--- /dev/null
+++ b/llvm-mapper/src/verif.rs
@@ -0,0 +1,117 @@
+//! Accessors for verification, which otherwise don't exist.
+
+#[cfg(mollusc_verif)]
+mod accessors {
+    use std::convert::TryFrom;
+
+    use crate::block::{
+        AttributeEntry, AttributeError, AttributeGroup, AttributeGroups, Attributes,
+    };
+    use crate::block::{Module, ModuleError, Strtab, TypeTable};
+    use crate::map::{CtxMappable, MapCtx, PartialCtxMappable, PartialMapCtx};
+    use crate::record::{
+        Alias, AliasError, Comdat, ComdatError, DataLayout, Function, FunctionError,
+    };
+    use crate::unroll::{Block, Record};
+
+    impl TypeTable {
+        /// The type with the given index.
+        pub fn verif_get(&self, idx: u64) -> Option<&llvm_support::Type> {
+            self.get(idx)
+        }
+    }
+
+    impl AttributeGroups {
+        /// The attribute group with the given ID.
+        pub fn verif_get(&self, id: u32) -> Option<&AttributeGroup> {
+            self.get(id)
+        }
+    }
+
+    impl Attributes {
+        /// Maps a `PARAMATTR_BLOCK`.
+        pub fn verif_map(block: &Block, groups: AttributeGroups) -> Result<Self, AttributeError> {
+            let mut ctx = PartialMapCtx::default();
+            ctx.attribute_groups = groups;
+            Attributes::try_from((block, &ctx))
+        }
+
+        /// The attribute entry with the given index.
+        pub fn verif_get(&self, id: u64) -> Option<&AttributeEntry> {
+            self.get(id)
+        }
+    }
+
+    impl Comdat {
+        /// Maps a COMDAT record.
+        pub fn verif_map(
+            record: &Record,
+            version: Option<u64>,
+            strtab: Strtab,
+        ) -> Result<Self, ComdatError> {
+            let mut ctx = PartialMapCtx::default();
+            ctx.version = version;
+            ctx.strtab = strtab;
+            Comdat::try_map(record, &mut ctx)
+        }
+    }
+
+    impl<'ctx> Function<'ctx> {
+        /// Maps a function record.
+        pub fn verif_map(record: &Record, ctx: &'ctx MapCtx) -> Result<Self, FunctionError> {
+            Function::try_map(record, ctx)
+        }
+    }
+
+    impl<'ctx> Alias<'ctx> {
+        /// Maps an alias record.
+        pub fn verif_map(record: &Record, ctx: &'ctx MapCtx) -> Result<Self, AliasError> {
+            Alias::try_map(record, ctx)
+        }
+    }
+
+    impl Module {
+        /// Maps a module, and hands over the context that its records were mapped in.
+        pub fn verif_map(
+            block: &Block,
+            strtab: Strtab,
+            see: impl FnOnce(&MapCtx),
+        ) -> Result<Self, ModuleError> {
+            let mut ctx = PartialMapCtx::default();
+            ctx.strtab = strtab;
+            let module = Module::try_from((block, &mut ctx))?;
+            if let Ok(ctx) = ctx.reify() {
+                see(&ctx);
+            }
+            Ok(module)
+        }
+    }
+
+    impl<'ctx> MapCtx<'ctx> {
+        /// Creates a context out of its parts.
+        #[allow(clippy::too_many_arguments)]
+        pub fn verif_new(
+            version: u64,
+            datalayout: &'ctx DataLayout,
+            section_table: &'ctx [String],
+            gc_table: &'ctx [String],
+            strtab: &'ctx Strtab,
+            attribute_groups: &'ctx AttributeGroups,
+            attributes: &'ctx Attributes,
+            type_table: &'ctx TypeTable,
+            comdats: &'ctx [Comdat],
+        ) -> Self {
+            MapCtx {
+                version,
+                datalayout,
+                section_table,
+                gc_table,
+                strtab,
+                attribute_groups,
+                attributes,
+                type_table,
+                comdats,
+            }
+        }
+    }
+}
-- 
2.43.0


From d889cbf24955df4998383928465127a76d8537af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 36/42] fix: deeply nested types and blocks overflowed the
 stack

---
 llvm-mapper/src/block/type_table.rs |  8 ++++++++
 llvm-mapper/src/unroll.rs           | 13 +++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index bece29a..15fedc8 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -61,6 +61,9 @@ pub enum TypeTableError {
     Map(#[from] MapError),
 }
 
+/// The greatest depth to which types can be nested.
+const MAX_TYPE_DEPTH: usize = 256;
+
 /// A symbolic type reference, which is really just an index into some
 /// unspecified type table.
 #[derive(Debug)]
@@ -119,6 +122,11 @@ impl PartialType {
             return Err(MapError::Unsupported("recursive type in type table".into()).into());
         }
 
+        // Resolving a type is recursive, so its nesting must not exhaust the stack.
+        if depth > MAX_TYPE_DEPTH {
+            return Err(MapError::Unsupported("type nested too deeply".into()).into());
+        }
+
         match self {
             PartialType::Half => Ok(Type::Half),
             PartialType::BFloat => Ok(Type::BFloat),
diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 931299e..47a7e78 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -15,6 +15,9 @@ use crate::error::Error;
 use crate::map::PartialMapCtx;
 use crate::record::{RecordBlobError, RecordStringError};
 
+/// The greatest depth to which blocks can be nested. LLVM itself only ever nests a few.
+const MAX_BLOCK_DEPTH: usize = 256;
+
 /// An "unrolled" record. This is internally indistinguishable from a raw bitstream
 /// [`Record`](llvm_bitstream::record::Record), but is newtyped to enforce proper
 /// isolation of concerns.
@@ -266,7 +269,13 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
         fn enter_block<T: AsRef<[u8]>>(
             bitstream: &mut Bitstream<T>,
             block: BsBlock,
+            depth: usize,
         ) -> Result<Block, Error> {
+            // Unrolling is recursive, so the nesting of blocks must not exhaust the stack.
+            if depth > MAX_BLOCK_DEPTH {
+                return Err(Error::Unroll("blocks nested too deeply".into()));
+            }
+
             let mut unrolled_block = Block::new(block.block_id);
 
             // Once we're in a block, we do the following:
@@ -283,7 +292,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 match entry? {
                     StreamEntry::Record(record) => unrolled_block.records.0.push(Record(record)),
                     StreamEntry::SubBlock(block) => {
-                        let unrolled_child = enter_block(bitstream, block)?;
+                        let unrolled_child = enter_block(bitstream, block, depth + 1)?;
                         unrolled_block
                             .blocks
                             .0
@@ -325,7 +334,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                     Error::Unroll("bitstream has non-blocks at the top-level scope".into())
                 })?;
 
-                enter_block(&mut bitstream, block)?
+                enter_block(&mut bitstream, block, 1)?
             };
 
             // Our top-level block can be one of four cases, if it's valid.
-- 
2.43.0


From 457db1b2e9b0da6f514148f1f20ba2f3183be2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 37/42] fix: zero-width fields were refused on use instead of
 being zero

---
 llvm-bitstream/src/abbrev.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 6284022..47decbf 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -169,8 +169,16 @@ impl Abbrev {
             // operand encoding includes extra data.
             let enc: AbbrevOpEnc = cur.read(3)?.try_into()?;
             let opnd = match enc {
-                AbbrevOpEnc::Fixed => AbbrevOp::Fixed(cur.read_vbr(5)?),
-                AbbrevOpEnc::Vbr => AbbrevOp::Vbr(cur.read_vbr(5)?),
+                // Like LLVM, treat fields without any bits as a literal zero. LLVM emits
+                // these when everything that it would encode in the field is zero.
+                AbbrevOpEnc::Fixed => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Fixed(width),
+                },
+                AbbrevOpEnc::Vbr => match cur.read_vbr(5)? {
+                    0 => AbbrevOp::Literal(0),
+                    width => AbbrevOp::Vbr(width),
+                },
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-- 
2.43.0


From 675b4669675d99f689b47f5de9fc2c7389968552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 38/42] fix: any character was taken for the separator of a
 non-integral address space spec

---
 llvm-mapper/src/record/datalayout.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index ec771eb..c8325fb 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -232,7 +232,13 @@ impl FromStr for DataLayout {
                                             }
                                         })
                                 })
-                                .collect::<Result<_, _>>()?
+                                .collect::<Result<_, _>>()?;
+
+                            if !body.starts_with("i:") {
+                                return Err(DataLayoutError::BadSpecParse(
+                                    "bad separator for non-integral spec".into(),
+                                ));
+                            }
                         }
                         Some(_) => {
                             datalayout.native_integer_widths = body
-- 
2.43.0


From 0bb3abba4a434cdfa0b8b25913c7383b9985859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 39/42] fix: text after the mangling kind in a datalayout was
 ignored

---
 llvm-mapper/src/record/datalayout.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index c8325fb..38e559a 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -168,7 +168,7 @@ impl FromStr for DataLayout {
                 'm' => {
                     // The mangling spec is `m:X`, where `X` is the mangling kind.
                     // We've already parsed `m`, so we expect exactly two characters.
-                    let mut mangling = body.chars().take(2);
+                    let mut mangling = body.chars();
                     match mangling.next() {
                         Some(':') => {}
                         Some(u) => {
@@ -205,6 +205,12 @@ impl FromStr for DataLayout {
                         }
                     };
 
+                    if mangling.next().is_some() {
+                        return Err(DataLayoutError::BadSpecParse(
+                            "unexpected text after mangling kind".into(),
+                        ));
+                    }
+
                     datalayout.mangling = Some(kind);
                 }
                 'n' => {
-- 
2.43.0


From f32b7692763b998340420ff55daf256692d56741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 40/42] fix: a native integer width of zero was accepted

---
 llvm-mapper/src/record/datalayout.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 38e559a..10f2d71 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -249,7 +249,12 @@ impl FromStr for DataLayout {
                         Some(_) => {
                             datalayout.native_integer_widths = body
                                 .split(':')
-                                .map(|s| s.parse::<u32>())
+                                .map(|s| match s.parse::<u32>()? {
+                                    0 => Err(DataLayoutError::BadSpecParse(
+                                        "native integer width cannot be zero".into(),
+                                    )),
+                                    width => Ok(width),
+                                })
                                 .collect::<Result<_, _>>()?;
                         }
                         None => {
-- 
2.43.0


From 48a3f27590d0d47564ff1bade560c4f5042d228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 41/42] fix: the aggregate alignment of a datalayout kept its
 default

---
 llvm-mapper/src/record/datalayout.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index 10f2d71..7c8c12f 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -5,7 +5,7 @@ use std::num::ParseIntError;
 use std::str::FromStr;
 
 use llvm_support::{
-    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, Endian,
+    AddressSpace, AddressSpaceError, Align, AlignError, AlignSpecError, AlignedType, Endian,
     FunctionPointerAlign, Mangling, PointerAlignSpec, PointerAlignSpecs, TypeAlignSpec,
     TypeAlignSpecs,
 };
@@ -138,6 +138,9 @@ impl FromStr for DataLayout {
                 'i' | 'v' | 'f' | 'a' => {
                     // Pass the entire spec in here, since we need the spec identifier as well.
                     let align_spec = spec.parse::<TypeAlignSpec>()?;
+                    if align_spec.aligned_type == AlignedType::Aggregate {
+                        datalayout.aggregate_alignment = align_spec.abi_alignment;
+                    }
                     datalayout.type_alignments.update(align_spec);
                 }
                 'F' => match body.chars().next() {
-- 
2.43.0


From 6eea092a1d1912ac090407c3c03ba5ff831e806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 42/42] fix: a function block that declares zero basic blocks
 was not refused for it

---
 llvm-mapper/src/block/function/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index a471351..6f5b9d1 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -72,6 +72,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
             *declareblocks
                 .fields()
                 .first()
+                .filter(|n| **n != 0)
                 .ok_or(FunctionError::InvalidBlockCount)?
         };
 
-- 
2.43.0

