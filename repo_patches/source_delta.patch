From 86386110bd01eaed417016d4113083d31ed07eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:36 +0000
Subject: [PATCH 01/30] fix: buffered PacketHeader::try_read consumed the
 header twice

---
 brec/src/packet/header/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 3ddd873..70a356c 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -145,8 +145,8 @@ impl TryReadFromBuffered for PacketHeader {
             ));
         }
 
-        let header = ReadStatus::Success(PacketHeader::read(reader)?);
+        let header = PacketHeader::read_from_slice(bytes, false)?;
         reader.consume(PacketHeader::ssize() as usize);
-        Ok(header)
+        Ok(ReadStatus::Success(header))
     }
 }
-- 
2.43.0


From c8396c60d90901b9f6295f1eb6e3ffe803981ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:13 +0000
Subject: [PATCH 02/30] fix: PacketHeader::try_read moved the source position
 when the header was rejected

---
 brec/src/packet/header/read.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 70a356c..73768c8 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -120,7 +120,13 @@ impl TryReadFrom for PacketHeader {
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - len));
         }
 
-        Ok(ReadStatus::Success(PacketHeader::read(buf)?))
+        match PacketHeader::read(buf) {
+            Ok(header) => Ok(ReadStatus::Success(header)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
-- 
2.43.0


From 77a3f98e21180b9bc439e108964879d33b82371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:13 +0000
Subject: [PATCH 03/30] fix: packet try_read miscounted the missing bytes and
 did not restore the position

---
 brec/src/packet/read.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3e68fd6..5b1dfdc 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -88,7 +88,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
             ReadStatus::Success(header) => header,
         };
+        let available = available - PacketHeader::ssize();
         if header.size > available {
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
             return Ok(ReadStatus::NotEnoughData(header.size - available));
         }
         let mut pkg = PacketDef::default();
@@ -121,8 +123,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFrom>::try_read(buf)? {
-                ReadStatus::Success(header) => {
+            match <PayloadHeader as TryReadFrom>::try_read(buf) {
+                Ok(ReadStatus::Success(header)) => {
                     match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
@@ -137,10 +139,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                         }
                     }
                 }
-                ReadStatus::NotEnoughData(needed) => {
+                Ok(ReadStatus::NotEnoughData(needed)) => {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::NotEnoughData(needed as usize));
                 }
+                Err(err) => {
+                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                    return Err(err);
+                }
             }
         }
         Ok(ReadStatus::Success(pkg))
-- 
2.43.0


From 8a591baff6a05deee1a33005bf5d52f3390af255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:13 +0000
Subject: [PATCH 04/30] fix: buffered packet try_read miscounted the missing
 bytes and consumed the header

---
 brec/src/packet/read.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 5b1dfdc..cf8debf 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -183,6 +183,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - available));
         }
         let header = PacketHeader::read_from_slice(bytes, false)?;
+        let available = available - PacketHeader::ssize();
         if header.size > available {
             return Ok(ReadStatus::NotEnoughData(header.size - available));
         }
-- 
2.43.0


From 38a5e68360fc1d8b6cc05b6fa210f6466524f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:13 +0000
Subject: [PATCH 05/30] fix: block try_read moved the source position without
 reading a block

---
 brec_macros/src/codegen/read/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 504afd7..2a0d966 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -155,9 +155,16 @@ impl TryRead for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
                     if len < #block_name::ssize() {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
-                    Ok(brec::ReadStatus::Success(#block_name::read(buf, true)?))
+                    match #block_name::read(buf, true) {
+                        Ok(blk) => Ok(brec::ReadStatus::Success(blk)),
+                        Err(err) => {
+                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                            Err(err)
+                        }
+                    }
                 }
             }
         })
-- 
2.43.0


From 9ace4686acbb778dc16448819ca143767aea7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 06/30] fix: PayloadHeader::try_read moved the source position
 on an invalid length byte

---
 brec/src/payload/header/read.rs    | 10 ++++++++--
 brec/src/payload/header/sreader.rs |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/brec/src/payload/header/read.rs b/brec/src/payload/header/read.rs
index 2414c15..46701a0 100644
--- a/brec/src/payload/header/read.rs
+++ b/brec/src/payload/header/read.rs
@@ -64,7 +64,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(sig_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(sig_len) {
+            reader.rewind()?;
+            return Err(err);
+        }
         let sig = match reader.next_bytes(sig_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
@@ -75,7 +78,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(crc_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(crc_len) {
+            reader.rewind()?;
+            return Err(err);
+        }
         let crc = match reader.next_bytes(crc_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index efa8ef0..2032351 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -63,6 +63,13 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
         })
     }
 
+    /// Restores the stream position captured at construction.
+    pub fn rewind(&mut self) -> Result<(), Error> {
+        self.buf.seek(std::io::SeekFrom::Start(self.spos))?;
+        self.read = 0;
+        Ok(())
+    }
+
     /// Attempts to read a single `u8` from the stream.
     ///
     /// If insufficient data is available, resets the stream and returns
-- 
2.43.0


From c683093dadb9a61689cd82b6a6a7a9bc32a2d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 07/30] fix: Slot::try_read computed the missing bytes with an
 underflow

---
 brec/src/storage/slot/read.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 09da083..d36f3d8 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -68,12 +68,13 @@ impl TryReadFrom for Slot {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
         };
 
-        let needed = SlotHeader::ssize()
-            + header.capacity * std::mem::size_of::<u64>() as u64
-            + std::mem::size_of::<u32>() as u64;
+        let needed = header
+            .capacity
+            .saturating_mul(std::mem::size_of::<u64>() as u64)
+            .saturating_add(SlotHeader::ssize() + std::mem::size_of::<u32>() as u64);
         if len < needed {
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-            return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - needed));
+            return Ok(ReadStatus::NotEnoughData(needed - len));
         }
 
         let mut lenghts = Vec::with_capacity(header.capacity as usize);
-- 
2.43.0


From 91af877e8efba3d31b8612863b0cda76994d8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 08/30] fix: SlotHeader::try_read reported the header size
 instead of the missing bytes

---
 brec/src/storage/slot/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index f1d8114..1feda51 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -64,7 +64,7 @@ impl TryReadFrom for SlotHeader {
         let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < SlotHeader::ssize() {
-            return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize()));
+            return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize() - len));
         }
 
         let mut sig = [0u8; 8];
-- 
2.43.0


From 1f4243f82f6eb6aa024309bdfd32b83e52990ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 09/30] fix: Slot::read aborted on a corrupted capacity instead
 of returning an error

---
 brec/src/storage/slot/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index d36f3d8..7dde219 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -21,7 +21,7 @@ impl ReadFrom for Slot {
     {
         let header = SlotHeader::read(buf)?;
 
-        let mut lenghts = Vec::with_capacity(header.capacity as usize);
+        let mut lenghts = Vec::new();
         for _ in 0..header.capacity {
             let mut packet_len = [0u8; 8usize];
             buf.read_exact(&mut packet_len)?;
-- 
2.43.0


From a7d433c717294670f898fb5b1737b8a5d9be1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 10/30] fix: FreeSlotLocator::setup accumulated the slot offset
 when called again

---
 brec/src/storage/locator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brec/src/storage/locator.rs b/brec/src/storage/locator.rs
index 6eb3e82..279d562 100644
--- a/brec/src/storage/locator.rs
+++ b/brec/src/storage/locator.rs
@@ -62,6 +62,7 @@ impl FreeSlotLocator {
 
     pub fn setup<'a, I: Iterator<Item = &'a Slot>>(&mut self, slots: I) {
         self.next = 0;
+        self.slot_offset = 0;
         for slot in slots {
             if slot.get_free_slot_offset().is_some() {
                 break;
-- 
2.43.0


From 9b86d9c9e1d45d13b9d5e65264a8ae659419137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 11/30] fix: Reader::seek lost the offset of the slots
 following the found one

---
 brec/src/storage/reader/iters.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 3b14d35..8c4ef56 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -47,10 +47,12 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
-            return Ok(RangeInclusive::new(
+            let location = RangeInclusive::new(
                 self.offset + slot.size() + packet_offset,
                 self.offset + slot.size() + slot.width(),
-            ));
+            );
+            self.offset += slot.size() + slot.width();
+            return Ok(location);
         }
         if count == 0 {
             Err(Error::EmptySource)
-- 
2.43.0


From d1e5002c94c6e45c6572fc7e1fd0ccb38bcc988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 12/30] fix: Reader::reload reported a wrong number of new
 packets across slots

---
 brec/src/storage/reader/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 15dfb84..92988fd 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -164,14 +164,19 @@ impl<
             (Some((_, index, _)), false, Some(last)) => {
                 // Last slot has been updated, but no new slot has been added
                 DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                    + last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count) * DEFAULT_SLOT_CAPACITY
+                    + last
+                        .inner
+                        .get_free_slot_index()
+                        .unwrap_or(DEFAULT_SLOT_CAPACITY)
+                    + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
             }
             (None, false, Some(last)) => {
                 // In cases:
                 // - No last slot, but new slots have been added
                 // - Last slot is full, but new slots have been added
-                last.inner.get_free_slot_index().unwrap_or(0)
+                last.inner
+                    .get_free_slot_index()
+                    .unwrap_or(DEFAULT_SLOT_CAPACITY)
                     + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
             }
             _ => 0,
-- 
2.43.0


From 2375f81747066ca3d2393d19e47bcb9d76b00acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 13/30] fix: packet readers accepted one block more than
 MAX_BLOCKS_COUNT

---
 brec/src/packet/read.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index cf8debf..2043a5a 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -43,7 +43,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
@@ -116,7 +116,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::MaxBlocksCount);
                 }
@@ -206,7 +206,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
-- 
2.43.0


From 9efa286e17c278a7be730ce05bbca01f0b8041ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:45 +0000
Subject: [PATCH 14/30] fix: Reader::reload replaced the last known slot with
 the one following it

---
 brec/src/storage/reader/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 92988fd..d7e055f 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -96,13 +96,16 @@ impl<
             }
         };
         let count = self.slots.len();
+        // The last known slot is re-read once; everything after it is a new slot
+        let mut refreshed = false;
         loop {
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     if let Some((_, _, crc)) = last
-                        && self.slots.len() == count
+                        && !refreshed
                     {
+                        refreshed = true;
                         if crc == slot.crc {
                             return Ok(0);
                         }
-- 
2.43.0


From 9498261c6120ac38ae6f5e0f5c2c701cb4d14637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 15/30] fix: BufferedReader::refill dropped the bytes it had
 already preloaded

---
 brec/src/traits/read/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index b084427..e444a2a 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -143,8 +143,10 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
     /// buffered_reader.refill()?;
     /// ```
     pub fn refill(&mut self) -> std::io::Result<()> {
-        self.buffer = self.inner.fill_buf()?.to_vec();
-        self.inner.consume(self.buffer.len());
+        let inner = self.inner.fill_buf()?;
+        let len = inner.len();
+        self.buffer.extend_from_slice(inner);
+        self.inner.consume(len);
         Ok(())
     }
 
-- 
2.43.0


From 7d724827a2c8f8dce1b63c1327b1bb118a9ee5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 16/30] fix: BufferedReader::consume miscounted a consume that
 spans the preloaded bytes

---
 brec/src/traits/read/reader.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index e444a2a..0193932 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -226,18 +226,10 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
             return;
         }
 
+        self.consumed += amt;
         amt -= buf_len;
         self.buffer.clear();
-
-        if amt <= self.inner_len {
-            self.inner.consume(amt);
-            self.inner_len -= amt;
-            self.consumed += amt;
-        } else {
-            let leftover = amt - self.inner_len;
-            self.inner_len = 0;
-            self.inner.consume(leftover);
-            self.consumed += leftover;
-        }
+        self.inner_len = self.inner_len.saturating_sub(amt);
+        self.inner.consume(amt);
     }
 }
-- 
2.43.0


From 279e4124f394a0212c1c9a481529d482dfee1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 17/30] fix: BufferedReader::read lost the preloaded bytes when
 the inner reader failed

---
 brec/src/traits/read/reader.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index 0193932..14a57fb 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -175,9 +175,8 @@ impl<R: std::io::BufRead> std::io::Read for BufferedReader<'_, R> {
             self.buffer.drain(..to_copy);
             total_read += to_copy;
         }
-        if total_read < buf.len() {
-            let from_inner = self.inner.read(&mut buf[total_read..])?;
-            total_read += from_inner;
+        if total_read == 0 {
+            total_read = self.inner.read(buf)?;
         }
         self.consumed += total_read;
         Ok(total_read)
-- 
2.43.0


From a5e345a2844528c273b6813f33bc240f2867f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:20 +0000
Subject: [PATCH 18/30] fix: PacketBufReader stayed forever on a packet header
 with a broken CRC

---
 brec/src/packet/reader.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 07a98db..0f71102 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -303,7 +303,17 @@ impl<
                     self.inner.consume(available);
                     return Ok(NextPacket::NotEnoughData(needed));
                 }
-                match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer)? {
+                let state = match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer) {
+                    Ok(state) => state,
+                    Err(err) => {
+                        // Skip signature of the broken header. Otherwise reader would stay on it
+                        let skip = PacketHeader::get_pos(buffer).unwrap_or(0) + PACKET_SIG.len();
+                        self.rules.ignore(&buffer[..skip])?;
+                        self.inner.consume(skip);
+                        return Err(err);
+                    }
+                };
+                match state {
                     PacketHeaderState::NotFound => {
                         let header_len = PacketHeader::ssize() as usize;
                         if available > header_len {
-- 
2.43.0


From 1811a4b6a1465edcc8b79b3fcac059acc7ff87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:20 +0000
Subject: [PATCH 19/30] fix: PacketBufReader stayed forever on a packet with a
 broken payload or too many blocks

---
 brec/src/packet/reader.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 0f71102..f574e75 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -377,8 +377,7 @@ impl<
         if !blocks_buffer.is_empty() {
             loop {
                 if count == MAX_BLOCKS_COUNT {
-                    self.buffered.clear();
-                    return Err(Error::MaxBlocksCount);
+                    return self.drop_and_consume(consume, Err(Error::MaxBlocksCount));
                 }
                 let blk = match BR::read_from_slice(&blocks_buffer[processed..], false) {
                     Ok(blk) => blk,
@@ -414,12 +413,15 @@ impl<
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
                         &header,
-                    )? {
-                        ReadStatus::Success(payload) => PacketDef::new(
+                    ) {
+                        Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
                             Some(payload),
                         ),
-                        ReadStatus::NotEnoughData(needed) => {
+                        Err(err) => {
+                            return self.drop_and_consume(consume, Err(err));
+                        }
+                        Ok(ReadStatus::NotEnoughData(needed)) => {
                             // This is error, but not NextPacket::NotEnoughData because length of payload
                             // already has been check. If we are here - some data is invalid and
                             // it's an error
-- 
2.43.0


From c3b183dc59d9e9c24993da95d48ef1ae8333826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:20 +0000
Subject: [PATCH 20/30] fix: PacketBufReader panicked on a header declaring
 inconsistent lengths

---
 brec/src/packet/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index f574e75..9dfc524 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -346,7 +346,7 @@ impl<
                             self.rules.ignore(&buffer[..*sgmt.start()])?;
                         }
                         let packet_size = header.size as usize;
-                        let needs = packet_size + *sgmt.end();
+                        let needs = packet_size.saturating_add(*sgmt.end());
                         if needs > available {
                             // Not enough data to load packet
                             self.buffered.extend_from_slice(&buffer[*sgmt.end()..]);
@@ -370,6 +370,9 @@ impl<
             }
         };
         let blocks_len = header.blocks_len as usize;
+        if blocks_len > packet_buffer.len() {
+            return self.drop_and_consume(consume, Err(Error::NotEnoughData(blocks_len)));
+        }
         let blocks_buffer = &packet_buffer[..blocks_len];
         let mut blocks = Vec::new();
         let mut processed = 0;
-- 
2.43.0


From 28f011581c17a12d092560edfa055f79efb65ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:20 +0000
Subject: [PATCH 21/30] fix: PacketBufReader lost a short packet which ends the
 stream after litter

---
 brec/src/packet/reader.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 9dfc524..cb79127 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -245,7 +245,8 @@ impl<
                     buffer.drain(..(buffer.len() - header_len));
                 }
                 self.inner.consume(extracted_len);
-                self.recent = HeaderReadState::Refill(Some((buffer, header_len)));
+                self.recent =
+                    HeaderReadState::Refill(Some((buffer, header_len - PACKET_SIG.len())));
                 Ok(NextPacket::NotFound)
             }
         }
@@ -320,11 +321,13 @@ impl<
                             self.rules.ignore(&buffer[..available - header_len])?;
                             self.recent = HeaderReadState::Refill(Some((
                                 buffer[available - header_len..].to_vec(),
-                                header_len,
+                                header_len - PACKET_SIG.len(),
                             )));
                         } else {
-                            self.recent =
-                                HeaderReadState::Refill(Some((buffer.to_vec(), header_len)));
+                            self.recent = HeaderReadState::Refill(Some((
+                                buffer.to_vec(),
+                                header_len - PACKET_SIG.len(),
+                            )));
                         }
                         self.inner.consume(available);
                         return Ok(NextPacket::NotFound);
-- 
2.43.0


From c8478917d5cd8923cb1720191427c3005870f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:20 +0000
Subject: [PATCH 22/30] fix: PacketBufReader never reported NoData on a stream
 truncated inside a packet

---
 brec/src/packet/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index cb79127..6c7aa0d 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -165,6 +165,10 @@ impl<
             self.buffered.extend_from_slice(buffer);
             self.inner.consume(consumed);
             self.recent = HeaderReadState::Ready(Some(header));
+            if consumed == 0 {
+                // Source is exhausted in the middle of packet
+                return Ok(ResolveHeaderReady::Next(NextPacket::NoData));
+            }
             return Ok(ResolveHeaderReady::Next(NextPacket::NotEnoughData(
                 packet_size - available,
             )));
-- 
2.43.0


From 30e4fa0cef4c066411b44f07d75891d668721844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:05 +0000
Subject: [PATCH 23/30] fix: storage iterators panicked on a truncated storage

---
 brec/src/storage/reader/iters.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 8c4ef56..1ff5dfa 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -137,7 +137,7 @@ impl<
             .seek(std::io::SeekFrom::Start(*location.start()))?;
         let size = (location.end() - location.start()) as usize;
         let mut inner = vec![0u8; size];
-        self.source.read_exact(&mut inner).unwrap();
+        self.source.read_exact(&mut inner)?;
         self.buffer = Cursor::new(inner);
         Ok(self)
     }
@@ -170,7 +170,9 @@ impl<
             }
             let size = (location.end() - location.start()) as usize;
             let mut inner = vec![0u8; size];
-            self.source.read_exact(&mut inner).unwrap();
+            if let Err(err) = self.source.read_exact(&mut inner) {
+                return Some(Err(err.into()));
+            }
             self.buffer = Cursor::new(inner);
         }
         match <PacketDef<B, P, Inner> as ReadFrom>::read(&mut self.buffer) {
@@ -263,7 +265,9 @@ impl<
                 }
                 let size = (location.end() - location.start()) as usize;
                 let mut inner = vec![0u8; size];
-                self.source.read_exact(&mut inner).unwrap();
+                if let Err(err) = self.source.read_exact(&mut inner) {
+                    return Some(Err(err.into()));
+                }
                 self.buffer = Cursor::new(inner);
             }
             match PacketDef::filtered(&mut self.buffer, self.rules) {
-- 
2.43.0


From 0b1d8bf444d2207ef04625263728045afb2942f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:05 +0000
Subject: [PATCH 24/30] fix: Block::read consumed the signature once per known
 block type

---
 brec_macros/src/collector/blocks/read.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 8a46740..f247f72 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -9,7 +9,7 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, false) {
+            match <#fullpath as brec::ReadBlockFrom>::read(&mut std::io::Read::chain(&sig[..], &mut *buf), false) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -25,6 +25,9 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // Signature is taken from the source once and offered to each block
+                let mut sig = [0u8; #BLOCK_SIG_LEN];
+                buf.read_exact(&mut sig)?;
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
@@ -54,6 +57,9 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                if !skip_sig {
+                    return <Block as brec::ReadFrom>::read(buf);
+                }
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
-- 
2.43.0


From 0b633bceddb57afc0383acf49e1fb7a57b0162db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:05 +0000
Subject: [PATCH 25/30] fix: read_from_slice with skip_sig decoded fields from
 shifted offsets

---
 brec_macros/src/codegen/read/block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 2a0d966..9ad7305 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -68,7 +68,15 @@ impl ReadFromSlice for Block {
                     } else {
                         <&[u8; #BLOCK_SIG_LEN]>::try_from(&#src[0usize..#BLOCK_SIG_LEN])?
                     };
+                    // Offsets of all following fields are counted from the end of signature
+                    let #src = if skip_sig {
+                        #src
+                    } else {
+                        &#src[#BLOCK_SIG_LEN..]
+                    };
                 });
+                fnames.push(format_ident!("{}", field.name));
+                continue;
             } else if field.name == FIELD_CRC {
                 let name = format_ident!("{}", FIELD_CRC);
                 fields.push(quote! {
-- 
2.43.0


From e26e7a53966c1df5cef65723ea72fd8c44048ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:05 +0000
Subject: [PATCH 26/30] fix: referred blocks decoded a bool differently from
 owned blocks

---
 brec_macros/src/tokenized/block/from_bytes/ty/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs b/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
index 80823ad..70ad119 100644
--- a/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
+++ b/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
@@ -26,7 +26,7 @@ impl FromBytes for Ty {
             }
             Ty::Bool => {
                 quote! {
-                   u8::from_le_bytes(#src[#from..#to].try_into()?) == 1
+                   u8::from_le_bytes(#src[#from..#to].try_into()?) != 0
                 }
             }
             Ty::Blob(len) => quote! {
-- 
2.43.0


From c504661b9f7cb7561a67cd2ae4b1729546fe0088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 27/30] fix: try_read panicked on a position behind the end of
 the source

---
 brec/src/packet/header/read.rs        | 2 +-
 brec/src/packet/read.rs               | 2 +-
 brec/src/payload/header/sreader.rs    | 2 +-
 brec/src/storage/slot/header.rs       | 2 +-
 brec/src/storage/slot/read.rs         | 2 +-
 brec/src/traits/read/mod.rs           | 2 +-
 brec_macros/src/codegen/read/block.rs | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 73768c8..c15df39 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -113,7 +113,7 @@ impl TryReadFrom for PacketHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         if len < PacketHeader::ssize() {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 2043a5a..66bc40d 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -82,7 +82,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let available = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let available = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         let header = match <PacketHeader as TryReadFrom>::try_read(buf)? {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index 2032351..bd9a727 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -53,7 +53,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
     /// An initialized reader wrapper ready for safe, incremental reads.
     pub fn new(buf: &'a mut T) -> Result<Self, Error> {
         let spos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - spos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(spos);
         buf.seek(std::io::SeekFrom::Start(spos))?;
         Ok(Self {
             spos,
diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index 1feda51..b4b96af 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -61,7 +61,7 @@ impl TryReadFrom for SlotHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < SlotHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize() - len));
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 7dde219..c893f92 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -60,7 +60,7 @@ impl TryReadFrom for Slot {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         let header = match SlotHeader::try_read(buf)? {
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index b5e9ec1..2425514 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -113,7 +113,7 @@ pub trait TryReadPayloadFrom<
         header: &PayloadHeader,
     ) -> Result<ReadStatus<T>, Error> {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < header.payload_len() as u64 {
             return Ok(ReadStatus::NotEnoughData(header.payload_len() as u64 - len));
diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 9ad7305..c1bee18 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -151,7 +151,7 @@ impl TryRead for Block {
                     use brec::prelude::*;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
-                    let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+                    let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
 
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     if len < #sig_len {
-- 
2.43.0


From 1a3c5fe5e6a53c65af693184373131ac72565843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:05 +0000
Subject: [PATCH 28/30] fix: storage seek panicked on a slot table with a gap

---
 brec/src/storage/reader/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 1ff5dfa..20fdd04 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -135,7 +135,7 @@ impl<
         let location = self.locator.from(packet)?;
         self.source
             .seek(std::io::SeekFrom::Start(*location.start()))?;
-        let size = (location.end() - location.start()) as usize;
+        let size = location.end().saturating_sub(*location.start()) as usize;
         let mut inner = vec![0u8; size];
         self.source.read_exact(&mut inner)?;
         self.buffer = Cursor::new(inner);
-- 
2.43.0


From 829dc705de4fb71fbb2cef7346a8df2e2fd96e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:15 +0000
Subject: [PATCH 29/30] fix: range iterators overflowed at the last index

---
 brec/src/storage/reader/iters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 20fdd04..cf55381 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -351,7 +351,7 @@ impl<
             return None;
         }
         let item = self.storage.nth(self.from);
-        self.from += 1;
+        self.from = self.from.saturating_add(1);
         self.len -= 1;
         match item {
             Ok(None) => None,
@@ -421,7 +421,7 @@ impl<
                 return None;
             }
             let item = self.storage.nth_filtered(self.from);
-            self.from += 1;
+            self.from = self.from.saturating_add(1);
             match item {
                 Ok(None) => return None,
                 Ok(Some(LookInStatus::Accepted(_, packet))) => {
-- 
2.43.0


From 315b00a48a0869a964fc374851eee0619c5ecc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:13 +0000
Subject: [PATCH 30/30] fix: take the payload checksum's own length into a
 packet's declared size

---
 brec/src/payload/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/payload/header/mod.rs b/brec/src/payload/header/mod.rs
index d9f37a5..5d43703 100644
--- a/brec/src/payload/header/mod.rs
+++ b/brec/src/payload/header/mod.rs
@@ -84,7 +84,7 @@ impl PayloadHeader {
     pub fn ssize<T: PayloadSignature + PayloadSize + PayloadCrc>(
         src: &T,
     ) -> std::io::Result<usize> {
-        Ok(1 + src.sig().size() + 1 + T::crc_size() + std::mem::size_of::<u32>())
+        Ok(1 + src.sig().size() + 1 + src.crc()?.size() + std::mem::size_of::<u32>())
     }
 
     /// Serializes the header into a binary vector.
-- 
2.43.0

