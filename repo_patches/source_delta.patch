From 38e6a29384fc8040b5428568c16917ed158dc420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 01/22] fix: generated Block enum takes the signature from the
 source once

Block::read (ReadFrom and ReadBlockFrom) let every variant consume four bytes
before reporting a signature mismatch, so only blocks of the first variant
could be read from a plain reader.
---
 brec_macros/src/collector/blocks/read.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 8a46740..e263e6d 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -9,7 +9,10 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, false) {
+            match <#fullpath as brec::ReadBlockFrom>::read(
+                &mut std::io::Read::chain(&sig[..], &mut *buf),
+                false,
+            ) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -25,6 +28,9 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // Signature is taken from the source only once; each variant gets it back
+                let mut sig = [0u8; #BLOCK_SIG_LEN];
+                buf.read_exact(&mut sig)?;
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
@@ -38,7 +44,10 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, skip_sig) {
+            match <#fullpath as brec::ReadBlockFrom>::read(
+                &mut std::io::Read::chain(&sig[..sig_len], &mut *buf),
+                skip_sig,
+            ) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -54,6 +63,10 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // Signature is taken from the source only once; each variant gets it back
+                let mut sig = [0u8; #BLOCK_SIG_LEN];
+                let sig_len = if skip_sig { 0 } else { #BLOCK_SIG_LEN };
+                buf.read_exact(&mut sig[..sig_len])?;
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
-- 
2.43.0


From da355b857874334352cbda3ba89d9eda1d02145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 02/22] fix: read_from_slice of a block honours skip_sig

With skip_sig the fields were still taken from offsets counted from a
signature which is not in the slice.
---
 brec_macros/src/codegen/read/block.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 504afd7..ba03162 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -68,7 +68,11 @@ impl ReadFromSlice for Block {
                     } else {
                         <&[u8; #BLOCK_SIG_LEN]>::try_from(&#src[0usize..#BLOCK_SIG_LEN])?
                     };
+                    // Offsets of all following fields are counted from the end of signature
+                    let #src = if skip_sig { #src } else { &#src[#BLOCK_SIG_LEN..] };
                 });
+                fnames.push(format_ident!("{}", field.name));
+                continue;
             } else if field.name == FIELD_CRC {
                 let name = format_ident!("{}", FIELD_CRC);
                 fields.push(quote! {
-- 
2.43.0


From c140164c56eb7db0bb5cc00331f085ac8e536f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 03/22] fix: partial-aware block readers leave the input
 untouched unless they succeed

try_read of a block left the position behind the signature when the rest of
the block was missing or invalid; the buffered variant consumed the signature
and failed with an I/O error instead of reporting missing data.
---
 brec_macros/src/codegen/read/block.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index ba03162..6c01218 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -147,7 +147,7 @@ impl TryRead for Block {
                     use brec::prelude::*;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
-                    let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+                    let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(start_pos);
 
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     if len < #sig_len {
@@ -159,9 +159,16 @@ impl TryRead for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
                     if len < #block_name::ssize() {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
-                    Ok(brec::ReadStatus::Success(#block_name::read(buf, true)?))
+                    match #block_name::read(buf, true) {
+                        Ok(blk) => Ok(brec::ReadStatus::Success(blk)),
+                        Err(err) => {
+                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                            Err(err)
+                        }
+                    }
                 }
             }
         })
@@ -196,9 +203,16 @@ impl TryReadBuffered for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
 
-                    reader.consume(#sig_len);
-                    let blk = #block_name::read(reader, true);
-                    Ok(brec::ReadStatus::Success(blk?))
+                    let required = #block_name::ssize() as usize;
+                    if bytes.len() < required {
+                        return Ok(brec::ReadStatus::NotEnoughData(
+                            (required - bytes.len()) as u64,
+                        ));
+                    }
+
+                    let blk = #block_name::read(&mut &bytes[#sig_len..required], true)?;
+                    reader.consume(required);
+                    Ok(brec::ReadStatus::Success(blk))
                 }
             }
         })
-- 
2.43.0


From 7316a8e924ec687a4a0e8c1df960fe96cd67c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 04/22] fix: packet header readers consume exactly one header,
 and nothing on failure

The buffered reader consumed the header twice (by reading and by consume());
the seekable one left the position moved when the header was invalid.
---
 brec/src/packet/header/read.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 3ddd873..2b95743 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -113,14 +113,22 @@ impl TryReadFrom for PacketHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         if len < PacketHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - len));
         }
 
-        Ok(ReadStatus::Success(PacketHeader::read(buf)?))
+        match PacketHeader::read(buf) {
+            Ok(header) => Ok(ReadStatus::Success(header)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
@@ -145,8 +153,8 @@ impl TryReadFromBuffered for PacketHeader {
             ));
         }
 
-        let header = ReadStatus::Success(PacketHeader::read(reader)?);
+        let header = PacketHeader::read_from_slice(bytes, false)?;
         reader.consume(PacketHeader::ssize() as usize);
-        Ok(header)
+        Ok(ReadStatus::Success(header))
     }
 }
-- 
2.43.0


From 147ef60fd1295e31b0d04d56c56c7d6d66917dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:05 +0000
Subject: [PATCH 05/22] fix: size of a payload header follows the actual CRC of
 the payload

PayloadHeader::ssize asked the type for the CRC length. For the generated
Payload enum this is always 4, so packets carrying a payload with a longer
custom CRC got a wrong size in their header.
---
 brec/src/payload/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec/src/payload/header/mod.rs b/brec/src/payload/header/mod.rs
index d9f37a5..5d43703 100644
--- a/brec/src/payload/header/mod.rs
+++ b/brec/src/payload/header/mod.rs
@@ -84,7 +84,7 @@ impl PayloadHeader {
     pub fn ssize<T: PayloadSignature + PayloadSize + PayloadCrc>(
         src: &T,
     ) -> std::io::Result<usize> {
-        Ok(1 + src.sig().size() + 1 + T::crc_size() + std::mem::size_of::<u32>())
+        Ok(1 + src.sig().size() + 1 + src.crc()?.size() + std::mem::size_of::<u32>())
     }
 
     /// Serializes the header into a binary vector.
-- 
2.43.0


From 07e63bcf22600ef16cd3026a6c9c09943a6cdce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 06/22] fix: partial-aware payload readers restore the position
 when data is invalid

---
 brec/src/payload/header/read.rs    |  4 ++--
 brec/src/payload/header/sreader.rs | 14 +++++++++++++-
 brec/src/traits/read/mod.rs        | 12 ++++++++++--
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/brec/src/payload/header/read.rs b/brec/src/payload/header/read.rs
index 2414c15..2f45387 100644
--- a/brec/src/payload/header/read.rs
+++ b/brec/src/payload/header/read.rs
@@ -64,7 +64,7 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(sig_len)?;
+        reader.check_capacity(sig_len)?;
         let sig = match reader.next_bytes(sig_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
@@ -75,7 +75,7 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(crc_len)?;
+        reader.check_capacity(crc_len)?;
         let crc = match reader.next_bytes(crc_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index efa8ef0..df20f35 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -53,7 +53,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
     /// An initialized reader wrapper ready for safe, incremental reads.
     pub fn new(buf: &'a mut T) -> Result<Self, Error> {
         let spos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - spos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(spos);
         buf.seek(std::io::SeekFrom::Start(spos))?;
         Ok(Self {
             spos,
@@ -110,4 +110,16 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
         self.read += capacity;
         Ok(NextChunk::Bytes(dest))
     }
+
+    /// Checks a length which has been read for a `ByteBlock`.
+    ///
+    /// # Errors
+    /// Returns `Error::InvalidCapacity` and restores the initial position, if the length isn't valid.
+    pub fn check_capacity(&mut self, capacity: u8) -> Result<(), Error> {
+        if let Err(err) = ByteBlock::is_valid_capacity(capacity) {
+            self.buf.seek(std::io::SeekFrom::Start(self.spos))?;
+            return Err(err);
+        }
+        Ok(())
+    }
 }
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index b5e9ec1..f0d016b 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -113,12 +113,20 @@ pub trait TryReadPayloadFrom<
         header: &PayloadHeader,
     ) -> Result<ReadStatus<T>, Error> {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < header.payload_len() as u64 {
             return Ok(ReadStatus::NotEnoughData(header.payload_len() as u64 - len));
         }
-        <T as ReadPayloadFrom<T>>::read(buf, header).map(ReadStatus::Success)
+        match <T as ReadPayloadFrom<T>>::read(buf, header) {
+            Ok(value) => Ok(ReadStatus::Success(value)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
-- 
2.43.0


From daa1ae7d6311d7f5c7659f201eb79181043c74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 07/22] fix: the limit of blocks is the same for all packet
 readers

PacketDef::read accepted a packet with MAX_BLOCKS_COUNT + 1 blocks and
PacketDef::filtered had no limit at all.
---
 brec/src/packet/mod.rs  | 3 +++
 brec/src/packet/read.rs | 8 +++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 34b1f5a..300f163 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -131,6 +131,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let blocks_len = header.blocks_len as usize;
         if blocks_len > 0 {
             loop {
+                if blocks.len() == MAX_BLOCKS_COUNT as usize {
+                    return Err(Error::MaxBlocksCount);
+                }
                 let blk =
                     <BR as ReadBlockFromSlice>::read_from_slice(&packet_buffer[read..], false)?;
                 read += blk.size() as usize;
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3e68fd6..3c512be 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -28,8 +28,10 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
         buf.read_exact(&mut inner)?;
         let mut reader = std::io::Cursor::new(&mut inner);
         if header.blocks_len > 0 {
-            let mut iterations = 0;
             loop {
+                if pkg.blocks.len() == MAX_BLOCKS_COUNT as usize {
+                    return Err(Error::MaxBlocksCount);
+                }
                 match <B as TryReadFromBuffered>::try_read(&mut reader)? {
                     ReadStatus::Success(blk) => {
                         read += blk.size();
@@ -42,10 +44,6 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
                         return Err(Error::NotEnoughData(needed as usize));
                     }
                 }
-                iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
-                    return Err(Error::MaxBlocksCount);
-                }
             }
         }
         if header.payload {
-- 
2.43.0


From 5b14e5816ac31f8472fd265b32c663f80b830ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 08/22] fix: partial-aware packet readers require the whole
 packet and restore the position

try_read compared the available bytes with the size of the packet body only,
so up to 29 missing bytes were taken for a complete packet; the position was
not restored on missing data and on some errors, and the buffered reader
consumed the header (and blocks) of a packet which it could not read.
---
 brec/src/packet/read.rs | 120 +++++++---------------------------------
 1 file changed, 20 insertions(+), 100 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3c512be..459aecf 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -80,68 +80,26 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let available = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let available = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         let header = match <PacketHeader as TryReadFrom>::try_read(buf)? {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
             ReadStatus::Success(header) => header,
         };
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
-        }
-        let mut pkg = PacketDef::default();
-        let mut read = 0;
-        if header.blocks_len > 0 {
-            let mut iterations = 0;
-            loop {
-                match <B as TryReadFrom>::try_read(buf) {
-                    Ok(ReadStatus::Success(blk)) => {
-                        read += blk.size();
-                        pkg.blocks.push(blk);
-                        if read == header.blocks_len {
-                            break;
-                        }
-                    }
-                    Ok(ReadStatus::NotEnoughData(needed)) => {
-                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                        return Ok(ReadStatus::NotEnoughData(needed));
-                    }
-                    Err(err) => {
-                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                        return Err(err);
-                    }
-                }
-                iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
-                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                    return Err(Error::MaxBlocksCount);
-                }
-            }
+        buf.seek(std::io::SeekFrom::Start(start_pos))?;
+        let required = header.size.saturating_add(PacketHeader::ssize());
+        if required > available {
+            return Ok(ReadStatus::NotEnoughData(required - available));
         }
-        if header.payload {
-            match <PayloadHeader as TryReadFrom>::try_read(buf)? {
-                ReadStatus::Success(header) => {
-                    match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
-                        Ok(ReadStatus::Success(payload)) => {
-                            pkg.payload = Some(payload);
-                        }
-                        Ok(ReadStatus::NotEnoughData(needed)) => {
-                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                            return Ok(ReadStatus::NotEnoughData(needed));
-                        }
-                        Err(err) => {
-                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                            return Err(err);
-                        }
-                    }
-                }
-                ReadStatus::NotEnoughData(needed) => {
-                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                    return Err(Error::NotEnoughData(needed as usize));
-                }
+        match <Self as ReadFrom>::read(buf) {
+            Ok(pkg) => Ok(ReadStatus::Success(pkg)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
             }
         }
-        Ok(ReadStatus::Success(pkg))
     }
 }
 
@@ -150,8 +108,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
 /// This is similar to `TryReadFrom`, but works with non-seekable buffered sources (e.g., network streams).
 ///
 /// # Behavior
-/// - Reads header directly from `BufRead::fill_buf()` and consumes it.
+/// - Reads header directly from `BufRead::fill_buf()`.
 /// - Ensures that `header.size` bytes are available before decoding.
+/// - Consumes the packet only if it has been read successfully.
 /// - Supports partial reads using `ReadStatus::NotEnoughData(...)`.
 ///
 /// # Returns
@@ -161,7 +120,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
 /// - Any decoding or CRC/signature errors.
 ///
 /// # Notes
-/// The header and block stream are parsed directly from the internal buffer. Payload data may be buffered or streamed depending on implementation.
+/// The whole packet is parsed directly from the internal buffer.
 impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffered
     for PacketDef<B, P, Inner>
 {
@@ -175,51 +134,12 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - available));
         }
         let header = PacketHeader::read_from_slice(bytes, false)?;
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
-        }
-        reader.consume(PacketHeader::ssize() as usize);
-        let mut pkg = PacketDef::default();
-        let mut read = 0;
-        if header.blocks_len > 0 {
-            let mut iterations = 0;
-            loop {
-                match <B as TryReadFromBuffered>::try_read(reader)? {
-                    ReadStatus::Success(blk) => {
-                        read += blk.size();
-                        pkg.blocks.push(blk);
-                        if read == header.blocks_len {
-                            break;
-                        }
-                    }
-                    ReadStatus::NotEnoughData(needed) => {
-                        return Ok(ReadStatus::NotEnoughData(needed))
-                    }
-                }
-                iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
-                    return Err(Error::MaxBlocksCount);
-                }
-            }
-        }
-        if header.payload {
-            match <PayloadHeader as TryReadFromBuffered>::try_read(reader)? {
-                ReadStatus::Success(header) => {
-                    reader.consume(header.size());
-                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(reader, &header)? {
-                        ReadStatus::Success(payload) => {
-                            pkg.payload = Some(payload);
-                        }
-                        ReadStatus::NotEnoughData(needed) => {
-                            return Ok(ReadStatus::NotEnoughData(needed))
-                        }
-                    }
-                }
-                ReadStatus::NotEnoughData(needed) => {
-                    return Err(Error::NotEnoughData(needed as usize))
-                }
-            }
+        let required = header.size.saturating_add(PacketHeader::ssize());
+        if required > available {
+            return Ok(ReadStatus::NotEnoughData(required - available));
         }
+        let pkg = <Self as ReadFrom>::read(&mut &bytes[..required as usize])?;
+        reader.consume(required as usize);
         Ok(ReadStatus::Success(pkg))
     }
 }
-- 
2.43.0


From 66a73b05f421e7c7d1448ff88726c3657043e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:35 +0000
Subject: [PATCH 09/22] fix: packet readers don't trust the size declared in a
 packet header

The body was read into a buffer allocated from the declared size: an
excessive size made the reader panic (capacity overflow) or abort.
---
 brec/src/packet/header/read.rs | 20 ++++++++++++++++++++
 brec/src/packet/mod.rs         |  3 +--
 brec/src/packet/read.rs        |  5 ++---
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 2b95743..c136ce4 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -1,3 +1,5 @@
+use std::io::Read;
+
 use crate::*;
 
 impl ReadFrom for PacketHeader {
@@ -158,3 +160,21 @@ impl TryReadFromBuffered for PacketHeader {
         Ok(ReadStatus::Success(header))
     }
 }
+
+impl PacketHeader {
+    /// Reads the body of the packet (blocks and payload) described by this header.
+    ///
+    /// Memory is allocated only for the data which is really there, so the size declared
+    /// in the header is never trusted.
+    ///
+    /// # Errors
+    /// Returns an `UnexpectedEof` I/O error, if the source has less data than declared.
+    pub(crate) fn read_body<T: std::io::Read>(&self, buf: &mut T) -> Result<Vec<u8>, Error> {
+        let mut body = Vec::new();
+        buf.take(self.size).read_to_end(&mut body)?;
+        if (body.len() as u64) < self.size {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
+        Ok(body)
+    }
+}
diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 300f163..8f29973 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -126,8 +126,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let header = <PacketHeader as ReadFrom>::read(reader)?;
         let mut read = 0;
         let mut blocks = Vec::new();
-        let mut packet_buffer = vec![0; header.size as usize];
-        reader.read_exact(&mut packet_buffer)?;
+        let packet_buffer = header.read_body(reader)?;
         let blocks_len = header.blocks_len as usize;
         if blocks_len > 0 {
             loop {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 459aecf..5c389bc 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -24,9 +24,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
         let header = PacketHeader::read(buf)?;
         let mut pkg = PacketDef::default();
         let mut read = 0;
-        let mut inner = vec![0u8; header.size as usize];
-        buf.read_exact(&mut inner)?;
-        let mut reader = std::io::Cursor::new(&mut inner);
+        let inner = header.read_body(buf)?;
+        let mut reader = std::io::Cursor::new(&inner);
         if header.blocks_len > 0 {
             loop {
                 if pkg.blocks.len() == MAX_BLOCKS_COUNT as usize {
-- 
2.43.0


From 152ceae172e1245549341150355153506258bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 10/22] fix: stream reader keeps only a possible begin of a
 signature between reads

After a portion without a signature 29 bytes were kept and 29 more requested.
A packet which was complete in the kept bytes made the reader underflow
(consume of a negative number of bytes), and a signature at the very end of
the data was not recognized.
---
 brec/src/packet/header/mod.rs |  2 +-
 brec/src/packet/reader.rs     | 28 ++++++++++++----------------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/brec/src/packet/header/mod.rs b/brec/src/packet/header/mod.rs
index fef7f9a..2d25e4a 100644
--- a/brec/src/packet/header/mod.rs
+++ b/brec/src/packet/header/mod.rs
@@ -108,7 +108,7 @@ impl PacketHeader {
     /// The offset of the first occurrence of `PACKET_SIG`, or `None` if not found.
     pub fn get_pos(buffer: &[u8]) -> Option<usize> {
         let mut offset = 0;
-        while buffer.len() > offset + PACKET_SIG.len() {
+        while buffer.len() >= offset + PACKET_SIG.len() {
             if buffer[offset..].starts_with(&PACKET_SIG) {
                 return Some(offset);
             } else {
diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 07a98db..dbc474d 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -239,13 +239,13 @@ impl<
                 Ok(NextPacket::NotEnoughData(needed))
             }
             PacketHeaderState::NotFound => {
-                if buffer.len() > header_len {
-                    self.rules.ignore(&buffer[..buffer.len() - header_len])?;
-                    // We can drain most bytes in buffer and left only length of header signature
-                    buffer.drain(..(buffer.len() - header_len));
-                }
+                // We can drain most bytes in buffer and left only a possible begin of signature
+                let litter = buffer.len() - (PACKET_SIG.len() - 1);
+                self.rules.ignore(&buffer[..litter])?;
+                buffer.drain(..litter);
                 self.inner.consume(extracted_len);
-                self.recent = HeaderReadState::Refill(Some((buffer, header_len)));
+                let needed = header_len - buffer.len();
+                self.recent = HeaderReadState::Refill(Some((buffer, needed)));
                 Ok(NextPacket::NotFound)
             }
         }
@@ -306,16 +306,12 @@ impl<
                 match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer)? {
                     PacketHeaderState::NotFound => {
                         let header_len = PacketHeader::ssize() as usize;
-                        if available > header_len {
-                            self.rules.ignore(&buffer[..available - header_len])?;
-                            self.recent = HeaderReadState::Refill(Some((
-                                buffer[available - header_len..].to_vec(),
-                                header_len,
-                            )));
-                        } else {
-                            self.recent =
-                                HeaderReadState::Refill(Some((buffer.to_vec(), header_len)));
-                        }
+                        // Only a possible begin of signature has to be kept
+                        let litter = available - (PACKET_SIG.len() - 1);
+                        self.rules.ignore(&buffer[..litter])?;
+                        let data = buffer[litter..].to_vec();
+                        let needed = header_len - data.len();
+                        self.recent = HeaderReadState::Refill(Some((data, needed)));
                         self.inner.consume(available);
                         return Ok(NextPacket::NotFound);
                     }
-- 
2.43.0


From cda04db870dba5fb45925c8602af398fce40fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 11/22] fix: stream reader continues behind a signature without
 a valid header

A damaged header (or foreign bytes which look like a signature) was reported
without being consumed, so the reader repeated the same error forever or lost
the bytes collected so far. Such bytes are treated as foreign data now.
---
 brec/src/packet/reader.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index dbc474d..e4ddb09 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -114,20 +114,33 @@ impl<
     /// This function attempts to locate the `brec` packet signature in the given byte slice.
     /// If a signature is found but there is insufficient data to parse the full header,
     /// it returns `PacketHeaderState::NotEnoughData`. If the header is successfully parsed,
-    /// it returns `PacketHeaderState::Found`.
+    /// it returns `PacketHeaderState::Found`. A signature which isn't followed by a valid header
+    /// (foreign data or a damaged header) is not a begin of a packet: searching continues behind it.
     fn read_header(buffer: &[u8]) -> Result<PacketHeaderState, Error> {
-        let Some(offset) = PacketHeader::get_pos(buffer) else {
-            // Signature of PacketDef isn't found
-            return Ok(PacketHeaderState::NotFound);
-        };
-        if let Some(needed) = PacketHeader::is_not_enought(&buffer[offset..]) {
-            // Header is detected, but not enough data to load it
-            return Ok(PacketHeaderState::NotEnoughData(offset, needed));
+        let mut from = 0;
+        loop {
+            let Some(offset) = PacketHeader::get_pos(&buffer[from..]).map(|pos| from + pos) else {
+                // Signature of PacketDef isn't found
+                return Ok(PacketHeaderState::NotFound);
+            };
+            if let Some(needed) = PacketHeader::is_not_enought(&buffer[offset..]) {
+                // Header is detected, but not enough data to load it
+                return Ok(PacketHeaderState::NotEnoughData(offset, needed));
+            }
+            match PacketHeader::read_from_slice(&buffer[offset..], false) {
+                Ok(header) => {
+                    return Ok(PacketHeaderState::Found(
+                        header,
+                        std::ops::RangeInclusive::new(
+                            offset,
+                            offset + PacketHeader::ssize() as usize,
+                        ),
+                    ));
+                }
+                Err(Error::CrcDismatch) => from = offset + 1,
+                Err(err) => return Err(err),
+            }
         }
-        Ok(PacketHeaderState::Found(
-            PacketHeader::read_from_slice(&buffer[offset..], false)?,
-            std::ops::RangeInclusive::new(offset, offset + PacketHeader::ssize() as usize),
-        ))
     }
 
     /// Clears the internal buffer and consumes a specified number of bytes from the reader.
-- 
2.43.0


From d3583ec0aa617bd1278b2e05ed970c4693a8290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 12/22] fix: stream reader consumes a packet with an invalid
 payload or too many blocks

The error was returned without consuming the packet: the same error was
reported again and again and packets behind it were never reached.
---
 brec/src/packet/reader.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index e4ddb09..b61ffbf 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -376,8 +376,7 @@ impl<
         if !blocks_buffer.is_empty() {
             loop {
                 if count == MAX_BLOCKS_COUNT {
-                    self.buffered.clear();
-                    return Err(Error::MaxBlocksCount);
+                    return self.drop_and_consume(consume, Err(Error::MaxBlocksCount));
                 }
                 let blk = match BR::read_from_slice(&blocks_buffer[processed..], false) {
                     Ok(blk) => blk,
@@ -413,12 +412,15 @@ impl<
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
                         &header,
-                    )? {
-                        ReadStatus::Success(payload) => PacketDef::new(
+                    ) {
+                        Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
                             Some(payload),
                         ),
-                        ReadStatus::NotEnoughData(needed) => {
+                        Err(err) => {
+                            return self.drop_and_consume(consume, Err(err));
+                        }
+                        Ok(ReadStatus::NotEnoughData(needed)) => {
                             // This is error, but not NextPacket::NotEnoughData because length of payload
                             // already has been check. If we are here - some data is invalid and
                             // it's an error
-- 
2.43.0


From ac8803e9e92a5289c780256dbdf2f4283e4203e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 13/22] fix: stream reader doesn't panic on contradicting
 lengths in a packet header

---
 brec/src/packet/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index b61ffbf..ad4cf58 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -345,7 +345,7 @@ impl<
                             self.rules.ignore(&buffer[..*sgmt.start()])?;
                         }
                         let packet_size = header.size as usize;
-                        let needs = packet_size + *sgmt.end();
+                        let needs = packet_size.saturating_add(*sgmt.end());
                         if needs > available {
                             // Not enough data to load packet
                             self.buffered.extend_from_slice(&buffer[*sgmt.end()..]);
@@ -369,7 +369,10 @@ impl<
             }
         };
         let blocks_len = header.blocks_len as usize;
-        let blocks_buffer = &packet_buffer[..blocks_len];
+        let Some(blocks_buffer) = packet_buffer.get(..blocks_len) else {
+            // Length of blocks contradicts to size of packet
+            return self.drop_and_consume(consume, Err(Error::NotEnoughData(blocks_len)));
+        };
         let mut blocks = Vec::new();
         let mut processed = 0;
         let mut count = 0;
-- 
2.43.0


From 272abf60fafa2f9858c6504915f830468daf19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 14/22] fix: stream reader keeps its state if the source fails
 temporarily

An error of the source (e.g. interrupted or would-block) dropped the header
or the bytes which had been taken from the source already.
---
 brec/src/packet/reader.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index ad4cf58..2ab2227 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -168,7 +168,14 @@ impl<
         &mut self,
         header: PacketHeader,
     ) -> Result<ResolveHeaderReady<B, P, Inner>, Error> {
-        let buffer = self.inner.fill_buf()?;
+        let buffer = match self.inner.fill_buf() {
+            Ok(buffer) => buffer,
+            Err(err) => {
+                // Source might be available again later
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Err(err.into());
+            }
+        };
         // Check do we have enough data to load packet
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
@@ -201,7 +208,14 @@ impl<
         mut buffer: Vec<u8>,
         needed: usize,
     ) -> Result<NextPacket<B, P, Inner>, Error> {
-        let extracted = self.inner.fill_buf()?;
+        let extracted = match self.inner.fill_buf() {
+            Ok(extracted) => extracted,
+            Err(err) => {
+                // Source might be available again later
+                self.recent = HeaderReadState::Refill(Some((buffer, needed)));
+                return Err(err.into());
+            }
+        };
         if extracted.is_empty() {
             self.rules.ignore(&buffer)?;
             return Ok(NextPacket::NoData);
-- 
2.43.0


From 4bbe7fa5292537403459e90969ba71c4effd1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:10 +0000
Subject: [PATCH 15/22] fix: BufferedReader neither drops nor miscounts bytes

refill() discarded bytes which had been preloaded but not read yet, read()
lost preloaded bytes if the source failed, and consume() across the preloaded
bytes advanced the source wrongly and counted only a part of them.
---
 brec/src/traits/read/reader.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index b084427..7dea665 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -58,7 +58,6 @@ pub struct BufferedReader<'a, R: std::io::BufRead> {
     inner: &'a mut R,
     buffer: Vec<u8>,
     filled: Vec<u8>,
-    inner_len: usize,
     consumed: usize,
 }
 
@@ -105,7 +104,6 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
             inner,
             buffer: Vec::new(),
             filled: Vec::new(),
-            inner_len: 0,
             consumed: 0,
         }
     }
@@ -143,8 +141,10 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
     /// buffered_reader.refill()?;
     /// ```
     pub fn refill(&mut self) -> std::io::Result<()> {
-        self.buffer = self.inner.fill_buf()?.to_vec();
-        self.inner.consume(self.buffer.len());
+        let loaded = self.inner.fill_buf()?;
+        let len = loaded.len();
+        self.buffer.extend_from_slice(loaded);
+        self.inner.consume(len);
         Ok(())
     }
 
@@ -174,8 +174,12 @@ impl<R: std::io::BufRead> std::io::Read for BufferedReader<'_, R> {
             total_read += to_copy;
         }
         if total_read < buf.len() {
-            let from_inner = self.inner.read(&mut buf[total_read..])?;
-            total_read += from_inner;
+            match self.inner.read(&mut buf[total_read..]) {
+                Ok(from_inner) => total_read += from_inner,
+                // Bytes taken from internal buffer should not be lost
+                Err(_) if total_read > 0 => {}
+                Err(err) => return Err(err),
+            }
         }
         self.consumed += total_read;
         Ok(total_read)
@@ -195,7 +199,6 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
             return self.inner.fill_buf();
         }
         let inner = self.inner.fill_buf()?;
-        self.inner_len = inner.len();
         self.filled.clear();
         self.filled.reserve(inner.len() + self.buffer.len());
         self.filled.extend_from_slice(&self.buffer);
@@ -209,7 +212,7 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
     /// - If `amt` exceeds `self.buffer.len()`, remaining bytes are consumed from `self.inner`.
     ///
     /// This ensures correct tracking of consumed data, preventing repeated reads.
-    fn consume(&mut self, mut amt: usize) {
+    fn consume(&mut self, amt: usize) {
         if self.buffer.is_empty() {
             self.inner.consume(amt);
             self.consumed += amt;
@@ -224,18 +227,8 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
             return;
         }
 
-        amt -= buf_len;
         self.buffer.clear();
-
-        if amt <= self.inner_len {
-            self.inner.consume(amt);
-            self.inner_len -= amt;
-            self.consumed += amt;
-        } else {
-            let leftover = amt - self.inner_len;
-            self.inner_len = 0;
-            self.inner.consume(leftover);
-            self.consumed += leftover;
-        }
+        self.inner.consume(amt - buf_len);
+        self.consumed += amt;
     }
 }
-- 
2.43.0


From 783317d63dd3e7929e90ead1fe8c79f922cef03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:10 +0000
Subject: [PATCH 16/22] fix: iterating from an index continues correctly in the
 next slot

The locator didn't advance its offset behind the slot found by seek(), so all
following slots were read from a wrong place.
---
 brec/src/storage/reader/iters.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 3b14d35..a170547 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -47,9 +47,12 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
+            let slot_offset = self.offset;
+            // Next slot is located behind the found one
+            self.offset += slot.size() + slot.width();
             return Ok(RangeInclusive::new(
-                self.offset + slot.size() + packet_offset,
-                self.offset + slot.size() + slot.width(),
+                slot_offset + slot.size() + packet_offset,
+                self.offset,
             ));
         }
         if count == 0 {
-- 
2.43.0


From 9c93e403ce1b2b54bbc42394469ccb26512bbfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 17/22] fix: storage readers report a truncated file instead of
 panicking

Iterators unwrapped the result of reading, the availability check underflowed
if a position is behind the end of the file, and a range starting at the
largest index overflowed.
---
 brec/src/storage/reader/iters.rs | 15 +++++++++------
 brec/src/storage/slot/header.rs  |  4 +++-
 brec/src/storage/slot/read.rs    |  4 +++-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index a170547..9a39709 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -138,7 +138,7 @@ impl<
             .seek(std::io::SeekFrom::Start(*location.start()))?;
         let size = (location.end() - location.start()) as usize;
         let mut inner = vec![0u8; size];
-        self.source.read_exact(&mut inner).unwrap();
+        self.source.read_exact(&mut inner)?;
         self.buffer = Cursor::new(inner);
         Ok(self)
     }
@@ -160,7 +160,6 @@ impl<
     /// Loads the slot's region into an internal buffer and calls `PacketDef::read`.
     /// Returns `None` if all slots are exhausted.
     fn next(&mut self) -> Option<Self::Item> {
-        // TODO: remove unwraps and handle errors properly
         if self.buffer.fill_buf().unwrap().is_empty() {
             let location = self.locator.next()?;
             if let Err(err) = self
@@ -171,7 +170,9 @@ impl<
             }
             let size = (location.end() - location.start()) as usize;
             let mut inner = vec![0u8; size];
-            self.source.read_exact(&mut inner).unwrap();
+            if let Err(err) = self.source.read_exact(&mut inner) {
+                return Some(Err(err.into()));
+            }
             self.buffer = Cursor::new(inner);
         }
         match <PacketDef<B, P, Inner> as ReadFrom>::read(&mut self.buffer) {
@@ -264,7 +265,9 @@ impl<
                 }
                 let size = (location.end() - location.start()) as usize;
                 let mut inner = vec![0u8; size];
-                self.source.read_exact(&mut inner).unwrap();
+                if let Err(err) = self.source.read_exact(&mut inner) {
+                    return Some(Err(err.into()));
+                }
                 self.buffer = Cursor::new(inner);
             }
             match PacketDef::filtered(&mut self.buffer, self.rules) {
@@ -348,7 +351,7 @@ impl<
             return None;
         }
         let item = self.storage.nth(self.from);
-        self.from += 1;
+        self.from = self.from.saturating_add(1);
         self.len -= 1;
         match item {
             Ok(None) => None,
@@ -418,7 +421,7 @@ impl<
                 return None;
             }
             let item = self.storage.nth_filtered(self.from);
-            self.from += 1;
+            self.from = self.from.saturating_add(1);
             match item {
                 Ok(None) => return None,
                 Ok(Some(LookInStatus::Accepted(_, packet))) => {
diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index f1d8114..045982f 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -61,7 +61,9 @@ impl TryReadFrom for SlotHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < SlotHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize()));
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 09da083..e7aabbe 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -60,7 +60,9 @@ impl TryReadFrom for Slot {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         let header = match SlotHeader::try_read(buf)? {
-- 
2.43.0


From 7abf4b90cb04330b8fc756a34205899033b5334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 18/22] fix: reading a slot reports missing bytes correctly and
 restores the position

The number of missing bytes was calculated from the size of a packet header
and underflowed for each incomplete slot; the position was left behind the
slot if its CRC is invalid.
---
 brec/src/storage/slot/read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index e7aabbe..b545a7c 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -75,7 +75,7 @@ impl TryReadFrom for Slot {
             + std::mem::size_of::<u32>() as u64;
         if len < needed {
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-            return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - needed));
+            return Ok(ReadStatus::NotEnoughData(needed - len));
         }
 
         let mut lenghts = Vec::with_capacity(header.capacity as usize);
@@ -92,6 +92,7 @@ impl TryReadFrom for Slot {
         if slot.crc == slot.crc() {
             Ok(ReadStatus::Success(slot))
         } else {
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
             Err(Error::CrcDismatch)
         }
     }
-- 
2.43.0


From 4bf17f79bc9e2b8924f5229b7f11306da5f1d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 19/22] fix: a slot with an altered capacity is reported as
 damaged

A larger capacity made the slot look incomplete, so the slot and everything
behind it was silently ignored (and overwritten by the next insert), or the
reader panicked on the capacity.
---
 brec/src/storage/slot/read.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index b545a7c..ba51cf9 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -20,6 +20,10 @@ impl ReadFrom for Slot {
         Self: Sized,
     {
         let header = SlotHeader::read(buf)?;
+        if header.capacity != DEFAULT_SLOT_CAPACITY as u64 {
+            // All slots have the same capacity: the header is damaged, and CRC cannot match
+            return Err(Error::CrcDismatch);
+        }
 
         let mut lenghts = Vec::with_capacity(header.capacity as usize);
         for _ in 0..header.capacity {
@@ -70,6 +74,12 @@ impl TryReadFrom for Slot {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
         };
 
+        if header.capacity != DEFAULT_SLOT_CAPACITY as u64 {
+            // All slots have the same capacity: the header is damaged, and CRC cannot match
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+            return Err(Error::CrcDismatch);
+        }
+
         let needed = SlotHeader::ssize()
             + header.capacity * std::mem::size_of::<u64>() as u64
             + std::mem::size_of::<u32>() as u64;
-- 
2.43.0


From e6842fd219e2da08f5cc320fe4fbda7cacdc8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 20/22] fix: an interrupted insert doesn't harm the storage

The record about a packet was written into the slot before the packet itself,
and the slot was changed in memory before anything had been written. After a
crash or a failed write the storage pointed to a packet which doesn't exist,
and following packets were written to wrong places. Now the packet is written
first and becomes visible with its record in the slot; bytes of an unfinished
insert behind the last slot are ignored and overwritten.
---
 brec/src/storage/reader/mod.rs | 11 +++++++
 brec/src/storage/writer/mod.rs | 56 ++++++++++++++++++++++++++--------
 2 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 15dfb84..7ce21f1 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -57,7 +57,13 @@ impl<
                 Ok(ReadStatus::Success(slot)) => {
                     let position = offset;
                     offset += slot.size() + slot.width();
+                    let full = slot.is_full();
                     self.slots.push(AnchoredSlot::new(slot, position));
+                    if !full {
+                        // Only the last slot might have free space; everything behind it belongs
+                        // to an insert, which hasn't been finished
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
@@ -121,7 +127,12 @@ impl<
                     } else {
                         let position = source_pos;
                         source_pos += slot.size() + slot.width();
+                        let full = slot.is_full();
                         self.slots.push(AnchoredSlot::new(slot, position));
+                        if !full {
+                            // Slot has free space, so we can stop here
+                            break;
+                        }
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index e7dce73..7a6a6d0 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -54,7 +54,13 @@ impl<
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     offset += slot.size() + slot.width();
+                    let full = slot.is_full();
                     self.slots.push(slot);
+                    if !full {
+                        // Only the last slot might have free space; everything behind it belongs
+                        // to an insert, which hasn't been finished
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
@@ -81,35 +87,59 @@ impl<
     /// * `Ok(())` — Packet successfully written
     /// * `Err(Error)` — If no space is found or write fails
     pub fn insert(&mut self, mut packet: PacketDef<B, P, Inner>) -> Result<(), Error> {
+        // Convert the packet into bytes
+        let mut buffer: Vec<u8> = Vec::new();
+        packet.write_all(&mut buffer)?;
         let offset = match self.locator.next(&self.slots) {
             Some(offset) => offset,
             None => {
-                self.slots.push(Slot::default());
+                // Slot has to be in place before its first packet
+                let (_, slot_offset) = self.locator.current();
+                let slot = Slot::default();
+                self.write_slot(&slot, slot_offset)?;
+                self.inner.flush()?;
+                self.slots.push(slot);
                 self.locator
                     .next(&self.slots)
                     .ok_or(Error::CannotFindFreeSlot)?
             }
         };
-        // Convert the packet into bytes
-        let mut buffer: Vec<u8> = Vec::new();
-        packet.write_all(&mut buffer)?;
+        // Write the packet before it becomes visible by its record in slot
+        self.inner.seek(std::io::SeekFrom::Start(offset))?;
+        self.inner.write_all(&buffer)?;
+        self.inner.flush()?;
         // Insert length of packet
-        self.locator.insert(&mut self.slots, buffer.len() as u64)?;
-        // Get updated slot data
         let (slot_index, slot_offset) = self.locator.current();
-        self.inner.flush()?;
-        self.inner.seek(std::io::SeekFrom::Start(slot_offset))?;
         let slot = self
             .slots
             .get(slot_index)
             .ok_or(Error::CannotFindFreeSlot)?;
-        // Write/Rewrite slot
-        slot.write_all(&mut self.inner)?;
-        self.inner.seek(std::io::SeekFrom::Start(offset))?;
+        let mut updated = Slot::new(slot.lenghts.clone(), slot.capacity, slot.crc);
+        updated.insert(buffer.len() as u64)?;
+        let mut following = None;
+        if updated.is_full() {
+            // Interrupted insert might leave some bytes. These bytes should not be considered as a
+            // next slot
+            let end = offset + buffer.len() as u64;
+            if self.inner.seek(std::io::SeekFrom::End(0))? > end {
+                let slot = Slot::default();
+                self.write_slot(&slot, end)?;
+                self.inner.flush()?;
+                following = Some(slot);
+            }
+        }
+        // Rewrite slot
+        self.write_slot(&updated, slot_offset)?;
+        self.locator.insert(&mut self.slots, buffer.len() as u64)?;
+        self.slots.extend(following);
         self.inner.flush()?;
+        Ok(())
+    }
+
+    /// Writes slot into the storage at the given offset.
+    fn write_slot(&mut self, slot: &Slot, offset: u64) -> Result<(), Error> {
         self.inner.seek(std::io::SeekFrom::Start(offset))?;
-        self.inner.write_all(&buffer)?;
-        self.inner.flush()?;
+        slot.write_all(&mut self.inner)?;
         Ok(())
     }
 }
-- 
2.43.0


From 6da6274617b6b2c3526701360bd3c1778c07ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 21/22] fix: reload() keeps all slots and returns the number of
 added packets

If the last known slot had become full, reload() replaced it by the following
slot, and the number of added packets was wrong whenever a slot had been
filled or more than one slot had been added.
---
 brec/src/storage/reader/mod.rs | 114 ++++++++-------------------------
 1 file changed, 27 insertions(+), 87 deletions(-)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 7ce21f1..dff1cec 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -83,75 +83,38 @@ impl<
     }
 
     pub fn reload(&mut self) -> Result<usize, Error> {
-        let mut source_pos;
-
-        let last = match self.slots.last().map(|v| (v, v.inner.expand())) {
-            Some((last, (Some(offset), Some(index), crc))) => {
-                source_pos = last.offset;
-                Some((offset, index, crc))
-            }
-            Some((last, (None, None, _))) => {
-                // Slot is full, because no free offset or/and index
-                source_pos = last.offset + last.inner.width() + last.inner.size();
-                None
-            }
-            _ => {
-                // No slots
-                source_pos = 0;
-                None
-            }
+        let known = self.count();
+        // If the last slot has free space, it might have been updated and has to be read again
+        let (keep, mut offset) = match self.slots.last() {
+            Some(last) if last.inner.is_full() => (
+                self.slots.len(),
+                last.offset + last.inner.size() + last.inner.width(),
+            ),
+            Some(last) => (self.slots.len() - 1, last.offset),
+            None => (0, 0),
         };
-        let count = self.slots.len();
+        let mut loaded = Vec::new();
         loop {
-            self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
+            self.inner.seek(std::io::SeekFrom::Start(offset))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
-                    if let Some((_, _, crc)) = last
-                        && self.slots.len() == count
-                    {
-                        if crc == slot.crc {
-                            return Ok(0);
-                        }
-                        if let Some(lst) = self.slots.get_mut(count.saturating_sub(1)) {
-                            lst.inner = slot;
-                            if lst.inner.get_free_slot_index().is_none() {
-                                // Slot is full, move source position to the end of this slot
-                                source_pos += lst.inner.size() + lst.inner.width();
-                            } else {
-                                // Slot has free space, so we can stop here
-                                break;
-                            }
-                        } else {
-                            return Err(Error::AccessSlot(count.saturating_sub(1)));
-                        }
-                    } else {
-                        let position = source_pos;
-                        source_pos += slot.size() + slot.width();
-                        let full = slot.is_full();
-                        self.slots.push(AnchoredSlot::new(slot, position));
-                        if !full {
-                            // Slot has free space, so we can stop here
-                            break;
-                        }
+                    let position = offset;
+                    offset += slot.size() + slot.width();
+                    let full = slot.is_full();
+                    loaded.push(AnchoredSlot::new(slot, position));
+                    if !full {
+                        // Slot has free space, so we can stop here
+                        break;
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-                    match (last.is_none(), self.slots.len() == count) {
-                        (true, true) => {
-                            return Ok(0);
-                        }
-                        (false, true) => {
-                            if needed == SlotHeader::ssize() {
-                                // No space in last slot, no slot after
-                                break;
-                            }
-                            // Cannot read again last slot
-                            return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
-                                needed as usize,
-                            ))));
-                        }
-                        (false, false) | (true, false) => break,
+                    if loaded.is_empty() && keep < self.slots.len() {
+                        // Cannot read again last slot
+                        return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
+                            needed as usize,
+                        ))));
                     }
+                    break;
                 }
                 Err(Error::CrcDismatch) => {
                     return Err(Error::DamagedSlot(Box::new(Error::CrcDismatch)));
@@ -162,34 +125,11 @@ impl<
                 Err(err) => return Err(err),
             }
         }
-
-        let read = match (last, self.slots.len() == count, self.slots.last()) {
-            (Some((_, index, _)), true, Some(last)) => {
-                // Last slot has been update, no new slot has been added
-                if let Some(idx) = last.inner.get_free_slot_index() {
-                    idx.saturating_sub(index)
-                } else {
-                    DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                }
-            }
-            (Some((_, index, _)), false, Some(last)) => {
-                // Last slot has been updated, but no new slot has been added
-                DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                    + last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count) * DEFAULT_SLOT_CAPACITY
-            }
-            (None, false, Some(last)) => {
-                // In cases:
-                // - No last slot, but new slots have been added
-                // - Last slot is full, but new slots have been added
-                last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
-            }
-            _ => 0,
-        };
+        self.slots.truncate(keep);
+        self.slots.append(&mut loaded);
         self.locator
             .setup(self.slots.iter().map(|anchored| &anchored.inner));
-        Ok(read)
+        Ok(self.count().saturating_sub(known))
     }
 
     /// Adds a packet filter or processing rule.
-- 
2.43.0


From ac21915e12feea0eb0313c13372428bed1a5b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:13 +0000
Subject: [PATCH 22/22] hook: controllable primitives for the file sensor under
 cfg(brec_verif)

---
 brec/src/lib.rs                         |   3 +
 brec/src/storage/mod.rs                 |   2 +
 brec/src/storage/observer/mod.rs        |   2 +
 brec/src/storage/observer/sensor/mod.rs |  15 ++-
 brec/src/verif.rs                       | 123 ++++++++++++++++++++++++
 5 files changed, 140 insertions(+), 5 deletions(-)
 create mode 100644 brec/src/verif.rs

diff --git a/brec/src/lib.rs b/brec/src/lib.rs
index 26cd0d0..a7455bd 100644
--- a/brec/src/lib.rs
+++ b/brec/src/lib.rs
@@ -1,4 +1,5 @@
 #![deny(unused_crate_dependencies)]
+#![allow(unexpected_cfgs)]
 #![doc = include_str!("../README.md")]
 
 #[cfg(feature = "build")]
@@ -20,6 +21,8 @@ pub mod payload;
 pub mod prelude;
 pub mod storage;
 pub mod traits;
+#[cfg(brec_verif)]
+pub mod verif;
 
 pub use brec_macros::*;
 pub use crc32fast;
diff --git a/brec/src/storage/mod.rs b/brec/src/storage/mod.rs
index 87769a3..0cf7dc4 100644
--- a/brec/src/storage/mod.rs
+++ b/brec/src/storage/mod.rs
@@ -4,6 +4,8 @@ mod reader;
 mod slot;
 mod writer;
 
+#[cfg(brec_verif)]
+pub use observer::{Sensor, SensorError, Wake};
 pub use reader::*;
 pub use writer::*;
 
diff --git a/brec/src/storage/observer/mod.rs b/brec/src/storage/observer/mod.rs
index 1a52685..12f0985 100644
--- a/brec/src/storage/observer/mod.rs
+++ b/brec/src/storage/observer/mod.rs
@@ -2,6 +2,8 @@ mod sensor;
 
 use crate::*;
 use sensor::*;
+#[cfg(brec_verif)]
+pub use sensor::{Sensor, SensorError, Wake};
 
 pub struct ObserverDef<
     S: std::io::Read + std::io::Seek,
diff --git a/brec/src/storage/observer/sensor/mod.rs b/brec/src/storage/observer/sensor/mod.rs
index 121a9bd..65796fb 100644
--- a/brec/src/storage/observer/sensor/mod.rs
+++ b/brec/src/storage/observer/sensor/mod.rs
@@ -1,14 +1,19 @@
 mod error;
 
+#[cfg(brec_verif)]
+use crate::verif::{fs, recommended_watcher, AtomicBool, AtomicU64, Ordering};
 use crossbeam::channel::{Receiver, Sender};
-use notify::{recommended_watcher, Event, RecursiveMode, Result as NotifyResult, Watcher};
+#[cfg(not(brec_verif))]
+use notify::recommended_watcher;
+use notify::{Event, RecursiveMode, Result as NotifyResult, Watcher};
+#[cfg(not(brec_verif))]
 use std::{
     fs,
+    sync::atomic::{AtomicBool, AtomicU64, Ordering},
+};
+use std::{
     path::{Path, PathBuf},
-    sync::{
-        atomic::{AtomicBool, AtomicU64, Ordering},
-        Arc,
-    },
+    sync::Arc,
 };
 use tracing::error;
 
diff --git a/brec/src/verif.rs b/brec/src/verif.rs
new file mode 100644
index 0000000..8bd3ccc
--- /dev/null
+++ b/brec/src/verif.rs
@@ -0,0 +1,123 @@
+//! Instrumentation for external verification, compiled only with `--cfg brec_verif`.
+//!
+//! Stands in for the primitives the file sensor is built on, so that a driver can deliver watcher
+//! notifications itself and decide how the threads using a sensor are interleaved.
+use std::{
+    ops::Deref,
+    sync::{Arc, Mutex, OnceLock},
+};
+
+pub use std::sync::atomic::Ordering;
+
+static YIELD: OnceLock<fn()> = OnceLock::new();
+static CAPTURE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
+
+/// Watcher callback, which has been captured instead of being attached to the operating system
+pub type Handler = Arc<Mutex<dyn notify::EventHandler>>;
+static HANDLERS: Mutex<Vec<Handler>> = Mutex::new(Vec::new());
+
+/// Installs a function, which is called around each access to shared state
+pub fn on_yield(cb: fn()) {
+    let _ = YIELD.set(cb);
+}
+
+/// Since this call callbacks given to `recommended_watcher` are captured
+pub fn capture_watchers(on: bool) {
+    CAPTURE.store(on, Ordering::SeqCst);
+}
+
+/// Returns captured callbacks
+pub fn take_handlers() -> Vec<Handler> {
+    std::mem::take(&mut *HANDLERS.lock().expect("handlers"))
+}
+
+fn yielded<T>(op: impl FnOnce() -> T) -> T {
+    if let Some(cb) = YIELD.get() {
+        cb();
+        let out = op();
+        cb();
+        out
+    } else {
+        op()
+    }
+}
+
+struct Captured<F>(F);
+
+impl<F: notify::EventHandler> notify::EventHandler for Captured<F> {
+    fn handle_event(&mut self, event: notify::Result<notify::Event>) {
+        self.0.handle_event(event);
+    }
+}
+
+pub fn recommended_watcher<F: notify::EventHandler>(
+    handler: F,
+) -> notify::Result<notify::RecommendedWatcher> {
+    if CAPTURE.load(Ordering::SeqCst) {
+        HANDLERS
+            .lock()
+            .expect("handlers")
+            .push(Arc::new(Mutex::new(Captured(handler))));
+        notify::recommended_watcher(|_| {})
+    } else {
+        notify::recommended_watcher(handler)
+    }
+}
+
+pub mod fs {
+    pub use std::fs::*;
+
+    pub fn metadata<P: AsRef<std::path::Path>>(path: P) -> std::io::Result<Metadata> {
+        super::yielded(|| std::fs::metadata(path))
+    }
+}
+
+macro_rules! atomic {
+    ($name:ident, $ty:ty) => {
+        #[derive(Debug, Default)]
+        pub struct $name(std::sync::atomic::$name);
+
+        impl $name {
+            pub const fn new(v: $ty) -> Self {
+                Self(std::sync::atomic::$name::new(v))
+            }
+            pub fn load(&self, order: Ordering) -> $ty {
+                yielded(|| self.0.load(order))
+            }
+            pub fn store(&self, v: $ty, order: Ordering) {
+                yielded(|| self.0.store(v, order))
+            }
+            pub fn swap(&self, v: $ty, order: Ordering) -> $ty {
+                yielded(|| self.0.swap(v, order))
+            }
+            pub fn compare_exchange(
+                &self,
+                current: $ty,
+                new: $ty,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$ty, $ty> {
+                yielded(|| self.0.compare_exchange(current, new, success, failure))
+            }
+            pub fn compare_exchange_weak(
+                &self,
+                current: $ty,
+                new: $ty,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$ty, $ty> {
+                yielded(|| self.0.compare_exchange(current, new, success, failure))
+            }
+        }
+
+        impl Deref for $name {
+            type Target = std::sync::atomic::$name;
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+    };
+}
+
+atomic!(AtomicBool, bool);
+atomic!(AtomicU64, u64);
-- 
2.43.0

