From dff68c1950ae5b9e88db0c45db48857fab99e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 1/7] fix: do not redeliver stale bytes after a failed buffer
 refill

---
 src/input.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.rs b/src/input.rs
index 4ec5b7d..df1307f 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -134,6 +134,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
         if self.pos == self.num_valid {
             // The buffer was depleted, replenish it first.
             self.pos = 0;
+            self.num_valid = 0;
             self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
 
             if self.num_valid == 0 {
@@ -154,6 +155,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
         if self.pos == self.num_valid {
             // The buffer was depleted, try to replenish it first.
             self.pos = 0;
+            self.num_valid = 0;
             self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
 
             if self.num_valid == 0 {
@@ -178,6 +180,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
             if bytes_left > 0 {
                 // Replenish the buffer if there is more to be read.
                 self.pos = 0;
+                self.num_valid = 0;
                 self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
@@ -199,6 +202,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
             if amount > 0 {
                 // If there is more to skip, refill the buffer first.
                 self.pos = 0;
+                self.num_valid = 0;
                 self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
 
                 if self.num_valid == 0 {
-- 
2.43.0


From b4fc0a7d62ff45de807538eea043a7c06c6c2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 2/7] fix: do not read out of bounds if the reader returns an
 invalid length

---
 src/input.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index df1307f..5c8606b 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -64,6 +64,19 @@ impl<R: io::Read> BufferedReader<R> {
     pub fn into_inner(self) -> R {
         self.inner
     }
+
+    /// Reads from the inner reader into the buffer, returns the bytes read.
+    ///
+    /// `io::Read` is a safe trait, so the length that it returns cannot be
+    /// trusted to not exceed the length of the buffer.
+    fn read_inner(&mut self) -> io::Result<u32> {
+        let num_read = try!(self.inner.read(&mut self.buf));
+        if num_read > self.buf.len() {
+            return Err(io::Error::new(io::ErrorKind::Other,
+                                      "Reader returned an invalid length."))
+        }
+        Ok(num_read as u32)
+    }
 }
 
 
@@ -135,7 +148,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
             // The buffer was depleted, replenish it first.
             self.pos = 0;
             self.num_valid = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            self.num_valid = try!(self.read_inner());
 
             if self.num_valid == 0 {
                 return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
@@ -156,7 +169,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
             // The buffer was depleted, try to replenish it first.
             self.pos = 0;
             self.num_valid = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            self.num_valid = try!(self.read_inner());
 
             if self.num_valid == 0 {
                 return Ok(None);
@@ -181,7 +194,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
                 // Replenish the buffer if there is more to be read.
                 self.pos = 0;
                 self.num_valid = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                self.num_valid = try!(self.read_inner());
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                               "Expected more bytes."))
@@ -203,7 +216,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
                 // If there is more to skip, refill the buffer first.
                 self.pos = 0;
                 self.num_valid = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                self.num_valid = try!(self.read_inner());
 
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
-- 
2.43.0


From 612fc626052043d7c2aec85e5bc9329f32ecd07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 3/7] fix: do not pass uninitialized memory to read_into

---
 src/metadata.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index ddfe207..de39147 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -429,12 +429,10 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
     // 32-bit vendor string length, and comment count.
     let vendor_len = try!(input.read_le_u32());
     if vendor_len > length - 8 { return fmt_err("vendor string too long") }
-    let mut vendor_bytes = Vec::with_capacity(vendor_len as usize);
 
-    // We can safely set the lenght of the vector here; the uninitialized memory
-    // is not exposed. If `read_into` succeeds, it will have overwritten all
-    // bytes. If not, an error is returned and the memory is never exposed.
-    unsafe { vendor_bytes.set_len(vendor_len as usize); }
+    // The vector must be initialized, because `read_into` can be implemented by
+    // the user, so it might read the buffer, or not overwrite all of it.
+    let mut vendor_bytes = vec![0; vendor_len as usize];
     try!(input.read_into(&mut vendor_bytes));
     let vendor = try!(String::from_utf8(vendor_bytes));
 
@@ -469,9 +467,7 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
             continue;
         }
 
-        // For the same reason as above, setting the length is safe here.
-        let mut comment_bytes = Vec::with_capacity(comment_len as usize);
-        unsafe { comment_bytes.set_len(comment_len as usize); }
+        let mut comment_bytes = vec![0; comment_len as usize];
         try!(input.read_into(&mut comment_bytes));
 
         bytes_left -= comment_len;
@@ -537,12 +533,9 @@ fn read_application_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<(u
     let id = try!(input.read_be_u32());
 
     // Four bytes of the block have been used for the ID, the rest is payload.
-    // Create a vector of uninitialized memory, and read the block into it. The
-    // uninitialized memory is never exposed: read_into will either fill the
-    // buffer completely, or return an err, in which case the memory is not
-    // exposed.
-    let mut data = Vec::with_capacity(length as usize - 4);
-    unsafe { data.set_len(length as usize - 4); }
+    // The vector must be initialized, because `read_into` can be implemented by
+    // the user, so it might read the buffer, or not overwrite all of it.
+    let mut data = vec![0; length as usize - 4];
     try!(input.read_into(&mut data));
 
     Ok((id, data))
-- 
2.43.0


From fa1d90db8da050515164250dcd46825913d61781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 4/7] fix: report end of stream inside a frame sync code as an
 error

---
 src/input.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 5c8606b..de6dc50 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -106,9 +106,8 @@ pub trait ReadBytes {
     /// Reads two bytes and interprets them as a big-endian 16-bit unsigned integer.
     fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {
         if let Some(b0) = try!(self.read_u8_or_eof()) {
-            if let Some(b1) = try!(self.read_u8_or_eof()) {
-                return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
-            }
+            let b1 = try!(self.read_u8());
+            return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
         }
         Ok(None)
     }
-- 
2.43.0


From aca2b1ba3e5d7e7921d3ef9dd608410c385e62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 5/7] fix: do not overflow the unary count on a long run of
 zeros

---
 src/input.rs    | 3 ++-
 src/subframe.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index de6dc50..f0b49ea 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -513,7 +513,8 @@ impl<R: ReadBytes> Bitstream<R> {
             loop {
                 let fresh_byte = try!(self.reader.read_u8());
                 let zeros = fresh_byte.leading_zeros();
-                n = n + zeros;
+                // Saturate, the count overflows after 512 MiB of zeros.
+                n = n.saturating_add(zeros);
                 if zeros < 8 {
                     // We consumed the zeros, plus the one following it.
                     self.bits_left = 8 - (zeros + 1);
diff --git a/src/subframe.rs b/src/subframe.rs
index 06c637b..cbe01eb 100644
--- a/src/subframe.rs
+++ b/src/subframe.rs
@@ -73,7 +73,7 @@ fn read_subframe_header<R: ReadBytes>(input: &mut Bitstream<R>) -> Result<Subfra
     let wasted_bits = if !wastes_bits {
         0
     } else {
-        1 + try!(input.read_unary())
+        try!(input.read_unary()).saturating_add(1)
     };
 
     // The spec puts no bounds on the number of wasted bits per sample, but more
-- 
2.43.0


From 2efa411ff3df8c24c8d85a0e3b1df0b6bc6ad839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 6/7] fix: do not overflow when a cursor is positioned past the
 end

---
 src/input.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index f0b49ea..9e82dac 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -271,7 +271,9 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
         let pos = self.position();
-        if pos + buffer.len() as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        // The position of a cursor can be past the end of the data.
+        if pos <= len && buffer.len() as u64 <= len - pos {
             let start = pos as usize;
             let end = pos as usize + buffer.len();
             buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);
@@ -284,7 +286,8 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn skip(&mut self, amount: u32) -> io::Result<()> {
         let pos = self.position();
-        if pos + amount as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        if pos <= len && amount as u64 <= len - pos {
             self.set_position(pos + amount as u64);
             Ok(())
         } else {
-- 
2.43.0


From 8b4dbbc5a869a2f2e2ced46f569ea4baa543ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 7/7] fix: reject an eight-byte frame or sample number

---
 src/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 9c06852..b6b2fb2 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -76,9 +76,10 @@ fn read_var_length_int<R: ReadBytes>(input: &mut R) -> Result<u64> {
         mask_mark = mask_mark >> 1;
     }
 
-    // A single leading 1 is a follow-up byte and thus invalid.
+    // A single leading 1 is a follow-up byte and thus invalid. Eight leading 1s
+    // would code for more than 36 bits, which the format does not allow.
     if read_additional > 0 {
-        if read_additional == 1 {
+        if read_additional == 1 || read_additional == 8 {
             return fmt_err("invalid variable-length integer");
         } else {
             // The number of 1s (if > 1) is the total number of bytes, not the
-- 
2.43.0

