From ecc5fdf57c744a4b4dda1a30ed66576b65d86edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 1/9] fix: report blobs truncated by EOF when skipping them by
 seeking

Seeking beyond EOF succeeds for files and cursors, so a blob whose declared
length exceeds the input was silently skipped as if it were complete; with
graceful EOF enabled nothing reported the missing data at all.
---
 src/stream.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 4aa2031..c0c3833 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -381,12 +381,23 @@ impl<R> Stream<R> {
                 let second = self.skip_by_seek(n - first, seek)?;
                 Ok(first + second)
             }
+        } else if 0 == n {
+            Ok(0)
         } else {
             // Otherwise, try to seek directly.
             self.check_advance_pos(n)?;
-            if seek(&mut self.inner, io::SeekFrom::Current(n as i64)).is_ok() {
-                self.pos += n;
-                Ok(n)
+            // Seeking beyond EOF usually succeeds, so seek to the last byte
+            // and read that to be sure that the whole blob is really there.
+            if let Ok(last) = seek(&mut self.inner,
+                                   io::SeekFrom::Current(n as i64 - 1)) {
+                self.pos += n - 1;
+                if 1 == self.skip_by_discard(1)? {
+                    Ok(n)
+                } else {
+                    // We went past EOF. Only count the bytes before that.
+                    let eof = seek(&mut self.inner, io::SeekFrom::End(0))?;
+                    Ok((n - 1).saturating_sub(last.saturating_sub(eof)))
+                }
             } else {
                 // If seeking failed (maybe the underlying file descriptor isn't
                 // actually seekable?), fall back to read+discard.
-- 
2.43.0


From 2175b19246489c09f9a40b983c5ea98323948bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 2/9] fix: Blob::read_fully must not return a truncated blob as
 if it were complete

If the underlying input ends before the end of the blob, the bytes read so far
were returned as the full value; report TruncatedBlob instead.
---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index c0c3833..e46e70a 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1175,6 +1175,9 @@ impl<'d, R : 'd> Blob<'d, R> {
 
         let mut ret = Vec::new();
         self.read_to_end(&mut ret)?;
+        if self.remaining() > 0 {
+            return Err(Error::TruncatedBlob(self.remaining()));
+        }
         Ok(ret)
     }
 
-- 
2.43.0


From da205c3d85826d9b17bbace5cbbc5b4e887cea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 3/9] fix: seeking a Blob by i64::MIN must not overflow

Negating the offset overflows for i64::MIN, which panicked in checked builds
instead of reporting that the seek is out of bounds.
---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index e46e70a..14b7c97 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1334,13 +1334,13 @@ impl<'d, R : Seek + 'd> Seek for Blob<'d, R> {
             },
             io::SeekFrom::End(off) => {
                 check!(off <= 0);
-                let off = (-off) as u64;
+                let off = off.wrapping_neg() as u64;
                 check!(off <= self.len);
                 self.start_pos() + (self.len - off)
             },
             io::SeekFrom::Current(off) => {
                 if off < 0 {
-                    let off = (-off) as u64;
+                    let off = off.wrapping_neg() as u64;
                     check!(off <= self.inner_pos());
                     self.stream_pos() - off
                 } else {
-- 
2.43.0


From 88470c2ecf3f98dacc792abef3402e83c3911995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 4/9] fix: cursors positioned past the end of their buffer have
 no bytes left

Seeking a cursor past the end of its buffer is allowed, and reading there
yields nothing, but taking the unconsumed bytes as a slice panicked.
---
 src/io.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index b2e0387..23e7799 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,6 +9,7 @@
 
 //! Specialised adapters for doing IO.
 
+use std::cmp::min;
 use std::io::{self, BufRead, Read, Seek, Write};
 
 /// A simple wrapper around `io::Cursor` which exposes `AsRef<[u8]>` and
@@ -56,16 +57,18 @@ impl<T : AsRef<[u8]>> Seek for TransparentCursor<T> {
 impl<T : AsRef<[u8]>> AsRef<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_ref(&self) -> &[u8] {
-        let pos = self.0.position() as usize;
-        &self.0.get_ref().as_ref()[pos..]
+        let buf = self.0.get_ref().as_ref();
+        &buf[min(self.0.position(), buf.len() as u64) as usize..]
     }
 }
 
 impl<T : AsMut<[u8]>> AsMut<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_mut(&mut self) -> &mut [u8] {
-        let pos = self.0.position() as usize;
-        &mut self.0.get_mut().as_mut()[pos..]
+        let pos = self.0.position();
+        let buf = self.0.get_mut().as_mut();
+        let pos = min(pos, buf.len() as u64) as usize;
+        &mut buf[pos..]
     }
 }
 
@@ -84,7 +87,7 @@ impl<'a> AsExtBytes<'a> for &'a [u8] {
 impl<'a> AsExtBytes<'a> for io::Cursor<&'a [u8]> {
     fn as_ext_bytes(&mut self) -> &'a [u8] {
         let buf: &'a [u8] = *self.get_ref();
-        &buf[(self.position() as usize)..]
+        &buf[min(self.position(), buf.len() as u64) as usize..]
     }
 }
 
-- 
2.43.0


From acf76ce1c020cd93d421de3ff3d6f0fb255607e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 5/9] fix: starting a dynamic blob near the maximum position
 must not overflow

The length was computed without checking that the header fits, which panicked
in checked builds and wrapped around otherwise.
---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 14b7c97..aa6b084 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -909,6 +909,9 @@ impl<R> Stream<R> {
     fn write_desc_with_blob_dynamic(&mut self, desc: wire::ParsedDescriptor)
                                     -> Result<Blob<R>>
     where R : Write + Seek {
+        self.commit()?;
+        // 10 bytes length + 1 byte tag
+        self.check_advance_pos(11)?;
         self.write_desc(desc)?;
         let len = u64::MAX - self.pos - 10;
         wire::encode_fixed_u64(&mut self.track(false), len)?;
-- 
2.43.0


From ad1929fc80ac05dbf174bb66202dfe0d8d6e506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 6/9] fix: Context::collect must count all the items it was
 asked for

Only one was added to the running count whatever the number of items, so
max_collect was not enforced for callers collecting several at once.
---
 src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6cee4ac..6a6f4fa 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -327,7 +327,7 @@ impl<'a> Context<'a> {
         if self.config.max_collect - self.stats.collected.get() < n {
             Err(Error::MaxCollectExceeded(self.to_string()))
         } else {
-            self.stats.collected.set(self.stats.collected.get() + 1);
+            self.stats.collected.set(self.stats.collected.get() + n);
             Ok(())
         }
     }
-- 
2.43.0


From c540591547a495ed31b03432e295fd5e555db0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 7/9] fix: a repeated field of a retrofitted type occurs too
 many times, not too few

---
 src/sugar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sugar.rs b/src/sugar.rs
index 2521a05..a5d3e7e 100644
--- a/src/sugar.rs
+++ b/src/sugar.rs
@@ -531,7 +531,7 @@ macro_rules! fourleaf_retrofit {
                              field: &mut $crate::stream::Field<R>)
                              -> $crate::de::Result<()> {
             if accum.is_some() {
-                return Err($crate::de::Error::FieldOccursTooFewTimes(
+                return Err($crate::de::Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }
 
-- 
2.43.0


From 96ff317451ecce47ff4c577e1c4ebe63d5572a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:52 +0000
Subject: [PATCH 8/9] fix: limits smaller than what has been used up already
 must not underflow

---
 src/de.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 6a6f4fa..d6caeff 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -324,11 +324,12 @@ impl<'a> Context<'a> {
     /// to `max_collect`, update the running collection count and return `Ok`.
     /// Otherwise, return an error.
     pub fn collect(&self, n: usize) -> Result<()> {
-        if self.config.max_collect - self.stats.collected.get() < n {
-            Err(Error::MaxCollectExceeded(self.to_string()))
-        } else {
-            self.stats.collected.set(self.stats.collected.get() + n);
-            Ok(())
+        match self.stats.collected.get().checked_add(n) {
+            Some(total) if total <= self.config.max_collect => {
+                self.stats.collected.set(total);
+                Ok(())
+            },
+            _ => Err(Error::MaxCollectExceeded(self.to_string())),
         }
     }
 
@@ -336,12 +337,12 @@ impl<'a> Context<'a> {
     /// `max_blob`, update the running sum and return `Ok`. Otherwise, return
     /// an error.
     pub fn blob(&self, n: u64) -> Result<()> {
-        if ((self.config.max_blob - self.stats.total_blob.get()) as u64) < n {
-            Err(Error::MaxBlobExceeded(self.to_string()))
-        } else {
-            self.stats.total_blob.set(
-                self.stats.total_blob.get() + (n as usize));
-            Ok(())
+        match (self.stats.total_blob.get() as u64).checked_add(n) {
+            Some(total) if total <= self.config.max_blob as u64 => {
+                self.stats.total_blob.set(total as usize);
+                Ok(())
+            },
+            _ => Err(Error::MaxBlobExceeded(self.to_string())),
         }
     }
 }
-- 
2.43.0


From 77f9839b7e47b3128af8410c68dc0f6b5986971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:09 +0000
Subject: [PATCH 9/9] fix: after a truncated blob the position is where the
 input ended

Seeking past the end of the input left the position in the missing part of the
blob, while reading and discarding leaves it at the end of the input; the number
of missing bytes reported again on the next call was wrong as well.
---
 src/stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index aa6b084..9676a66 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -396,7 +396,9 @@ impl<R> Stream<R> {
                 } else {
                     // We went past EOF. Only count the bytes before that.
                     let eof = seek(&mut self.inner, io::SeekFrom::End(0))?;
-                    Ok((n - 1).saturating_sub(last.saturating_sub(eof)))
+                    let beyond = last.saturating_sub(eof).min(n - 1);
+                    self.pos -= beyond;
+                    Ok(n - 1 - beyond)
                 }
             } else {
                 // If seeking failed (maybe the underlying file descriptor isn't
-- 
2.43.0

