From 8da557374d4353e475b9d591ea1c25861d1c53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 01/18] fix: Length decoder reports truncation in the call
 announcing EOS

The remaining byte count carried by an Eos excludes the buffer passed along
with it, but it was compared after adding the buffer length once more, so a
stream ending inside the frame was not reported (and the sum could overflow).
---
 src/combinator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3f0bcbf..915e61b 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -724,8 +724,7 @@ impl<D: Decode> Decode for Length<D> {
         let limit = cmp::min(buf.len() as u64, self.remaining_bytes) as usize;
         let required = self.remaining_bytes - limit as u64;
         let expected_eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
-        if let Some(mut remaining) = eos.remaining_bytes().to_u64() {
-            remaining += buf.len() as u64;
+        if let Some(remaining) = eos.remaining_bytes().to_u64() {
             track_assert!(remaining >= required, ErrorKind::UnexpectedEos; remaining, required);
         }
 
-- 
2.43.0


From 218faa4aa447400e12c6ff269c9fd69de110caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 02/18] fix: Length encoder is idle when it has no item and is
 reusable

A fresh Length encoder claimed to be busy and to require bytes although it
had no item, and after one item it refused every further one. It is now idle
exactly when its inner encoder is, and restores the count after each item.
---
 src/combinator.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 915e61b..b2d042e 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -752,6 +752,10 @@ impl<E: Encode> Encode for Length<E> {
     type Item = E::Item;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        if self.is_idle() {
+            return Ok(0);
+        }
+
         if (buf.len() as u64) < self.remaining_bytes {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
@@ -764,8 +768,9 @@ impl<E: Encode> Encode for Length<E> {
         let size = track!(self.inner.encode(&mut buf[..limit], eos))?;
         self.remaining_bytes -= size as u64;
         if self.inner.is_idle() {
+            let remaining_bytes = mem::replace(&mut self.remaining_bytes, self.expected_bytes);
             track_assert_eq!(
-                self.remaining_bytes,
+                remaining_bytes,
                 0,
                 ErrorKind::InvalidInput,
                 "Too small item"
@@ -775,26 +780,34 @@ impl<E: Encode> Encode for Length<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
-        track_assert_eq!(
-            self.remaining_bytes,
-            self.expected_bytes,
-            ErrorKind::EncoderFull
-        );
-        self.remaining_bytes = self.expected_bytes;
-        track!(self.inner.start_encoding(item))
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        track!(self.inner.start_encoding(item))?;
+        if self.inner.is_idle() {
+            track_assert_eq!(
+                self.expected_bytes,
+                0,
+                ErrorKind::InvalidInput,
+                "Too small item"
+            );
+        }
+        Ok(())
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        ByteCount::Finite(self.remaining_bytes)
+        ByteCount::Finite(self.exact_requiring_bytes())
     }
 
     fn is_idle(&self) -> bool {
-        self.remaining_bytes == 0
+        self.inner.is_idle()
     }
 }
 impl<E: Encode> SizedEncode for Length<E> {
     fn exact_requiring_bytes(&self) -> u64 {
-        self.remaining_bytes
+        if self.is_idle() {
+            0
+        } else {
+            self.remaining_bytes
+        }
     }
 }
 
-- 
2.43.0


From 05e1f6bad3e053a4dd7fd1290252fc79a870e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 03/18] fix: Collect reports or completes an item in progress
 at EOS

If EOS was announced in a call without bytes, an item that had been decoded
partially by earlier calls was silently dropped.
---
 src/combinator.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index b2d042e..072e5b1 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -586,6 +586,7 @@ impl<E: SizedEncode> SizedEncode for Optional<E> {
 pub struct Collect<D, T> {
     inner: D,
     items: T,
+    started: bool,
     eos: bool,
 }
 impl<D, T: Default> Collect<D, T> {
@@ -608,6 +609,7 @@ impl<D, T: Default> Collect<D, T> {
         Collect {
             inner,
             items: T::default(),
+            started: false,
             eos: false,
         }
     }
@@ -625,9 +627,17 @@ where
         }
 
         let mut offset = 0;
-        while offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while offset < buf.len() || (self.started && eos.is_reached()) {
+            if !self.inner.is_idle() {
+                let size = track!(self.inner.decode(&buf[offset..], eos))?;
+                offset += size;
+                self.started |= size != 0;
+                if !self.inner.is_idle() {
+                    return Ok(offset);
+                }
+            }
 
+            self.started = false;
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
         }
-- 
2.43.0


From 431ffba5432ec56fcafc842778d6305bdb4524bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 04/18] fix: Collect rejects items of zero size instead of
 looping forever

Such items never bring the decoder closer to EOS, so any byte left in the
buffer made it extend the collection without bound.
---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 072e5b1..265e59e 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -637,6 +637,7 @@ where
                 }
             }
 
+            track_assert!(self.started, ErrorKind::Other, "Zero-size item");
             self.started = false;
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
-- 
2.43.0


From cf71d55cff878c5dff5dd1e75b1d92b1bffce01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 05/18] fix: Collect requires bytes until EOS

It announced the requirement of its inner decoder, which is no lower bound
because the stream may end before the next item, and which made decode_exact
spin on inner decoders requiring no bytes.
---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 265e59e..a664f2c 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -659,7 +659,7 @@ where
         if self.eos {
             ByteCount::Finite(0)
         } else {
-            self.inner.requiring_bytes()
+            ByteCount::Infinite
         }
     }
 
-- 
2.43.0


From e492578330c64dbf67f8482f47fd6ea401e300fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 06/18] fix: CollectN drives its inner decoder also with an
 empty buffer

Items of zero size and items completed by EOS were never finished if no
byte was left in the buffer, so decode_exact looped forever on them.
---
 src/combinator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index a664f2c..cb07e5b 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -874,14 +874,19 @@ where
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
-        while self.remaining_items != 0 && offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while self.remaining_items != 0 {
+            if !self.inner.is_idle() {
+                offset += track!(self.inner.decode(&buf[offset..], eos))?;
+                if !self.inner.is_idle() {
+                    break;
+                }
+            }
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
             self.remaining_items -= 1;
         }
-        if self.remaining_items != 0 {
+        if self.remaining_items != 0 && offset == buf.len() {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
         Ok(offset)
-- 
2.43.0


From 908d3f62b374aa438e6a2c8dd401a9da16e516f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 07/18] fix: Repeat continues after an item of zero length

It stopped in the middle of the buffer, which encode_all takes for an
encoder making no progress.
---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index cb07e5b..a14e88c 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -424,7 +424,7 @@ where
 
             let size = track!(self.inner.encode(&mut buf[offset..], eos))?;
             offset += size;
-            if size == 0 {
+            if size == 0 && !self.inner.is_idle() {
                 return Ok(offset);
             }
         }
-- 
2.43.0


From 0daffd4e9a70d92c1208ef588386fb8d2ff8ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 08/18] fix: RemainingBytesDecoder limits its pre-allocation

The known distance to EOS often is a length field of the input; reserving
that much memory up front panicked or aborted on hostile lengths.
---
 src/bytes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 09c334b..729b4f5 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -306,7 +306,9 @@ impl Decode for RemainingBytesDecoder {
         }
 
         if let Some(remaining) = eos.remaining_bytes().to_u64() {
-            self.buf.reserve_exact(buf.len() + remaining as usize);
+            // The remaining count may come from untrusted input, so it is no more than a hint.
+            let remaining = cmp::min(remaining, 4096) as usize;
+            self.buf.reserve(buf.len() + remaining);
         }
         self.buf.extend_from_slice(buf);
         self.eos = eos.is_reached();
-- 
2.43.0


From 95dafca2a212ac6188fe6d140f44e5d0fb1cfb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 09/18] fix: byte count sums saturate instead of overflowing

Counts up to u64::MAX are valid (for example lengths taken from the input),
but adding them panicked or wrapped around to a smaller count.
---
 src/byte_count.rs | 4 ++--
 src/combinator.rs | 2 +-
 src/eos.rs        | 2 +-
 src/tuple.rs      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/byte_count.rs b/src/byte_count.rs
index 23d0040..bb5da7e 100644
--- a/src/byte_count.rs
+++ b/src/byte_count.rs
@@ -51,7 +51,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_decoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
@@ -75,7 +75,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_encoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (_, ByteCount::Unknown) => ByteCount::Unknown,
diff --git a/src/combinator.rs b/src/combinator.rs
index a14e88c..419af13 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1048,7 +1048,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
             }
             ByteCount::Finite(remaining_bytes) => {
                 let consumable_bytes = self.max_bytes - self.consumed_bytes;
-                track_assert!((buf.len() as u64) + remaining_bytes <= consumable_bytes,
+                track_assert!((buf.len() as u64).saturating_add(remaining_bytes) <= consumable_bytes,
                               ErrorKind::InvalidInput, "Max bytes limit exceeded";
                               buf.len(), remaining_bytes, self.consumed_bytes, self.max_bytes)
             }
diff --git a/src/eos.rs b/src/eos.rs
index 06801ab..402920d 100644
--- a/src/eos.rs
+++ b/src/eos.rs
@@ -47,7 +47,7 @@ impl Eos {
     /// ```
     pub fn back(&self, bytes: u64) -> Self {
         if let ByteCount::Finite(n) = self.0 {
-            Eos(ByteCount::Finite(n + bytes))
+            Eos(ByteCount::Finite(n.saturating_add(bytes)))
         } else {
             *self
         }
diff --git a/src/tuple.rs b/src/tuple.rs
index 294165b..2d38283 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -125,7 +125,7 @@ macro_rules! impl_encode {
             $($t: SizedEncode),*
         {
             fn exact_requiring_bytes(&self) -> u64 {
-                0 $(+ self.inner.$i.exact_requiring_bytes())*
+                0u64 $(.saturating_add(self.inner.$i.exact_requiring_bytes()))*
             }
         }
     };
-- 
2.43.0


From 0e58933aae904abfec4c102be8a50013040c7f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 10/18] fix: TupleEncoder and Optional refuse items while
 encoding

A busy TupleEncoder restarted its already finished components before a later
one refused the item, which corrupted its output, and a busy Optional
accepted and dropped an absent item.
---
 src/combinator.rs | 1 +
 src/tuple.rs      | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 419af13..e45c5fe 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -556,6 +556,7 @@ impl<E: Encode> Encode for Optional<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
         if let Some(item) = item {
             track!(self.0.start_encoding(item))?;
         }
diff --git a/src/tuple.rs b/src/tuple.rs
index 2d38283..ea3dfea 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -1,5 +1,5 @@
 //! Encoders and decoders for tuples.
-use crate::{ByteCount, Decode, Encode, Eos, Result, SizedEncode};
+use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode};
 
 /// Decoder for tuples.
 #[derive(Debug, Default)]
@@ -108,6 +108,7 @@ macro_rules! impl_encode {
             }
 
             fn start_encoding(&mut self, t: Self::Item) -> Result<()> {
+                track_assert!(self.is_idle(), ErrorKind::EncoderFull);
                 $(track!(self.inner.$i.start_encoding(t.$i), "i={}", $i)?;)*
                 Ok(())
             }
-- 
2.43.0


From 241a887338bce8d7e6708657f4ab7a91b024e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 11/18] fix: finishing a composite decoder too early loses no
 state

TupleDecoder and AndThen dropped what their parts had decoded, MaxBytes and
MaybeEos forgot that the item had been started. TupleDecoder also finishes
its remaining parts if one of them fails, so that none keeps a stale item.
---
 src/combinator.rs | 9 +++++++--
 src/tuple.rs      | 8 +++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index e45c5fe..faa825a 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -221,6 +221,7 @@ where
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         let mut d = track_assert_some!(self.inner1.take(), ErrorKind::IncompleteDecoding);
         track!(d.finish_decoding())
     }
@@ -1061,7 +1062,9 @@ impl<D: Decode> Decode for MaxBytes<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.consumed_bytes = 0;
+        if self.is_idle() {
+            self.consumed_bytes = 0;
+        }
         track!(self.inner.finish_decoding())
     }
 
@@ -1467,7 +1470,9 @@ impl<D: Decode> Decode for MaybeEos<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.started = false;
+        if self.is_idle() {
+            self.started = false;
+        }
         track!(self.inner.finish_decoding())
     }
 
diff --git a/src/tuple.rs b/src/tuple.rs
index ea3dfea..d381700 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -43,9 +43,11 @@ macro_rules! impl_decode {
             }
 
             fn finish_decoding(&mut self) -> Result<Self::Item> {
-                Ok((
-                    $(track!(self.inner.$i.finish_decoding(), "i={}", $i)?),*,
-                ))
+                track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
+                let results = (
+                    $(track!(self.inner.$i.finish_decoding(), "i={}", $i)),*,
+                );
+                Ok(($(results.$i?),*,))
             }
 
             fn requiring_bytes(&self) -> ByteCount {
-- 
2.43.0


From 329849f05992c78ebaa5a677fe0dc65dbef54451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 12/18] fix: MonolithicDecoder consumes nothing while it has an
 item

Bytes offered before the item was taken were appended to the next item, and
EOS replaced the item.
---
 src/monolithic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index cdd14db..78ccc71 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -50,7 +50,9 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
     type Item = D::Item;
 
     fn decode(&mut self, mut buf: &[u8], eos: Eos) -> Result<usize> {
-        if eos.is_reached() {
+        if self.item.is_some() {
+            Ok(0)
+        } else if eos.is_reached() {
             let original_len = buf.len();
             let item = track!(
                 self.inner.monolithic_decode(self.buf.as_slice().chain(buf.by_ref()));
-- 
2.43.0


From 8c4d4243ca15c804daadc64b8ce2b30367fac785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 13/18] fix: MonolithicEncoder reports EOS before the end of
 its item

If the first call did not have room for the whole item, EOS was ignored.
---
 src/monolithic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index 78ccc71..a2c715b 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -142,7 +142,9 @@ impl<E: MonolithicEncode> Encode for MonolithicEncoder<E> {
             if extra.is_empty() {
                 Ok(original_len - buf.len())
             } else {
+                let extra_len = extra.len();
                 track!(self.buf.start_encoding(extra))?;
+                track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos; original_len, extra_len);
                 Ok(original_len)
             }
         } else {
-- 
2.43.0


From 24c7adb2fb29d5b716c50fbfe88952929480139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 14/18] fix: Last fills the buffer with its final item

It stopped at the end of the pending item of its inner encoder, so it did
not notice EOS before the final item, either.
---
 src/combinator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index faa825a..9929121 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1305,12 +1305,13 @@ impl<E: Encode> Encode for Last<E> {
     type Item = Never;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        if self.inner.is_idle() {
-            if let Some(item) = self.item.take() {
-                track!(self.inner.start_encoding(item))?;
-            }
+        let mut offset = 0;
+        bytecodec_try_encode!(self.inner, offset, buf, eos);
+        if let Some(item) = self.item.take() {
+            track!(self.inner.start_encoding(item))?;
+            bytecodec_try_encode!(self.inner, offset, buf, eos);
         }
-        track!(self.inner.encode(buf, eos))
+        Ok(offset)
     }
 
     fn start_encoding(&mut self, _item: Self::Item) -> Result<()> {
-- 
2.43.0


From 0c00782de8774aa8d86e123c599023a21125aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 15/18] fix: decode_exact fails instead of spinning at EOS

A decoder that is not idle after EOS (for example a MaybeEos one) or that
makes no progress without bytes made it loop forever.
---
 src/io.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index 0a3951a..c3e3dad 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -48,6 +48,10 @@ pub trait IoDecodeExt: Decode {
                 let item = track!(self.finish_decoding())?;
                 return Ok(item);
             }
+            track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
+            if size == 0 {
+                track_assert_ne!(self.requiring_bytes(), ByteCount::Finite(0), ErrorKind::Other);
+            }
         }
     }
 }
-- 
2.43.0


From ffef7fa0611817e18c6db3fceb88afd5a5af8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 16/18] fix: poll_flush wakes the task waiting for free space

Only the blocking flush did so; a task that found the buffer full slept
forever if it was drained by poll_flush.
---
 src/io_async.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io_async.rs b/src/io_async.rs
index 2e766fd..d8762f4 100644
--- a/src/io_async.rs
+++ b/src/io_async.rs
@@ -57,6 +57,7 @@ impl<B: AsRef<[u8]> + AsMut<[u8]>> WriteBuf<B> {
         mut writer: Pin<&mut W>,
         cx: &mut Context<'_>,
     ) -> Poll<Result<()>> {
+        let was_full = self.is_full();
         while !self.is_empty() {
             match writer
                 .as_mut()
@@ -85,6 +86,11 @@ impl<B: AsRef<[u8]> + AsMut<[u8]>> WriteBuf<B> {
                 }
             }
         }
+        if was_full {
+            if let Some(ref waker) = self.waker {
+                waker.wake_by_ref();
+            }
+        }
         // Now the buffer is empty. Because the returned value is not Poll::Pending,
         // it is *the caller*'s responsibility to ensure this future is woken up.
         Poll::Ready(Ok(()))
-- 
2.43.0


From a6685054787c0cb38a0916801e928a813bb7838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 17/18] fix: MaxBytes encoder counts the bytes of each item
 afresh

After an item that exceeded the limit every later item was refused, however
small.
---
 src/combinator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 9929121..f6e4bac 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1092,6 +1092,8 @@ impl<E: Encode> Encode for MaxBytes<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        self.consumed_bytes = 0;
         track!(self.inner.start_encoding(item))
     }
 
-- 
2.43.0


From cb01c67edbbdc7f38e1059152fe4fa977dc0ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 18/18] fix: BincodeDecoder allocates no more than it received

A length prefix in the input made bincode resize a buffer to that length
before reading, so a few bytes of input could panic with a capacity
overflow or exhaust the memory.
---
 src/bincode_codec.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/bincode_codec.rs b/src/bincode_codec.rs
index fc5115c..a25f9de 100644
--- a/src/bincode_codec.rs
+++ b/src/bincode_codec.rs
@@ -3,6 +3,7 @@
 //! [bincode]: https://crates.io/crates/bincode
 use crate::monolithic::{MonolithicDecode, MonolithicDecoder, MonolithicEncode, MonolithicEncoder};
 use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result};
+use bincode::Options;
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Write};
 use std::marker::PhantomData;
@@ -32,11 +33,16 @@ where
     type Item = T;
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
+        if !self.0.is_idle() {
+            self.0.inner_mut().received_bytes += buf.len() as u64;
+        }
         track!(self.0.decode(buf, eos))
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        track!(self.0.finish_decoding())
+        let item = track!(self.0.finish_decoding())?;
+        self.0.inner_mut().received_bytes = 0;
+        Ok(item)
     }
 
     fn requiring_bytes(&self) -> ByteCount {
@@ -57,15 +63,22 @@ where
 }
 
 #[derive(Debug)]
-struct MonolithicBincodeDecoder<T>(PhantomData<T>)
+struct MonolithicBincodeDecoder<T>
 where
-    T: for<'de> Deserialize<'de>;
+    T: for<'de> Deserialize<'de>,
+{
+    received_bytes: u64,
+    _item: PhantomData<T>,
+}
 impl<T> MonolithicBincodeDecoder<T>
 where
     T: for<'de> Deserialize<'de>,
 {
     fn new() -> Self {
-        MonolithicBincodeDecoder(PhantomData)
+        MonolithicBincodeDecoder {
+            received_bytes: 0,
+            _item: PhantomData,
+        }
     }
 }
 impl<T> MonolithicDecode for MonolithicBincodeDecoder<T>
@@ -75,9 +88,14 @@ where
     type Item = T;
 
     fn monolithic_decode<R: Read>(&self, reader: R) -> Result<Self::Item> {
-        track!(
-            bincode::deserialize_from(reader).map_err(|e| ErrorKind::InvalidInput.cause(e).into())
-        )
+        // Without the limit, `bincode` would allocate memory for any length found in the input.
+        let options = bincode::DefaultOptions::new()
+            .with_fixint_encoding()
+            .allow_trailing_bytes()
+            .with_limit(self.received_bytes);
+        track!(options
+            .deserialize_from(reader)
+            .map_err(|e| ErrorKind::InvalidInput.cause(e).into()))
     }
 }
 
-- 
2.43.0

