From ee46a1e773e13ce6019d5727a6c7df8e2e6b1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 01/25] fix: derive(FixedLength) on tuple structs emitted
 unparsable tokens

---
 estimable_derive/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/estimable_derive/src/lib.rs b/estimable_derive/src/lib.rs
index 872e68f..79bd28f 100644
--- a/estimable_derive/src/lib.rs
+++ b/estimable_derive/src/lib.rs
@@ -36,10 +36,9 @@ fn impl_fixedlength(ast: &syn::DeriveInput) -> TokenStream {
                 _ => {
                     let ty = unnamed.iter().map(|x| &x.ty);
                     quote! {
-                    impl #fixed_len_trait for #name {
-                        const LEN : usize =
-                            #( <#ty as #fixed_len_trait>::LEN )+*
-                        };
+                        impl #fixed_len_trait for #name {
+                            const LEN : usize = #( <#ty as #fixed_len_trait>::LEN )+*;
+                        }
                     }
                 }
             },
-- 
2.43.0


From 9646c109c08bd0621da4e142f3ca6d5a70ecdfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 02/25] fix: opening an oversized window overflowed instead of
 reporting the bytes left

ContextOffset::set_fit computed bytes_left as abs - winsize (underflow whenever
the request exceeds the whole buffer) and cur + winsize without an overflow
check.
---
 src/internal/offset.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 3ce1ddc..857cc94 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -291,16 +291,15 @@ impl ContextOffset {
     /// of the stack, assuming it is non-empty.
     pub fn set_fit(&mut self, winsize: usize) -> ParseResult<()> {
         let cur: usize = self.index();
-        let new_tgt: usize = cur + winsize;
-        if new_tgt > self.abs {
-            let bytes_left = self.abs - winsize;
+        let bytes_left: usize = self.abs - cur;
+        if winsize > bytes_left {
             let request = winsize;
             Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
                 bytes_left,
                 request,
             }))
         } else {
-            self.frames.push_frame(new_tgt)
+            self.frames.push_frame(cur + winsize)
         }
     }
 
-- 
2.43.0


From 9c3a3c94c69da3a6138d67ab170f628f2c5ef468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 03/25] fix: Index::increment_checked overflowed for huge
 increments

---
 src/internal/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 857cc94..03022ad 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -40,7 +40,7 @@ impl Index {
     #[inline]
     pub fn increment_checked(&mut self, n: usize, lim: usize) -> (usize, bool) {
         let ret = self.0;
-        let is_valid = self.0 + n <= lim;
+        let is_valid = matches!(self.0.checked_add(n), Some(ix) if ix <= lim);
         if is_valid {
             self.0 += n;
         }
-- 
2.43.0


From f7235ddf3f9c869fc08326720cff6eeb82e30a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 04/25] fix: a failed enforce_target closed the window all the
 same

The window stack was popped before the target was checked, so a refused close
(residual bytes) silently lifted the window. The cleanup loops relied on that
for termination in their error branches; they now stop there.
---
 src/internal/offset.rs | 7 +++++--
 src/parse/mod.rs       | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 03022ad..878fe43 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -352,10 +352,13 @@ impl ContextOffset {
     pub fn enforce_target(&mut self) -> crate::parse::error::ParseResult<()> {
         let cur: usize = self.index();
 
-        match self.frames.pop() {
+        match self.frames.peek() {
             None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             Some(tgt) => match tgt.cmp(&cur) {
-                std::cmp::Ordering::Equal => Ok(()),
+                std::cmp::Ordering::Equal => {
+                    let _ = self.frames.pop();
+                    Ok(())
+                }
                 std::cmp::Ordering::Greater => {
                     Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual: tgt - cur,
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index baf3226..0f3ac25 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -804,10 +804,12 @@ pub mod byteparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
@@ -995,10 +997,12 @@ pub mod memoparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 0bf8505d2959418e48389203cf6717a09ce84d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 05/25] fix: SliceParser treated its base view as a context
 window

Without any open window, test_target could return true and enforce_target
popped the whole-buffer view (also when bytes remained), instead of reporting
CloseWithoutWindow; a refused close discarded the window and its bytes.
---
 src/internal/view.rs | 10 ++++++++++
 src/parse/mod.rs     | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/internal/view.rs b/src/internal/view.rs
index 8c0b0f2..254b73e 100644
--- a/src/internal/view.rs
+++ b/src/internal/view.rs
@@ -77,6 +77,16 @@ impl<'a> std::fmt::Debug for ViewStack<'a> {
     }
 }
 
+impl<'a> ViewStack<'a> {
+    /// Returns `true` if at least one context window has been opened on top of
+    /// the base view over the whole parse-buffer
+    #[inline]
+    #[must_use]
+    pub fn has_window(&self) -> bool {
+        self.0.len() > 1
+    }
+}
+
 impl<'a> Stack for ViewStack<'a> {
     type Item = SliceBuffer<'a>;
 
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 0f3ac25..e208259 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1171,22 +1171,24 @@ pub mod sliceparser {
 
         #[inline]
         fn test_target(&mut self) -> ParseResult<bool> {
-            if let Some(t) = self.view_stack.peek() {
-                Ok(t.is_empty())
-            } else {
-                Ok(false)
+            match self.view_stack.peek() {
+                Some(t) if self.view_stack.has_window() => Ok(t.is_empty()),
+                _ => Ok(false),
             }
         }
 
         fn enforce_target(&mut self) -> ParseResult<()> {
-            match self.view_stack.pop() {
-                None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
-                Some(_frame) => match _frame.len() {
-                    0 => Ok(()),
+            match self.view_stack.peek() {
+                Some(frame) if self.view_stack.has_window() => match frame.len() {
+                    0 => {
+                        let _ = self.view_stack.pop();
+                        Ok(())
+                    }
                     residual => Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual,
                     })),
                 },
+                _ => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             }
         }
 
-- 
2.43.0


From 69b54938a25be8f8107bc15430c6441655eaf213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 06/25] fix: OpenWouldExceedWindow carried absolute offsets
 instead of window sizes

ContextOffset reported the absolute target and limit where the error (and its
message, and SliceParser) speak of the requested and available window widths.
---
 src/internal/offset.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 878fe43..e875780 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -298,6 +298,11 @@ impl ContextOffset {
                 bytes_left,
                 request,
             }))
+        } else if winsize > self.rem() {
+            Err(ParseError::Window(WindowError::OpenWouldExceedWindow {
+                limit: self.rem(),
+                request: winsize,
+            }))
         } else {
             self.frames.push_frame(cur + winsize)
         }
-- 
2.43.0


From 3e7d6100d44ab371664df027a170db81128de9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 07/25] fix: VecBuffer bounds checks let out-of-range reads
 through

get_byte accepted ix == len and get_slice's ix + len could wrap around, both
reaching get_unchecked out of bounds from safe code.
---
 src/parse/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 96eab54..8cd4f53 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -194,7 +194,7 @@ impl VecBuffer {
     ///
     /// Will panic if `ix + len` is out-of-bounds
     pub fn get_slice(&self, ix: usize, len: usize) -> &[u8] {
-        assert!(ix + len <= self.len());
+        assert!(ix <= self.len() && len <= self.len() - ix);
         unsafe { self.get_slice_unchecked(ix, len) }
     }
 
@@ -216,7 +216,7 @@ impl VecBuffer {
     ///
     /// Will panic if the `ix` is out-of-bounds
     pub fn get_byte(&self, ix: usize) -> u8 {
-        assert!(ix <= self.len());
+        assert!(ix < self.len());
         unsafe { self.get_byte_unchecked(ix) }
     }
 }
-- 
2.43.0


From 205eb0db4bf4e7e04f495d4fcc0abf8bc0b56765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 08/25] fix: an out-of-range u30 length prefix panicked in
 process_prefix and skip_dynamic

LenPref::parse_as_usize now reports the same bounds error as decoding the prefix.
---
 src/dynamic.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index e6470ce..aca4645 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -267,7 +267,7 @@ where
 {
     fn parse_as_usize<P: Parser + ?Sized>(p: &mut P) -> ParseResult<usize> {
         let raw_bytes = p.consume(Self::LEN)?;
-        unsafe { Ok(Self::marshall_usize(raw_bytes)) }
+        unsafe { Self::marshall_usize(raw_bytes) }
     }
 
     /// Returns a `uX`-style name for LenPref, as is common for writing
@@ -281,33 +281,34 @@ where
     fn max_len() -> usize;
 }
 mod private {
+    use crate::parse::ParseResult;
+
     pub trait Sealed {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize;
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize>;
     }
 
     impl Sealed for u8 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 1]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for u16 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for crate::int::u30 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
-            let raw = i32::from_be_bytes(bytes);
-            let _ = crate::int::u30::try_from_i32(raw)
-                .expect("Inherent conversion from i32->u30 failed");
-            raw as usize
+            let raw = u32::from_be_bytes(bytes);
+            let _ = crate::int::u30::try_from_underlying(raw)?;
+            Ok(raw as usize)
         }
     }
 }
-- 
2.43.0


From 97283cf135d494df1480e7f44f8fb3df32b86803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 09/25] fix: decoding VPadded with fewer bytes than its reserve
 panicked or underflowed

It now returns the window error describing the missing reserve bytes.
---
 src/dynamic.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index aca4645..46dfbe9 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -59,7 +59,7 @@
 use crate::conv::len::{Estimable, FixedLength};
 use crate::conv::{Decode, Encode, EncodeLength};
 use crate::int::u30;
-use crate::parse::{ParseResult, Parser};
+use crate::parse::{error::WindowError, ParseResult, Parser};
 use std::borrow::Borrow;
 use std::convert::TryFrom;
 use std::fmt::{Debug, Display};
@@ -466,16 +466,16 @@ impl<T: Decode, const N: usize> Decode for VPadded<T, N> {
     where
         Self: Sized,
     {
-        let _rem = p.remainder();
-        debug_assert!(
-            _rem >= N,
-            "Cannot parse VPadded<{}, {}> with {} (< {}) bytes remaining",
-            std::any::type_name::<T>(),
-            N,
-            _rem,
-            N
-        );
-        p.set_fit(_rem - N)?;
+        let rem = p.remainder();
+        if rem < N {
+            return Err(WindowError::ConsumeWouldExceedLimit {
+                offset: p.offset(),
+                requested: N,
+                limit: p.view_len(),
+            }
+            .into());
+        }
+        p.set_fit(rem - N)?;
         let ret = T::parse(p)?;
         p.enforce_target()?;
         Ok(Self(ret))
-- 
2.43.0


From afa132ab70fd85408bd52f9bf78a54df10bd8c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 10/25] fix: the estimated length of N(0) was 0 bytes, its
 encoding takes 1

---
 src/zarith.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zarith.rs b/src/zarith.rs
index 125b43f..e3b2ba4 100644
--- a/src/zarith.rs
+++ b/src/zarith.rs
@@ -105,8 +105,10 @@ pub mod n {
         const KNOWN: Option<usize> = None;
 
         fn unknown(&self) -> usize {
-            let n: usize = self.0.bits() as usize;
-            Integer::div_ceil(&n, &7)
+            match self.0.bits() as usize {
+                0 => 1,
+                n => Integer::div_ceil(&n, &7),
+            }
         }
     }
 
-- 
2.43.0


From fa458f17602295b31232063c168079de130ac059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 11/25] fix: hex parsing accepted sign characters and panicked
 on non-ASCII text

u8::from_str_radix admits a leading '+', and slicing at odd byte offsets of
multi-byte characters panicked.
---
 src/hexstring.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index e1bc353..0b5b398 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -134,6 +134,8 @@ pub(crate) mod util {
             return Ok(Vec::new());
         } else if ascii_len % 2 != 0 {
             return Err(HexConvError::OddParity(src.to_string()));
+        } else if !src.bytes().all(|byte| byte.is_ascii_hexdigit()) {
+            return Err(HexConvError::NonHex(src.to_string()));
         }
 
         let bytes_len: usize = ascii_len / 2;
@@ -166,7 +168,7 @@ pub(crate) mod util {
         let ascii_len: usize = src.len();
         let bytes_len: usize = tgt.len();
 
-        if bytes_len * 2 != ascii_len {
+        if bytes_len * 2 != ascii_len || !src.bytes().all(|byte| byte.is_ascii_hexdigit()) {
             return false;
         }
 
-- 
2.43.0


From 08bc09a87b0e23c621cd027f5bd5064d704373a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 12/25] fix: LeftoverState::append left the appended bytes in
 its argument

Documented to leave `other` empty, it cloned them when `self` was Empty.
---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index e208259..237fac4 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -518,7 +518,7 @@ pub mod cleanup {
         pub fn append(&mut self, other: &mut Vec<u8>) {
             match self {
                 LeftoverState::Empty => {
-                    *self = Self::Windowless(other.clone());
+                    *self = Self::Windowless(std::mem::take(other));
                 }
                 LeftoverState::Windowless(buf) => buf.append(other),
                 LeftoverState::Windowed(sbuf) => sbuf.append_current(other),
-- 
2.43.0


From 8e3d27c14b6f2dff5332843ec357efe6e4320d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 13/25] fix: LeftoverState reported non-empty for windows
 without leftover bytes

SplitVec::is_empty is false as soon as a (zero-length) span exists.
---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 237fac4..e6d92ae 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -596,7 +596,7 @@ pub mod cleanup {
             match self {
                 LeftoverState::Empty => true,
                 /* NOTE: the following two cases are not expected to ever arise, but are handled for completeness */
-                LeftoverState::Windowed(sbuf) => sbuf.is_empty(),
+                LeftoverState::Windowed(sbuf) => sbuf.len() == 0,
                 LeftoverState::Windowless(buf) => buf.is_empty(),
             }
         }
-- 
2.43.0


From e9c62c867a7b454c5e7020a54ee97f878916b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 14/25] fix: MemoParser did not record the bytes consumed by
 skip_exactly

---
 src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index e6d92ae..42fb930 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1027,6 +1027,7 @@ pub mod memoparser {
         fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
             let (ix, adv) = self.offset.advance(nbytes);
             if adv {
+                self.munches.push(nbytes);
                 Ok(())
             } else {
                 let offset = ix;
-- 
2.43.0


From acdf950d08dc220b9f073dd97b4a33cf3b833038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 15/25] fix: collecting into or extending FixSeq and LimSeq
 lost the elements

The capacity check consumed the iterator with nth before the elements were
stored, so every collection of up to N elements came out empty.
---
 src/seq/fix.rs | 14 ++++++--------
 src/seq/lim.rs | 14 ++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index cafd45b..edeefc4 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -164,12 +164,11 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
             N.checked_sub(self.len())
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
-        let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let mut i = iter.into_iter().fuse();
+        self.0.extend(i.by_ref().take(rem));
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -184,12 +183,11 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     ///
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let mut i = iter.into_iter().fuse();
+        let ret = inner::Inner::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 171e7b9..e854039 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -198,12 +198,11 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
             N.checked_sub(self.len())
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
-        let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let mut i = iter.into_iter().fuse();
+        self.0.extend(i.by_ref().take(rem));
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -218,12 +217,11 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     ///
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let mut i = iter.into_iter().fuse();
+        let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::<T, N>::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
-- 
2.43.0


From 2a16776da96edd09ead07f082982c9101bbc3241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 16/25] fix: FixSeq::write_to encoded under-saturated values

The documentation promises that encoding enforces a length of exactly N.
---
 src/seq/fix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index edeefc4..ef184e7 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -267,6 +267,11 @@ impl<T: Estimable, const N: usize> Estimable for FixSeq<T, N> {
 
 impl<T: Encode, const N: usize> Encode for FixSeq<T, N> {
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert_eq!(
+            self.len(),
+            N,
+            "cannot encode FixSeq whose length is not its exact element count"
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
-- 
2.43.0


From 7458b53551807a686d63c1da721f322e2aaf0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 17/25] fix: RangedInt::try_from_i32 overflowed for values far
 below a positive MIN

---
 src/int.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/int.rs b/src/int.rs
index e8f8fa4..7bde757 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -268,7 +268,11 @@ where
             MAX
         );
 
-        let underlying: i64 = if MIN <= 0 { x } else { x - MIN } as i64;
+        let underlying: i64 = if MIN <= 0 {
+            i64::from(x)
+        } else {
+            i64::from(x) - i64::from(MIN)
+        };
         match I::try_from(BoundsError::<i64>::restrict(underlying, MIN, MAX)?) {
             Ok(val) => Ok(Self(val)),
             Err(e) => Err(BoundsError::Failed(e.into())),
-- 
2.43.0


From c9f95c31c65e524e4a526ece0fb0178ba64988d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 18/25] fix: default, min_val and max_val of RangedInt ignored
 the offset representation

With MIN > 0 the stored value is the offset from MIN, but these stored the
numeric bound itself, producing out-of-range or truncated values.
---
 src/int.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 7bde757..1a410c5 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -379,11 +379,11 @@ pub mod ranged_int_impls {
     macro_rules! impl_default_clamped {
         ( $t:ty ) => {
             impl<const MIN: i32, const MAX: i32> Default for RangedInt<$t, MIN, MAX> {
-                /// Returns the value in the range [MIN..MAX] that is closest to the
-                /// value of `Default::default()` for the backing type.
+                /// Returns the value in the range [MIN..MAX] that is numerically closest
+                /// to the value of `Default::default()` for the backing type.
                 fn default() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    let value = (<$t>::default() as i32).clamp(MIN, MAX);
+                    Self(if MIN > 0 { value - MIN } else { value } as $t)
                 }
             }
         };
@@ -408,15 +408,17 @@ pub mod ranged_int_impls {
                 /// Returns the minimum legal value of `Self`
                 #[inline]
                 pub const fn min_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MIN)
+                    Self(if MIN_I32 > 0 { 0 } else { Self::MIN })
                 }
 
                 /// Returns the maximum legal value of `Self`
                 #[inline]
                 pub const fn max_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MAX)
+                    if MIN_I32 > 0 {
+                        Self(MAX_I32.wrapping_sub(MIN_I32) as $t)
+                    } else {
+                        Self(Self::MAX)
+                    }
                 }
             }
         };
-- 
2.43.0


From a3c87c083fadf04e9679ae2ff3342b0f80f04247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 19/25] fix: converting an integer to RangedInt with MIN > 0
 rejected or panicked

The numeric argument was checked as though it were an offset from MIN, so
in-range values were refused and values below MIN panicked.
---
 src/int.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 1a410c5..a566ac0 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -466,9 +466,18 @@ pub mod ranged_int_impls {
                 type Error = BoundsError<i128>;
 
                 fn try_from(val: $src) -> Result<Self, Self::Error> {
-                    match BoundsError::restrict(val, MIN, MAX) {
-                        Ok(x) => unsafe { Ok(Self::from_numeric_unchecked(x)) }
-                        Err(e) => Err(e)
+                    // `BoundsError::restrict` interprets its argument as an offset
+                    // when `MIN > 0`, but `val` is a numeric value in all cases
+                    let (min, max, val) = (MIN as i128, MAX as i128, val as i128);
+                    if min > max {
+                        Err(BoundsError::InvalidBounds { min, max })
+                    } else if val < min {
+                        Err(BoundsError::Underflow { min, val })
+                    } else if val > max {
+                        Err(BoundsError::Overflow { max, val })
+                    } else {
+                        let underlying = if MIN > 0 { val - min } else { val };
+                        Ok(Self(<$backer>::try_from(underlying)?))
                     }
                 }
             }
-- 
2.43.0


From e0b59620ee686bba6a249df98680e6c8c0f3dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 20/25] fix: integers converted from RangedInt with MIN > 0
 were the offset, not the value

---
 src/int.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index a566ac0..859897e 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -435,9 +435,19 @@ pub mod ranged_int_impls {
     ( $backer:ty => $( $dest:ty ),+ ) => {
         $(
             impl<const MIN: i32, const MAX: i32> From<RangedInt<$backer, MIN, MAX>> for $dest {
-                // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                /// Returns the numeric value of `val`
+                ///
+                /// # Panics
+                ///
+                /// Panics if the numeric value cannot be represented in the destination
+                /// type, which is only possible when `MIN > 0`.
                 fn from(val: RangedInt<$backer, MIN, MAX>) -> Self {
-                    val.0 as $dest
+                    if MIN > 0 {
+                        <$dest>::try_from(val.to_i32())
+                            .expect("numeric value of RangedInt does not fit the destination type")
+                    } else {
+                        val.0 as $dest
+                    }
                 }
             }
         )+
@@ -451,8 +461,11 @@ pub mod ranged_int_impls {
                 type Error = <$backer as TryInto<$dest>>::Error;
 
                 fn try_from(val: RangedInt<$backer, MIN, MAX>) -> Result<Self, Self::Error> {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    val.0.try_into()
+                    if MIN > 0 {
+                        val.to_i32().try_into()
+                    } else {
+                        val.0.try_into()
+                    }
                 }
             }
         )+
-- 
2.43.0


From 53b2f1dde09739c1f258c2b7fc7044887e110bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 21/25] fix: &String was not a decoding source under
 implicit_hexstring

---
 src/hexstring.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index 0b5b398..9cf2db4 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -561,6 +561,7 @@ macro_rules! impl_try_from {
 
 impl_try_from!(&str);
 impl_try_from!(String);
+impl_try_from!(&String);
 impl_try_from!(std::boxed::Box<str>);
 impl_try_from!(std::rc::Rc<str>);
 impl_try_from!(std::sync::Arc<str>);
-- 
2.43.0


From 01d233096bc647db24d9217f4c35b0d2a9373521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 22/25] fix: MemoBuffer printed a boundary after every byte
 instead of every segment

---
 src/builder/memo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder/memo.rs b/src/builder/memo.rs
index 0860090..423d493 100644
--- a/src/builder/memo.rs
+++ b/src/builder/memo.rs
@@ -117,8 +117,9 @@ impl std::fmt::Display for MemoBuffer {
         let mut ix: usize = 0;
         for l in self.lens.iter() {
             for &byte in &buf[ix..ix + l] {
-                write!(f, "{byte:02x}|")?
+                write!(f, "{byte:02x}")?
             }
+            write!(f, "|")?;
             ix += l;
         }
         write!(f, "]")
-- 
2.43.0


From 0b3df87fe1540761a96bf0370a88261b559c6b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 23/25] fix: derive(Decode) captured field types named P

---
 decode_derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decode_derive/src/lib.rs b/decode_derive/src/lib.rs
index 398a120..97a831e 100644
--- a/decode_derive/src/lib.rs
+++ b/decode_derive/src/lib.rs
@@ -24,7 +24,7 @@ fn impl_decode(ast: &syn::DeriveInput) -> TokenStream {
             syn::Fields::Unit => {
                 quote! {
                     impl #decode_trait for #name {
-                        fn parse<P: #parser_trait>(_: &mut P) -> #parse_result_type<Self> {
+                        fn parse<__P: #parser_trait>(_: &mut __P) -> #parse_result_type<Self> {
                             Ok(Self)
                         }
                     }
@@ -34,7 +34,7 @@ fn impl_decode(ast: &syn::DeriveInput) -> TokenStream {
                 let ty = unnamed.iter().map(|x| &x.ty);
                 quote! {
                     impl #decode_trait for #name {
-                        fn parse<P: #parser_trait>(p: &mut P) -> #parse_result_type<Self> {
+                        fn parse<__P: #parser_trait>(p: &mut __P) -> #parse_result_type<Self> {
                             Ok(Self(#( <#ty as #decode_trait>::parse(p)? ),*))
                         }
                     }
@@ -47,7 +47,7 @@ fn impl_decode(ast: &syn::DeriveInput) -> TokenStream {
                     .unzip();
                 quote! {
                     impl #decode_trait for #name {
-                        fn parse<P: #parser_trait>(p: &mut P) -> #parse_result_type<Self> {
+                        fn parse<__P: #parser_trait>(p: &mut __P) -> #parse_result_type<Self> {
                             Ok(Self { #( #fname: <#ty as #decode_trait>::parse(p)? ),* })
                         }
                     }
-- 
2.43.0


From 2b74bfc035c601d72656f2af75e0b8ec8ea23989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:37 +0000
Subject: [PATCH 24/25] fix: length-prefix parsing trusted a foreign Parser to
 return the requested width

---
 src/dynamic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index 46dfbe9..a8aa8cd 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -281,7 +281,7 @@ where
     fn max_len() -> usize;
 }
 mod private {
-    use crate::parse::ParseResult;
+    use crate::parse::{error::coerce_slice, ParseResult};
 
     pub trait Sealed {
         unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize>;
@@ -289,7 +289,7 @@ mod private {
 
     impl Sealed for u8 {
         unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
-            let bytes = <[u8; 1]>::try_from(bytes).unwrap_unchecked();
+            let bytes = coerce_slice::<1>(bytes)?;
             let raw = Self::from_be_bytes(bytes);
             Ok(raw as usize)
         }
@@ -297,7 +297,7 @@ mod private {
 
     impl Sealed for u16 {
         unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
-            let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
+            let bytes = coerce_slice::<2>(bytes)?;
             let raw = Self::from_be_bytes(bytes);
             Ok(raw as usize)
         }
@@ -305,7 +305,7 @@ mod private {
 
     impl Sealed for crate::int::u30 {
         unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
-            let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
+            let bytes = coerce_slice::<4>(bytes)?;
             let raw = u32::from_be_bytes(bytes);
             let _ = crate::int::u30::try_from_underlying(raw)?;
             Ok(raw as usize)
-- 
2.43.0


From eb1f92a8791ac6686306ad8673006ec03ad744ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:53 +0000
Subject: [PATCH 25/25] fix: decoding LimSeq or FixSeq reserved room for the
 full bound before reading an element

---
 src/seq/fix.rs | 4 +++-
 src/seq/lim.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index ef184e7..83fbfd1 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -281,7 +281,9 @@ where
     T: Decode,
 {
     fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
-        let mut seq = Self::new();
+        // not `Self::new`, which sets aside room for `N` elements: how many are
+        // actually there is up to the input
+        let mut seq = Self(inner::Inner::<T, N>::new());
 
         while p.remainder() != 0 && seq.len() < N {
             seq.try_push(T::parse(p)?)?;
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index e854039..fadcb83 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -296,7 +296,9 @@ where
     T: Decode,
 {
     fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
-        let mut seq = Self::new();
+        // not `Self::new`, which sets aside room for `N` elements: how many are
+        // actually there is up to the input
+        let mut seq = Self(inner::Inner::<T, N>::new());
 
         while p.remainder() != 0 {
             seq.try_push(T::parse(p)?)?;
-- 
2.43.0

