From 89743d82b6ddd67e959e4a162a9ce8b51ad20564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:33 +0000
Subject: [PATCH 01/49] fix: ByteSet::max_elem inspects members instead of
 non-members below 0xc0

---
 src/byte_set.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte_set.rs b/src/byte_set.rs
index 7c1c47b..7174841 100644
--- a/src/byte_set.rs
+++ b/src/byte_set.rs
@@ -108,13 +108,13 @@ impl ByteSet {
         if let Some(i) = max_set_bit(self.bits[3]) {
             return Some(0xc0 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[2]) {
+        if let Some(i) = max_set_bit(self.bits[2]) {
             return Some(0x80 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[1]) {
+        if let Some(i) = max_set_bit(self.bits[1]) {
             return Some(0x40 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[0]) {
+        if let Some(i) = max_set_bit(self.bits[0]) {
             return Some(i);
         }
         None
-- 
2.43.0


From 343802326f37b637bbaa1ac2bf0edccdb5dc90e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:30 +0000
Subject: [PATCH 02/49] fix: bitwise Bounds operators no longer panic on
 operands of 2^63 and above

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 7d76f80..d3ccae4 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -484,7 +484,7 @@ fn blend_bits(k1: usize, k2: usize, m1: usize, m2: usize) -> usize {
 
 fn mask(x: usize) -> usize {
     if x != 0 {
-        1_usize.checked_shl(x.ilog2() + 1).unwrap() - 1
+        usize::MAX >> x.leading_zeros()
     } else {
         0
     }
-- 
2.43.0


From 3401187652b947d07bb2302c66be22ca3c360665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:30 +0000
Subject: [PATCH 03/49] fix: shifting Bounds left never yields a wrapped
 maximum

---
 src/bounds.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index d3ccae4..5fa610f 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -392,8 +392,8 @@ impl Bounds {
         let max = match (self.max, rhs.max) {
             (Some(m1), Some(m2)) => {
                 let max2 = u32::try_from(m2).ok()?;
-                // REVIEW - there may be edge-cases here where max2 < 64 but m1 overflows, yielding unexpectedly small values
-                m1.checked_shl(max2)
+                // a maximum that loses bits to the shift is not an upper bound
+                m1.checked_shl(max2).filter(|n| n >> max2 == m1)
             }
             _ => None,
         };
-- 
2.43.0


From 27e70987220dd663b9ec6d27c72205f533212a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:16 +0000
Subject: [PATCH 04/49] fix: bitwise-and of a Bounds range with an exact mask
 keeps the masked values in bounds

---
 src/bounds.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 5fa610f..68ef2b4 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -284,13 +284,11 @@ impl Bounds {
     /// over all in-range values, with the guarantee that the resulting bitwise-and will be no less
     /// than the true maximum of `y & m` for actually-in-range `y`.
     fn best_mask(&self, m: usize) -> (usize, usize) {
-        if self.contains(m) {
-            (m, m)
-        } else {
-            match self.max {
-                Some(n) => (mask(n), m),
-                _ => (m, m),
-            }
+        // NOTE - even an in-range `m` may not stand in for `x`: `blend_bits` also combines `x` with the
+        // bit-prefix of the other operand
+        match self.max {
+            Some(n) => (mask(n), m),
+            _ => (m, m),
         }
     }
 }
-- 
2.43.0


From bd991ade76e0ecfa87ccd85364d90ad6c66ef24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:23 +0000
Subject: [PATCH 05/49] fix: bits-mode reads no longer run up to seven bits
 past a byte-precision limit

---
 src/parser/offset.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 2d10ba7..016725d 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -171,6 +171,9 @@ impl PartialOrd for ByteOffset {
             Ordering::Equal => match (o1, o2) {
                 (None, None) => Some(Ordering::Equal),
                 (Some(m1), Some(m2)) => Some(m1.cmp(&m2)),
+                // partway into byte `n` is past a byte-precision offset of `n`
+                (Some(m1), None) if m1 > 0 => Some(Ordering::Greater),
+                (None, Some(m2)) if m2 > 0 => Some(Ordering::Less),
                 _ => None,
             },
             _ => Some(partial),
-- 
2.43.0


From 1ad09d1d4ee6ed3cea48f3b381dd458afce4fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:23 +0000
Subject: [PATCH 06/49] fix: advancing or slicing by a huge length is an
 overrun instead of an arithmetic overflow

---
 src/parser/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 016725d..851b894 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -70,13 +70,13 @@ impl ByteOffset {
 
     pub(crate) fn increment_by(&self, delta: usize) -> Self {
         match *self {
-            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes + delta),
+            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes.saturating_add(delta)),
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
             } => Self::Bits {
                 starting_byte,
-                bits_advanced: bits_advanced + delta,
+                bits_advanced: bits_advanced.saturating_add(delta),
             },
         }
     }
-- 
2.43.0


From 73b2756216f9b61362717b902e34acb259c90ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:23 +0000
Subject: [PATCH 07/49] fix: ReadCtxt::split_at rejects huge lengths instead of
 overflowing

---
 src/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read.rs b/src/read.rs
index 49a348b..31f69d1 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -47,7 +47,7 @@ impl<'a> ReadCtxt<'a> {
     /// Returns `None` if the specified position is out of bounds, i.e., if `offset + n`
     /// exceeds the length of the input.
     pub fn split_at(&self, n: usize) -> Option<(ReadCtxt<'a>, ReadCtxt<'a>)> {
-        if self.offset + n <= self.input.len() {
+        if self.offset.checked_add(n).is_some_and(|end| end <= self.input.len()) {
             let fst = ReadCtxt {
                 input: &self.input[..self.offset + n],
                 ..*self
-- 
2.43.0


From 07d8b734645ad27bc533ca2840d927c57dab20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:23 +0000
Subject: [PATCH 08/49] fix: View::offset reports a huge offset as an overrun
 instead of overflowing

---
 src/parser/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 4a1f5c9..e36404e 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -32,7 +32,7 @@ impl<'a> View<'a> {
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
         if offset > self.buffer.len() {
             Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                offset: ByteOffset::from_bytes(self.start_offset + offset),
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
                 max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
             }))
         } else {
-- 
2.43.0


From db55cda499faacec3727dd7039fb580336ef693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 09/49] verification hook: assemble a Parser in a given state
 (cfg doodle_verif)

---
 src/lib.rs           |  1 +
 src/parser/mod.rs    | 16 ++++++++++++++++
 src/parser/offset.rs | 30 ++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 21c666f..9f7cd1a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::new_without_default)]
+#![allow(unexpected_cfgs)] // `doodle_verif` guards verification hooks
 #![deny(rust_2018_idioms)]
 
 use std::cmp::Ordering;
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 36f9f96..4d675f0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -359,3 +359,19 @@ impl<'a> Parser<'a> {
         }
     }
 }
+
+#[cfg(doodle_verif)]
+impl<'a> Parser<'a> {
+    /// Verification hook: a parser in the given state, see `BufferOffset::verif_state`.
+    pub fn verif_state(
+        view: View<'a>,
+        current: ByteOffset,
+        max: ByteOffset,
+        contexts: &[(u8, ByteOffset)],
+    ) -> Self {
+        Parser {
+            buffer: view,
+            offset: BufferOffset::verif_state(current, max, contexts),
+        }
+    }
+}
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 851b894..9144dba 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -688,3 +688,33 @@ impl BufferOffset {
         std::mem::replace(&mut self.current_offset, offset)
     }
 }
+
+#[cfg(doodle_verif)]
+impl BufferOffset {
+    /// Verification hook: assembles an arbitrary state from its parts
+    /// (`(0, o)` = Alts, `(1, o)` = Peek, `(2, o)` = PeekNot, `(3, o)` = opaque Seek, `(4, o)` = Slice, otherwise transparent Seek).
+    pub(crate) fn verif_state(
+        current_offset: ByteOffset,
+        max_offset: ByteOffset,
+        contexts: &[(u8, ByteOffset)],
+    ) -> Self {
+        let mut stack = Vec::with_capacity(8);
+        for &(kind, o) in contexts {
+            stack.push(match kind {
+                0 => Lens::Alts { checkpoint: o },
+                1 => Lens::Peek { checkpoint: o },
+                2 => Lens::PeekNot { checkpoint: o },
+                4 => Lens::Slice { endpoint: o },
+                _ => Lens::Seek {
+                    is_transparent: kind != 3,
+                    checkpoint: o,
+                },
+            });
+        }
+        BufferOffset {
+            current_offset,
+            view_stack: ViewStack { stack },
+            max_offset,
+        }
+    }
+}
-- 
2.43.0


From dbc7191a434d79358af2be65410088ca48c177d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 10/49] fix: reading an array of a huge length is an
 end-of-stream error instead of an arithmetic overflow

---
 smallsorts/src/binary/read.rs | 9 ++++++---
 src/parser/view.rs            | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 2e28c02..2a4ad6c 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -537,7 +537,8 @@ impl<'a> ReadCtxt<'a> {
         &mut self,
         length: usize,
     ) -> Result<ReadArray<'a, T>, ParseError> {
-        let scope = self.read_scope(length * T::SIZE)?;
+        let size = length.checked_mul(T::SIZE).ok_or(ReadEof {})?;
+        let scope = self.read_scope(size)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -555,7 +556,8 @@ impl<'a> ReadCtxt<'a> {
         if T::SIZE > stride {
             return Err(ParseError::BadValue);
         }
-        let scope = self.read_scope(length * stride)?;
+        let size = length.checked_mul(stride).ok_or(ReadEof {})?;
+        let scope = self.read_scope(size)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -592,7 +594,8 @@ impl<'a> ReadCtxt<'a> {
         args: T::Args<'a>,
     ) -> Result<ReadArray<'a, T>, ParseError> {
         let stride = T::size(args);
-        let scope = self.read_scope(length * stride)?;
+        let size = length.checked_mul(stride).ok_or(ReadEof {})?;
+        let scope = self.read_scope(size)?;
         Ok(ReadArray {
             scope,
             length,
diff --git a/src/parser/view.rs b/src/parser/view.rs
index e36404e..1533a4d 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -55,7 +55,9 @@ impl<'a> View<'a> {
             Err(e) => match e {
                 AllSortsParseError::BadEof => {
                     Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                        offset: ByteOffset::from_bytes(self.start_offset + len * size),
+                        offset: ByteOffset::from_bytes(
+                            self.start_offset.saturating_add(len.saturating_mul(size)),
+                        ),
                         max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
                     }))
                 }
-- 
2.43.0


From f4fb91945b82d7281167abbf46d3a7b98261cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 11/49] fix: ReadArray::read_item honours the stride of a
 strided array

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 2a4ad6c..ef42a55 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -661,7 +661,7 @@ impl<'a, T: ReadFixedSizeDep> ReadArray<'a, T> {
     pub fn read_item(&self, index: usize) -> Result<T::HostType<'a>, ParseError> {
         if index < self.length {
             let size = T::size(self.args);
-            let offset = index * size;
+            let offset = index * self.stride;
             let scope = self.scope.offset_length(offset, size).unwrap();
             let mut ctxt = scope.ctxt();
             T::read_dep(&mut ctxt, self.args)
-- 
2.43.0


From 58d442c8bcef29302d09eed59d656a8e5be042fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 12/49] fix: ReadArrayIter::size_hint counts the items left,
 not all items

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index ef42a55..b5e7fad 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -817,7 +817,7 @@ impl<'a, 'b, T: ReadUnchecked> Iterator for ReadArrayIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.scope.data().len() / self.stride;
+        let remaining = (self.scope.data().len() / self.stride).saturating_sub(self.index);
         (remaining, Some(remaining))
     }
 }
-- 
2.43.0


From 7cdeb746e2da94e74dc2b07ed7fb72b584838e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:26 +0000
Subject: [PATCH 13/49] fix: shift amounts of 2^32 and above are refused
 instead of truncated

---
 src/decoder/value.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3d60dc8..3d219f4 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -416,7 +416,7 @@ where
     T: num_traits::CheckedRem,
     T: num_traits::CheckedShl,
     T: num_traits::CheckedShr,
-    T: num_traits::AsPrimitive<u32>,
+    T: num_traits::ToPrimitive,
     T: std::ops::BitOr<Output = T>,
     T: std::ops::BitAnd<Output = T>,
 {
@@ -436,8 +436,14 @@ where
         Arith::Rem => left
             .checked_rem(&right)
             .unwrap_or_else(|| panic!("integer overflow")),
-        Arith::Shl => left << right.as_(),
-        Arith::Shr => left >> right.as_(),
+        Arith::Shl => right
+            .to_u32()
+            .and_then(|n| left.checked_shl(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
+        Arith::Shr => right
+            .to_u32()
+            .and_then(|n| left.checked_shr(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
         Arith::BitOr => left | right,
         Arith::BitAnd => left & right,
         Arith::BoolOr | Arith::BoolAnd => unreachable!("bool ops should be handled separately"),
-- 
2.43.0


From 85f0c1666dc574715240eef58afc3ccc8ab2f7de Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:21:53 +0000
Subject: [PATCH 14/49] fix: a sub-sequence may reach the end of an integer
 range

---
 src/decoder/seq_kind.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/seq_kind.rs b/src/decoder/seq_kind.rs
index 11d8717..443485b 100644
--- a/src/decoder/seq_kind.rs
+++ b/src/decoder/seq_kind.rs
@@ -54,7 +54,7 @@ pub(crate) fn sub_range(
     len: usize,
 ) -> std::ops::Range<usize> {
     assert!(
-        start + len < range.len(),
+        start.checked_add(len).is_some_and(|end| end <= range.len()),
         "sub_range invalid: start={start} len={len} range={range:?}"
     );
     range.start + start..range.start + start + len
@@ -147,7 +147,7 @@ impl<T: Clone> SeqKind<T> {
                 SeqKind::Strict(tmp.to_vec())
             }
             SeqKind::Dup(n, v) => {
-                if start + len <= *n {
+                if start.checked_add(len).is_some_and(|end| end <= *n) {
                     SeqKind::Dup(len, v.clone())
                 } else {
                     // REVIEW - we can either enforce `T: Debug` above, to add in the T-param, or keep it abstract
-- 
2.43.0


From fdd2a38f2632137b8f3119cab6381001071f1475 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:25:06 +0000
Subject: [PATCH 15/49] fix: RepeatBetween looks ahead from the current
 position and refuses too few repetitions

---
 src/decoder.rs     | 21 ++++++++++++---------
 src/loc_decoder.rs | 20 +++++++++++---------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 113093c..f75bad3 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1389,18 +1389,21 @@ impl Decoder {
                 let max = max.eval_value(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree.matches(input).ok_or(
-                        DecodeErrorKind::NoValidBranch {
-                            offset: input.offset,
-                        }
-                        .with_trace(v.len()),
-                    )? == 0
-                        || v.len() == max
+                    if v.len() == max
+                        || reps_left_tree.matches(*input).ok_or(
+                            DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(v.len()),
+                        )? == 0
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(("RepeatBetween", v.len())));
                         }
                         break;
                     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 099dec3..e7a71e0 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1571,18 +1571,20 @@ impl Decoder {
                 let max = max.eval_value_with_loc(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree
-                        .matches(input)
-                        .ok_or(DecodeErrorKind::NoValidBranch {
-                            offset: input.offset,
-                        })?
-                        == 0
-                        || v.len() == max
+                    if v.len() == max
+                        || reps_left_tree
+                            .matches(*input)
+                            .ok_or(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            })?
+                            == 0
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            });
                         }
                         break;
                     }
-- 
2.43.0


From bc466616f15bb73953c179d15566b81be82a6847 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:25:15 +0000
Subject: [PATCH 16/49] fix: a phantom format is transparent to lookahead

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9f7cd1a..150124c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1748,7 +1748,7 @@ impl<'a> MatchTreeStep<'a> {
             TypedFormat::Align(_) => {
                 Self::accept() // FIXME
             }
-            TypedFormat::Phantom(..) => Self::accept(),
+            TypedFormat::Phantom(..) => Self::from_next(module, next),
             TypedFormat::SkipRemainder => Self::accept(),
             TypedFormat::Byte(bs) => Self::branch(*bs, next),
             TypedFormat::Variant(_, _label, f) => Self::from_gt_format(module, f, next.clone()),
@@ -1975,7 +1975,7 @@ impl<'a> MatchTreeStep<'a> {
             Format::ItemVar(level, _args, _views) => {
                 Self::from_format(module, module.get_format(*level), next)
             }
-            Format::Phantom(..) => Self::accept(),
+            Format::Phantom(..) => Self::from_next(module, next),
             Format::Fail => Self::reject(),
             Format::EndOfInput => Self::accept(),
             Format::SkipRemainder => Self::accept(),
-- 
2.43.0


From e52e4fe2962ef74887643f6f20ccc7a93e06af52 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:25:29 +0000
Subject: [PATCH 17/49] fix: the interpreter compiles the inner format of Maybe
 against what follows it

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index f75bad3..dbdb16f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -804,7 +804,7 @@ impl<'a> Compiler<'a> {
                 ))
             }
             Format::Maybe(x, a) => {
-                let da = Box::new(self.compile_format(a, Rc::new(Next::Empty))?);
+                let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::Maybe(x.clone(), da))
             }
             Format::Peek(a) => {
-- 
2.43.0


From d9ac3c940fae829d51deb0072a7938b4aef4a37b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:29:54 +0000
Subject: [PATCH 18/49] fix: a choice that ends as a prefix of another depends
 on what follows

---
 src/format.rs | 12 +++++++-----
 src/lib.rs    |  6 ++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 12f1662..31a8aad 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -450,10 +450,10 @@ impl Format {
                 fmts.iter().any(|f| f.depends_on_next(module))
             }
             Format::Repeat(..) | Format::Repeat1(..) | Format::RepeatBetween(..) => true,
-            Format::RepeatCount(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) => {
-                false
-            }
-            Format::AccumUntil(..) => false,
+            Format::RepeatCount(_, f)
+            | Format::RepeatUntilLast(_, f)
+            | Format::RepeatUntilSeq(_, f)
+            | Format::AccumUntil(.., f) => f.depends_on_next(module),
             Format::Maybe(..) => true,
             Format::Peek(..) | Format::PeekNot(..) => false,
             Format::Slice(..) => false,
@@ -488,7 +488,9 @@ impl Format {
             }
             fs.push(f.clone());
         }
-        MatchTree::build(module, &fs, Rc::new(Next::Empty)).is_none()
+        // NOTE - if one branch can end where another goes on, only what follows can tell them apart
+        MatchTree::build(module, &fs, Rc::new(Next::Empty))
+            .is_none_or(|tree| !tree.is_prefix_free())
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 150124c..eb09dff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2294,6 +2294,12 @@ impl MatchTree {
         }
     }
 
+    /// Returns `true` if no branch is selected at a point where the input might also continue into another branch.
+    fn is_prefix_free(&self) -> bool {
+        (self.accept.is_none() || self.branches.is_empty())
+            && self.branches.iter().all(|(_, tree)| tree.is_prefix_free())
+    }
+
     /// Constructs a new `MatchTreeLevel` from an alternation of branches and a follow-set of partially decomposed formats,
     /// to within a fixed but externally opaque lookahead-depth.
     ///
-- 
2.43.0


From 49bb00052bbfa828874271d579294e1e6a0904bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:33:20 +0000
Subject: [PATCH 19/49] fix: patterns see through mapped values nested in
 tuples, sequences, variants and options

---
 src/decoder/value.rs | 10 ++++++----
 src/loc_decoder.rs   | 24 +++++++++++++++++++-----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3d219f4..9640958 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -236,7 +236,7 @@ impl Value {
             Pattern::Tuple(ps) => match self {
                 Value::Tuple(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -247,7 +247,7 @@ impl Value {
             Pattern::Seq(ps) => match self {
                 Value::Seq(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -256,12 +256,14 @@ impl Value {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                Value::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                Value::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_nominal_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, Value::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                Value::Option(Some(v)) => v.matches_inner(scope, p),
+                Value::Option(Some(v)) => v.coerce_nominal_value().matches_inner(scope, p),
                 _ => false,
             },
         }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index e7a71e0..27caf03 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -397,7 +397,7 @@ impl ParsedValue {
             Pattern::Tuple(ps) => match self {
                 ParsedValue::Tuple(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -408,7 +408,7 @@ impl ParsedValue {
             Pattern::Seq(ps) => match self {
                 ParsedValue::Seq(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -417,12 +417,14 @@ impl ParsedValue {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                ParsedValue::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                ParsedValue::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_nominal_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, ParsedValue::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                ParsedValue::Option(Some(v)) => v.matches_inner(scope, p),
+                ParsedValue::Option(Some(v)) => v.coerce_nominal_value().matches_inner(scope, p),
                 _ => false,
             },
             Pattern::Int(bounds) => match self {
@@ -488,6 +490,18 @@ impl ParsedValue {
         }
     }
 
+    /// Higher-level version of `coerce_mapped_value` that also unwraps any `ParsedValue::Permit(Err)`
+    /// for pattern-matching purposes.
+    fn coerce_nominal_value(&self) -> &Self {
+        match self {
+            ParsedValue::Permit(Err(Some(v))) => v.coerce_nominal_value(),
+            ParsedValue::Permit(Ok(v)) | ParsedValue::Mapped(_, v) | ParsedValue::Branch(_, v) => {
+                v.coerce_nominal_value()
+            }
+            v => v,
+        }
+    }
+
     pub(crate) fn from_evaluated(expr_value: Value) -> Self {
         match expr_value {
             Value::Bool(_)
@@ -579,7 +593,7 @@ impl ParsedValue {
 
     fn matches<'a>(&self, scope: &'a LocScope<'a>, pattern: &Pattern) -> Option<LocMultiScope<'a>> {
         let mut pattern_scope = LocMultiScope::new(scope);
-        self.coerce_mapped_value()
+        self.coerce_nominal_value()
             .matches_inner(&mut pattern_scope, pattern)
             .then_some(pattern_scope)
     }
-- 
2.43.0


From ad09a2e209318cf0bc7e5e493b0902b446101c9c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:36:44 +0000
Subject: [PATCH 20/49] fix: lookahead allows for the bytes a slice skips after
 its inner format ends

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index eb09dff..7f6baa7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1614,15 +1614,15 @@ impl<'a> MatchTreeStep<'a> {
     ) -> MatchTreeStep<'a> {
         if n > 0 {
             let mut tree = Self::from_next(module, inner);
-            tree.accept = false;
-            if tree.branches.is_empty() {
+            for (_bs, inside) in tree.branches.iter_mut() {
+                *inside = Rc::new(Next::Slice(n - 1, inside.clone(), next.clone()));
+            }
+            // NOTE - if the inner format can end here, the rest of the slice is skipped, whatever it holds
+            if tree.accept || tree.branches.is_empty() {
                 let next = Rc::new(Next::Slice(n - 1, Rc::new(Next::Empty), next.clone()));
                 tree.branches.push((ByteSet::full(), next));
-            } else {
-                for (_bs, inside) in tree.branches.iter_mut() {
-                    *inside = Rc::new(Next::Slice(n - 1, inside.clone(), next.clone()));
-                }
             }
+            tree.accept = false;
             tree
         } else {
             Self::from_next(module, next.clone())
-- 
2.43.0


From 7754a11ce71c6cb473119283de471bd8ef4519dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:39:25 +0000
Subject: [PATCH 21/49] fix: an item of RepeatBetween may be followed by any
 number of further items

---
 src/decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index dbdb16f..fc1e886 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -739,7 +739,7 @@ impl<'a> Compiler<'a> {
             }
             Format::RepeatBetween(xmin, xmax, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = xmin.bounds().as_exact() else {
+                if xmin.bounds().as_exact().is_none() {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
                 };
                 let Some(max) = xmax.bounds().as_exact() else {
@@ -748,8 +748,8 @@ impl<'a> Compiler<'a> {
 
                 let da = self.compile_format(
                     a,
-                    Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
+                    // NOTE - the same item-decoder runs at every repetition, so any number up to `max - 1` may follow
+                    Rc::new(Next::RepeatMax(
                         max.saturating_sub(1),
                         MaybeTyped::Untyped(a),
                         next.clone(),
-- 
2.43.0


From 3dc4c1f95acf1d6b96eb5a0715497bdd93841932 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:06:53 +0000
Subject: [PATCH 22/49] fix: the location-tracking interpreter iterates over
 mapped sequences

---
 src/loc_decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 27caf03..0e19ce9 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1544,7 +1544,7 @@ impl Decoder {
                 .join(|(_, input)| db.parse_with_loc(program, scope, input)),
             Decoder::ForEach(expr, lbl, a) => {
                 let val = expr.eval_with_loc(scope);
-                let seq = val.get_sequence().expect("bad type for ForEach input");
+                let seq = val.coerce_mapped_value().get_sequence().expect("bad type for ForEach input");
                 Ok(WithErr::fold(
                     (Vec::with_capacity(seq.len()), input),
                     seq,
@@ -1988,7 +1988,7 @@ fn read_base(
 }
 
 fn value_to_vec_usize(v: &ParsedValue) -> Vec<usize> {
-    let vs = match v.clone_into_value() {
+    let vs = match v.coerce_mapped_value().clone_into_value() {
         Value::Seq(vs) => vs,
         _ => panic!("expected Seq"),
     };
-- 
2.43.0


From 8e7fa513d8ef2e84166172f5382382b2c76e27a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:09:44 +0000
Subject: [PATCH 23/49] fix: an over-subscribed huffman table is refused
 instead of panicking or decoding ambiguously

---
 src/decoder.rs     | 6 +++++-
 src/loc_decoder.rs | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index fc1e886..488ae41 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1760,7 +1760,7 @@ fn read_base(
 }
 
 fn value_to_vec_usize(v: &Value) -> Vec<usize> {
-    let vs = match v {
+    let vs = match v.coerce_mapped_value() {
         Value::Seq(vs) => vs,
         _ => panic!("expected Seq"),
     };
@@ -1787,6 +1787,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
     for bits in 1..max_length + 1 {
         code = (code + bl_count[bits - 1]) << 1;
         next_code[bits] = code;
+        if code + bl_count[bits] > 1 << bits {
+            // NOTE - more codes than there are bit-strings to tell them apart (malformed length table)
+            return Format::Fail;
+        }
     }
 
     let mut codes = Vec::with_capacity(lengths.len());
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 0e19ce9..6a47b36 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -2015,6 +2015,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
     for bits in 1..max_length + 1 {
         code = (code + bl_count[bits - 1]) << 1;
         next_code[bits] = code;
+        if code + bl_count[bits] > 1 << bits {
+            // NOTE - more codes than there are bit-strings to tell them apart (malformed length table)
+            return Format::Fail;
+        }
     }
 
     let mut codes = Vec::with_capacity(lengths.len());
-- 
2.43.0


From 70834b0feb78dc72fb60fea9d073ad37cd018c67 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:11:13 +0000
Subject: [PATCH 24/49] fix: a peek keeps the longer continuations of what
 follows it in lookahead

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f6baa7..698aeee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1482,10 +1482,6 @@ impl<'a> MatchTreeStep<'a> {
     fn peek(mut self, peek: MatchTreeStep<'a>) -> MatchTreeStep<'a> {
         if peek.accept {
             // can ignore peek as it has already accepted
-        } else if self.accept {
-            // can ignore self as it has already accepted
-            self.accept = peek.accept;
-            self.branches = peek.branches;
         } else {
             // take the intersection of peek and self branches
             let mut branches = Vec::new();
@@ -1498,6 +1494,11 @@ impl<'a> MatchTreeStep<'a> {
                     }
                 }
             }
+            if self.accept {
+                // where self has already accepted, only peek remains
+                self.accept = false;
+                branches.extend(peek.branches);
+            }
             self.branches = branches;
         }
         self
-- 
2.43.0


From 24799608ad6b90d28e80f1c235361263b83c3596 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:11:48 +0000
Subject: [PATCH 25/49] fix: huge counts and offsets read from the input are
 refused instead of aborting or panicking

---
 src/decoder.rs     | 8 ++++----
 src/loc_decoder.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 488ae41..59e74cf 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1370,7 +1370,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(
@@ -1529,7 +1529,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base = base_addr.eval_value(scope).unwrap_usize();
                 let offset = expr.eval_value(scope).unwrap_usize();
-                let abs_offset = base + offset;
+                let abs_offset = base.saturating_add(offset);
                 let seek_input = input.seek_to(abs_offset).ok_or(
                     DecodeErrorKind::bad_seek(abs_offset, input.input.len())
                         .with_trace("WithRelativeOffset(seek)"),
@@ -1638,7 +1638,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1660,7 +1660,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for ix in 0..len {
                     let (val, new_buf) = try_with!(read_base(buf, *kind) => ("ReadArray", format!("index: {ix}"), format!("kind: {kind:?}"), format!("view: {v_expr:?}")));
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 6a47b36..acf58c3 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1565,7 +1565,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
@@ -1756,7 +1756,7 @@ impl Decoder {
             Decoder::WithRelativeOffset(base_addr, expr, a) => {
                 let base_addr = base_addr.eval_value_with_loc(scope).unwrap_usize();
                 let offset = expr.eval_value_with_loc(scope).unwrap_usize();
-                let abs_offset = base_addr + offset;
+                let abs_offset = base_addr.saturating_add(offset);
                 let seek_input = input
                     .seek_to(abs_offset)
                     .ok_or(DecodeErrorKind::bad_seek(abs_offset, input.input.len()))?;
@@ -1855,7 +1855,7 @@ impl Decoder {
 
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for i in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1882,7 +1882,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let (val, new_buf) = read_base(buf, *kind)?;
-- 
2.43.0


From c7c9446c367d06a99100e56ea6630c2bed7dc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:14 +0000
Subject: [PATCH 26/49] verification hook: crate-private bounds, search and
 type inference made callable (cfg doodle_verif)

---
 src/lib.rs   |  2 ++
 src/verif.rs | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 698aeee..05add72 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -42,6 +42,8 @@ mod scope;
 mod typecheck;
 pub use typecheck::{TCResult, base_set, error::TCError, typecheck};
 mod util;
+#[cfg(doodle_verif)]
+pub mod verif;
 pub(crate) use util::IxHeap;
 
 pub(crate) mod validation;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..d857547
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,62 @@
+//! Verification hooks (cfg `doodle_verif`): crate-private functions made callable for contracts.
+use crate::bounds::Bounds;
+use crate::decoder::search::{AsKey, find_index_by_key_sorted, find_index_by_key_unsorted};
+use crate::decoder::seq_kind::{SeqKind, sub_range};
+use crate::{Expr, Format, FormatModule, TypeScope, ValueType};
+
+/// A search key that is a plain number
+#[derive(Clone, Copy)]
+pub struct NumKey(pub u32);
+
+impl AsKey for NumKey {
+    fn compare_as_key(&self, other: &Self) -> std::cmp::Ordering {
+        self.0.cmp(&other.0)
+    }
+    fn eq_key(&self, other: &Self) -> bool {
+        self.0 == other.0
+    }
+}
+
+const KEY: &Expr = &Expr::U8(0);
+
+pub fn find_sorted(query: u32, values: &SeqKind<u32>) -> Option<usize> {
+    find_index_by_key_sorted(KEY, &NumKey(query), values, |_, v| NumKey(*v))
+}
+
+pub fn find_unsorted(query: u32, values: &SeqKind<u32>) -> Option<usize> {
+    find_index_by_key_unsorted(KEY, &NumKey(query), values, |_, v| NumKey(*v))
+}
+
+pub fn int_sub_range(
+    range: std::ops::Range<usize>,
+    start: usize,
+    len: usize,
+) -> std::ops::Range<usize> {
+    sub_range(range, start, len)
+}
+
+pub fn expr_bounds(e: &Expr) -> Bounds {
+    e.bounds()
+}
+
+pub fn match_bounds(f: &Format, module: &FormatModule) -> Bounds {
+    f.match_bounds(module)
+}
+
+pub fn lookahead_bounds(f: &Format, module: &FormatModule) -> Bounds {
+    f.lookahead_bounds(module)
+}
+
+pub fn is_nullable(f: &Format, module: &FormatModule) -> bool {
+    f.is_nullable(module)
+}
+
+/// The type inferred for a closed expression
+pub fn expr_type(e: &Expr) -> Option<ValueType> {
+    e.infer_type(&TypeScope::new()).ok()
+}
+
+/// The type inferred for a closed format
+pub fn format_type(f: &Format, module: &FormatModule) -> Option<ValueType> {
+    module.infer_format_type(&TypeScope::new(), f).ok()
+}
-- 
2.43.0


From c460e4f774d47f09e56d46c8843ee26867afcb25 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:25:13 +0000
Subject: [PATCH 27/49] fix: size estimate of a permitted format includes
 consuming nothing

---
 src/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/format.rs b/src/format.rs
index 31a8aad..d032f2f 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -312,7 +312,11 @@ impl Format {
             Format::LetFormat(first, _, second) | Format::MonadSeq(first, second) => {
                 first.match_bounds(module) + second.match_bounds(module)
             }
-            Format::Permit(inner, ..) | Format::Hint(.., inner) => inner.match_bounds(module),
+            // NOTE - when the inner format fails, the default value is yielded without consuming anything
+            Format::Permit(inner, ..) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds(module))
+            }
+            Format::Hint(.., inner) => inner.match_bounds(module),
             #[cfg(feature = "format_enforce")]
             Format::Enforce(inner) => inner.match_bounds(module),
             Format::LiftedOption(opt) => match opt {
-- 
2.43.0


From 545163e519ad8451a15567c7fa358b8057ac28f0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:25:13 +0000
Subject: [PATCH 28/49] fix: value estimate of a left shift accounts for bits
 shifted out

---
 src/lib.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 05add72..9694698 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -704,6 +704,19 @@ impl Expr {
         }
     }
 
+    /// Largest value of the integer type of this expression, if the type is syntactically evident
+    fn known_max(&self) -> Option<usize> {
+        match self {
+            Expr::U8(_) | Expr::AsU8(_) => Some(u8::MAX as usize),
+            Expr::U16(_) | Expr::AsU16(_) => Some(u16::MAX as usize),
+            Expr::U32(_) | Expr::AsU32(_) => Some(u32::MAX as usize),
+            Expr::U64(_) | Expr::AsU64(_) => Some(u64::MAX as usize),
+            Expr::Arith(_, a, b) => a.known_max().or_else(|| b.known_max()),
+            Expr::Unary(_, a) => a.known_max(),
+            _ => None,
+        }
+    }
+
     /// Conservative bounds for unsigned numeric expressions
     fn bounds(&self) -> Bounds {
         match self {
@@ -736,7 +749,15 @@ impl Expr {
                 Arith::Div => a.bounds() / b.bounds(),
                 Arith::BitOr => a.bounds() | b.bounds(),
                 Arith::BitAnd => a.bounds() & b.bounds(),
-                Arith::Shl => a.bounds() << b.bounds(),
+                Arith::Shl => {
+                    // NOTE - bits shifted past the width of the operand are discarded
+                    let limit = a.known_max().unwrap_or(u8::MAX as usize);
+                    let shifted = a.bounds() << b.bounds();
+                    match shifted.max {
+                        Some(max) if max <= limit => shifted,
+                        _ => Bounds::any(),
+                    }
+                }
                 Arith::Shr => a.bounds() >> b.bounds(),
                 Arith::Rem => Bounds::rem(a.bounds(), b.bounds()),
                 Arith::BoolOr | Arith::BoolAnd => Bounds::any(),
-- 
2.43.0


From a3c1bcf7a59ab0b4be6339d07639d760a0db3f4a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:32:51 +0000
Subject: [PATCH 29/49] fix: type checker does not let a record expression's
 fields capture variables in later fields

---
 src/typecheck.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/typecheck.rs b/src/typecheck.rs
index f01c424..30a894f 100644
--- a/src/typecheck.rs
+++ b/src/typecheck.rs
@@ -2272,11 +2272,8 @@ impl TypeChecker {
             Expr::Record(fs) => {
                 let newvar = self.get_new_uvar();
                 let mut fields = Vec::with_capacity(fs.len());
-                let mut child = UMultiScope::with_capacity(scope, fs.len());
                 for (lbl, f) in fs {
-                    let scope = UScope::Multi(&child);
-                    let f_var = self.infer_var_expr(f, &scope)?;
-                    child.push(lbl.clone(), f_var);
+                    let f_var = self.infer_var_expr(f, scope)?;
                     fields.push((lbl.clone(), f_var.into()));
                 }
                 self.unify_var_utype(newvar, Rc::new(UType::Record(fields)))?;
-- 
2.43.0


From 8f130f0a3760fe844abb2b38a0f9af820e4bfdbe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:42:52 +0000
Subject: [PATCH 30/49] fix: decoding bytes sees through mapped and branch
 values

---
 src/decoder/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 9640958..9e2230c 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -370,7 +370,7 @@ impl Value {
 
     /// Unwraps `Value::U8` and returns the contained value, or panics if the value is not `Value::U8`.
     pub(crate) fn get_as_u8(&self) -> u8 {
-        match self {
+        match self.coerce_mapped_value() {
             Value::U8(n) => *n,
             Value::U16(..) | Value::U32(..) | Value::U64(..) | Value::Usize(..) => panic!(
                 "value is numeric but not u8 (this may be a soft error, or even success, in future)"
-- 
2.43.0


From 513c2a378e10c5bc6ebc6ec1da64536d97ca6e5f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:49:28 +0000
Subject: [PATCH 31/49] fix: endian assembly sees through mapped tuple elements

---
 src/decoder/value.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 9e2230c..678969d 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -382,7 +382,10 @@ impl Value {
 
     pub(crate) fn unwrap_tuple(self) -> Vec<Value> {
         match self {
-            Value::Tuple(values) => values,
+            Value::Tuple(values) => values
+                .into_iter()
+                .map(Value::extract_mapped_value)
+                .collect(),
             _ => panic!("value is not a tuple"),
         }
     }
-- 
2.43.0


From 37db85ad7d7367e3b6a940bf19a3994cfddb5af8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:49:35 +0000
Subject: [PATCH 32/49] fix: loc interpreter projects from permitted fallback
 values like the plain one

---
 src/loc_decoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index acf58c3..04680ae 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -323,6 +323,7 @@ impl ParsedValue {
                     None => panic!("`{label}` not found in record: {self:?}"),
                 }
             }
+            ParsedValue::Permit(Err(_)) => &ParsedValue::Permit(Err(None)),
             _ => panic!("expected record, found {self:?}"),
         }
     }
@@ -468,6 +469,7 @@ impl ParsedValue {
     fn tuple_proj(&self, index: usize) -> &Self {
         match self.coerce_mapped_value() {
             ParsedValue::Tuple(Parsed { inner, .. }) => &inner[index],
+            ParsedValue::Permit(Err(_)) => &ParsedValue::Permit(Err(None)),
             _ => panic!("expected tuple"),
         }
     }
-- 
2.43.0


From 70792c600a35a3e1ed93e7214c9185a4f9e408be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:14:44 +0000
Subject: [PATCH 33/49] fix: length of a sequence of 2^32 or more items is
 refused instead of truncated

---
 src/decoder.rs     | 5 +++--
 src/loc_decoder.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 59e74cf..20198da 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -252,8 +252,9 @@ impl Expr {
             }),
             Expr::SeqLength(seq) => match seq.eval(scope).coerce_mapped_value().get_sequence() {
                 Some(values) => {
-                    let len = values.len();
-                    Cow::Owned(Value::U32(len as u32))
+                    let len = u32::try_from(values.len())
+                        .unwrap_or_else(|err| panic!("SeqLength: length does not fit in u32: {err}"));
+                    Cow::Owned(Value::U32(len))
                 }
                 _ => panic!("SeqLength: expected Seq"),
             },
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 04680ae..009f8da 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -823,8 +823,9 @@ impl Expr {
                 .get_sequence()
             {
                 Some(values) => {
-                    let len = values.len();
-                    Cow::Owned(ParsedValue::from_evaluated(Value::U32(len as u32)))
+                    let len = u32::try_from(values.len())
+                        .unwrap_or_else(|err| panic!("SeqLength: length does not fit in u32: {err}"));
+                    Cow::Owned(ParsedValue::from_evaluated(Value::U32(len)))
                 }
                 _ => panic!("SeqLength: expected Seq (or EnumFromTo)"),
             },
-- 
2.43.0


From f6ae26a1712740d0fe3f9bd85990e4e789e3bc78 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:17:19 +0000
Subject: [PATCH 34/49] fix: loc interpreter keeps repeated sequences lazy
 instead of aborting on huge counts

---
 src/loc_decoder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 009f8da..a8c7cde 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -287,9 +287,10 @@ impl From<ParsedValue> for Value {
             ParsedValue::Tuple(ts) => {
                 Value::Tuple(Vec::from_iter(ts.inner.into_iter().map(Value::from)))
             }
-            ParsedValue::Seq(elts) => {
-                Value::Seq(SeqKind::from_iter(elts.inner.into_iter().map(Value::from)))
-            }
+            ParsedValue::Seq(elts) => Value::Seq(match elts.inner {
+                SeqKind::Strict(elts) => SeqKind::from_iter(elts.into_iter().map(Value::from)),
+                SeqKind::Dup(n, v) => SeqKind::Dup(n, Box::new((*v).into())),
+            }),
             ParsedValue::Record(fs) => Value::Record(Vec::from_iter(
                 fs.inner.into_iter().map(|(lab, f)| (lab, f.into())),
             )),
@@ -540,7 +541,11 @@ impl ParsedValue {
                     inner: p_fs,
                 })
             }
-            Value::Seq(elts) => {
+            Value::Seq(SeqKind::Dup(n, elt)) => ParsedValue::from_evaluated_seq(SeqKind::Dup(
+                n,
+                Box::new(ParsedValue::from_evaluated(*elt)),
+            )),
+            Value::Seq(SeqKind::Strict(elts)) => {
                 let mut p_elts = Vec::with_capacity(elts.len());
                 for elt in elts.into_iter() {
                     p_elts.push(ParsedValue::from_evaluated(elt));
-- 
2.43.0


From 68830a892beed6a09193616dbc6d05e239da5763 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:45:02 +0000
Subject: [PATCH 35/49] fix: inferred type of AccumUntil covers updated
 accumulators and does not leak the predicate's variable

---
 src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9694698..78d4aa0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1175,24 +1175,24 @@ impl FormatModule {
                     Expr::Lambda(head, expr) => {
                         let t = self.infer_format_type(scope, a)?;
                         // Check that the initial accumulator value's type unifies with the type-claim
-                        let _acc_type = init.infer_type(scope)?.unify(vt.as_ref())?;
+                        let acc_type = init.infer_type(scope)?.unify(vt.as_ref())?;
                         let mut child_scope = TypeScope::child(scope);
                         let t_seq = ValueType::Seq(Box::new(t.clone()));
-                        let vt_acc_seq = ValueType::Tuple(vec![vt.as_ref().clone(), t_seq.clone()]);
-                        child_scope.push(head.clone(), vt_acc_seq.clone());
+                        let vt_acc_seq = ValueType::Tuple(vec![acc_type.clone(), t_seq.clone()]);
+                        child_scope.push(head.clone(), vt_acc_seq);
                         let ret_type = expr.infer_type(&child_scope)?;
                         match ret_type {
                             ValueType::Base(BaseType::Bool) => {
                                 match lambda_acc_val.as_ref() {
                                     Expr::Lambda(head, expr) => {
-                                        let mut child_scope = TypeScope::child(&child_scope);
+                                        let mut child_scope = TypeScope::child(scope);
                                         let vt_acc_elem =
-                                            ValueType::Tuple(vec![vt.as_ref().clone(), t.clone()]);
+                                            ValueType::Tuple(vec![acc_type.clone(), t]);
                                         child_scope.push(head.clone(), vt_acc_elem);
-                                        // we just need to check that these types unify, the value is unimportant
-                                        let _ret_type =
-                                            expr.infer_type(&child_scope)?.unify(vt.as_ref())?;
-                                        Ok(vt_acc_seq)
+                                        // the final accumulator is either the initial one or an updated one
+                                        let acc_type =
+                                            expr.infer_type(&child_scope)?.unify(&acc_type)?;
+                                        Ok(ValueType::Tuple(vec![acc_type, t_seq]))
                                     }
                                     other => Err(anyhow!(
                                         "AccumUntil second argument type should be lambda, found {other:?} instead"
-- 
2.43.0


From 165ad6598c345d0c9337a17c94cbe4dd38c4cb51 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 36/49] fix: generated lookahead accepts at the end of input,
 and repeats enforce their minimum there

---
 src/codegen/mod.rs | 85 ++++++++++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 48cfa17..72027e6 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -732,13 +732,31 @@ fn embed_byteset(bs: &ByteSet) -> RustExpr {
 
 /// this production should be a RustExpr whose compiled type is usize, and whose
 /// runtime value is the index of the successful match relative to the input
-fn invoke_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> RustExpr {
-    embed_matchtree(tree, ctxt).into()
+///
+/// `has_input` should be `true` only if the surrounding code ensures that at least one byte of input remains.
+fn invoke_matchtree(tree: &MatchTree, has_input: bool, ctxt: ProdCtxt<'_>) -> RustExpr {
+    embed_matchtree(tree, has_input, ctxt).into()
 }
 
 // follows the same rules as CaseLogic::to_ast as far as the expression type of the generated code
-fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
-    fn expand_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
+fn embed_matchtree(tree: &MatchTree, has_input: bool, ctxt: ProdCtxt<'_>) -> GenBlock {
+    fn expand_matchtree(tree: &MatchTree, has_input: bool, ctxt: ProdCtxt<'_>) -> GenBlock {
+        // a tree that accepts at this depth does so at the end of the input as well
+        if let Some(ix) = tree.accept {
+            if !has_input && !tree.branches.is_empty() {
+                let at_end = Box::new(model::eq0(model::rem_bytes(ctxt.parser())));
+                let b_end = vec![RustStmt::Return(
+                    ReturnKind::Implicit,
+                    RustExpr::num_lit(ix),
+                )];
+                let b_else = expand_matchtree(tree, true, ctxt).flatten();
+                return GenBlock::simple_expr(RustExpr::Control(Box::new(RustControl::If(
+                    at_end,
+                    b_end,
+                    Some(b_else),
+                ))));
+            }
+        }
         match &tree.branches[..] {
             [] => {
                 if let Some(ix) = tree.accept {
@@ -757,7 +775,7 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                 if bc.is_always_true() {
                     // this always accepts, but needs to read a byte
                     let ignore_byte = GenStmt::Embed(RustStmt::Expr(call));
-                    let branch_block = expand_matchtree(branch, ctxt);
+                    let branch_block = expand_matchtree(branch, false, ctxt);
                     // REVIEW - need append-stable indexing, or dedicated method for prepend/append
                     let all_stmts =
                         Iterator::chain(std::iter::once(ignore_byte), branch_block.stmts).collect();
@@ -768,7 +786,7 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                 } else {
                     let bind = RustStmt::assign("b", call);
                     let guard = Box::new(bc.as_predicate(RustExpr::local("b")));
-                    let b_true: Vec<RustStmt> = expand_matchtree(branch, ctxt).flatten();
+                    let b_true: Vec<RustStmt> = expand_matchtree(branch, false, ctxt).flatten();
                     let b_false = {
                         if let Some(ix) = tree.accept {
                             vec![RustStmt::Return(
@@ -807,7 +825,7 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                             let lhs = MatchCaseLHS::Pattern(RustPattern::PrimLiteral(
                                 RustPrimLit::Numeric(RustNumLit::U8(b)),
                             ));
-                            let rhs = expand_matchtree(branch, ctxt).flatten();
+                            let rhs = expand_matchtree(branch, false, ctxt).flatten();
                             cases.push((lhs, rhs));
                         }
                         ByteCriterion::OtherThan(_) | ByteCriterion::WithinSet(_) => {
@@ -816,20 +834,29 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                                 RustPattern::CatchAll(Some(Label::from("byte"))),
                                 guard,
                             );
-                            let rhs = expand_matchtree(branch, ctxt).flatten();
+                            let rhs = expand_matchtree(branch, false, ctxt).flatten();
                             cases.push((lhs, rhs));
                         }
                     }
                 }
 
-                let value = Box::new(RustExpr::err(
-                    RustExpr::scoped(["ParseError"], "ExcludedBranch")
-                        .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
-                ));
-                let match_block = RustControl::Match(
-                    call,
-                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value }),
-                );
+                let body = if let Some(ix) = tree.accept {
+                    cases.push((
+                        MatchCaseLHS::Pattern(RustPattern::CatchAll(None)),
+                        vec![RustStmt::Return(
+                            ReturnKind::Implicit,
+                            RustExpr::num_lit(ix),
+                        )],
+                    ));
+                    RustMatchBody::Irrefutable(cases)
+                } else {
+                    let value = Box::new(RustExpr::err(
+                        RustExpr::scoped(["ParseError"], "ExcludedBranch")
+                            .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
+                    ));
+                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value })
+                };
+                let match_block = RustControl::Match(call, body);
                 GenBlock::simple_expr(RustExpr::Control(Box::new(match_block)))
             }
         }
@@ -842,7 +869,7 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
     // this is a stub for alternate parsing models to replace the `Parser` argument in the context of the expansion
     let ll_context = ProdCtxt { ..ctxt };
 
-    let mut tree_block = expand_matchtree(tree, ll_context);
+    let mut tree_block = expand_matchtree(tree, has_input, ll_context);
     let close_peek = GenStmt::Embed(RustStmt::Expr(
         ctxt.parser().call_method("close_peek_context").wrap_try(),
     ));
@@ -3004,7 +3031,7 @@ where
                 stmts.push(model::let_mut_vec_new(model::R0COM_ACCUM).into());
 
                 let ctrl = {
-                    let tree_index_expr = invoke_matchtree(continue_tree, ctxt);
+                    let tree_index_expr = invoke_matchtree(continue_tree, true, ctxt);
                     let bind_ix = RustStmt::assign(model::MATCH_BRANCH_IX, tree_index_expr).into();
                     let cond = model::eq0(RustExpr::local(model::MATCH_BRANCH_IX));
                     let b_continue = {
@@ -3030,7 +3057,7 @@ where
 
                 stmts.push(model::let_mut_vec_new(model::R1BOM_ACCUM).into());
                 let ctrl = {
-                    let tree_index_expr = invoke_matchtree(break_tree, ctxt);
+                    let tree_index_expr = invoke_matchtree(break_tree, false, ctxt);
                     let bind_ix = RustStmt::assign(model::MATCH_BRANCH_IX, tree_index_expr).into();
                     let cond = model::eq0(RustExpr::local(model::MATCH_BRANCH_IX));
                     let b_continue = {
@@ -3048,10 +3075,10 @@ where
                     )
                     .into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-                    )
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_ix],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
@@ -3062,7 +3089,7 @@ where
                 stmts.push(model::let_mut_vec_new(model::BETWEEN_ACCUM).into());
                 let ctrl = {
                     let bind_reps_left = {
-                        let reps_left = invoke_matchtree(reps_left_tree, ctxt);
+                        let reps_left = invoke_matchtree(reps_left_tree, false, ctxt);
                         RustStmt::assign(model::BETWEEN_REPS_LEFT, reps_left).into()
                     };
                     let cond = {
@@ -3082,10 +3109,10 @@ where
                     };
                     let b_stop = GenControl::Break.into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_reps_left], Some(escape_clause.into())),
-                    )
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_reps_left],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::BETWEEN_ACCUM).into()))
@@ -3371,7 +3398,7 @@ where
                     .collect();
                 let bind = GenStmt::Embed(RustStmt::assign(
                     model::DESCEND_IX,
-                    invoke_matchtree(tree, ctxt),
+                    invoke_matchtree(tree, false, ctxt),
                 ));
                 let ctrl = {
                     GenControl::Match(
-- 
2.43.0


From 68bd94cc60c1c15cf6dc74e6068bf62b7f22e2ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 37/49] fix: lookahead after a bounded repetition in generated
 decoders allows further repetitions

---
 src/codegen/typed_decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/codegen/typed_decoder.rs b/src/codegen/typed_decoder.rs
index 2e00831..ebcfda1 100644
--- a/src/codegen/typed_decoder.rs
+++ b/src/codegen/typed_decoder.rs
@@ -542,7 +542,7 @@ impl<'a> GTCompiler<'a> {
             }
             TypedFormat::RepeatBetween(gt, min_expr, max_expr, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = min_expr.bounds().as_exact() else {
+                if min_expr.bounds().as_exact().is_none() {
                     unimplemented!("RepeatBetween on inexact bounds-expr")
                 };
                 let Some(max) = max_expr.bounds().as_exact() else {
@@ -552,8 +552,8 @@ impl<'a> GTCompiler<'a> {
                 let da = self.compile_gt_format(
                     a,
                     None,
-                    Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
+                    // NOTE - the same item-decoder runs at every repetition, so any number up to `max - 1` may follow
+                    Rc::new(Next::RepeatMax(
                         max.saturating_sub(1),
                         MaybeTyped::Typed(a),
                         next.clone(),
-- 
2.43.0


From f63c043663a7b9866f7a80e2141ff571d3ee37ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 38/49] fix: generated decoders look past an alignment of 1 as
 the interpreter does

---
 src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 78d4aa0..a11caa1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1769,9 +1769,7 @@ impl<'a> MatchTreeStep<'a> {
             }
             TypedFormat::Fail => Self::reject(),
             TypedFormat::EndOfInput => Self::accept(),
-            TypedFormat::Align(_) => {
-                Self::accept() // FIXME
-            }
+            TypedFormat::Align(n) => Self::from_align(module, next, *n),
             TypedFormat::Phantom(..) => Self::from_next(module, next),
             TypedFormat::SkipRemainder => Self::accept(),
             TypedFormat::Byte(bs) => Self::branch(*bs, next),
-- 
2.43.0


From 574edd276369fecbe0e1474c342c6f7ba921ad74 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 39/49] fix: Huffman descent on a byte that is no bit is an
 error, not a panic

---
 src/prelude.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index 4c218d9..83e36ec 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -399,7 +399,11 @@ pub(crate) mod huffman {
             match self {
                 HuffmanNode::Empty => Err(DescentError::FromEmpty),
                 HuffmanNode::Leaf(_) => Err(DescentError::FromLeaf),
-                HuffmanNode::Branch { children } => Ok(&*children[b as usize]),
+                HuffmanNode::Branch { children } => match children.get(b as usize) {
+                    Some(child) => Ok(&**child),
+                    // not a bit
+                    None => Err(DescentError::FromEmpty),
+                },
             }
         }
     }
-- 
2.43.0


From 0442a1b18818e6cdaf9f2a190bb5191acd92fdb6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 40/49] fix: skip_remainder keeps the parser in bits-mode

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4d675f0..9a0eafc 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,7 +107,11 @@ impl<'a> Parser<'a> {
     }
 
     pub fn skip_remainder(&mut self) {
-        let after_skip = self.offset.current_limit();
+        // NOTE - the limit itself may be in bytes-mode even when the current offset is in bits-mode
+        let after_skip = self
+            .offset
+            .get_current_offset()
+            .increment_by(self.remaining());
         unsafe {
             self.offset.set_offset(after_skip);
         }
-- 
2.43.0


From 2338d6106c223241e550c531dbb0f258c699e782 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 41/49] fix: a view opened within a slice does not reach past
 it

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9a0eafc..44ae4b1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -35,6 +35,7 @@ impl<'a> Parser<'a> {
     }
 
     /// Creates a [`View`] starting from the current position in the Parser,
+    /// and extending to the end of its current (possibly slice-limited) context,
     /// provided it is in Bytes-mode.
     ///
     /// # Panics
@@ -44,7 +45,10 @@ impl<'a> Parser<'a> {
         let (cur_offset, None) = self.offset.get_current_offset().as_bytes() else {
             panic!("cannot open view while in bits-mode processing");
         };
-        self.buffer.offset(cur_offset).unwrap()
+        let mut view = self.buffer.offset(cur_offset).unwrap();
+        // NOTE - a View opened within a slice cannot reach past the end of that slice
+        view.buffer = &view.buffer[..self.remaining()];
+        view
     }
 
     /// Advances the offset by `offset` positions, as if calling [`Self::read_byte`] that many
-- 
2.43.0


From 5ea64dc0717b769a7a3918869218b9a752badae2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 42/49] fix: position and alignment within a view are measured
 from the start of the buffer

---
 src/parser/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 44ae4b1..6f2e979 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -147,7 +147,7 @@ impl<'a> Parser<'a> {
     /// multiple of `n`.
     ///
     /// In bytes-mode, alignment is measured in terms of how many bytes have been read
-    /// since the start of the entire buffer.
+    /// since the start of the entire buffer (even if this `Parser` only has a partial [`View`] of it).
     ///
     /// In bits-mode, alignment is measured in terms of how many **bits** have been read
     /// since **entering** bits-mode, and the absolute position within the full buffer
@@ -171,11 +171,14 @@ impl<'a> Parser<'a> {
     /// ```
     pub fn skip_align(&mut self, n: usize) -> Result<(), ParseError> {
         let current_offset = self.offset.get_current_offset();
+        let buf_start = self.buffer.start_offset;
         let aligned_offset = match current_offset {
-            ByteOffset::Bytes(nbytes) if nbytes % n == 0 => current_offset,
+            ByteOffset::Bytes(nbytes) if (buf_start + nbytes) % n == 0 => current_offset,
             ByteOffset::Bits { bits_advanced, .. } if bits_advanced % n == 0 => current_offset,
 
-            ByteOffset::Bytes(nbytes) => ByteOffset::from_bytes(((nbytes / n) + 1) * n),
+            ByteOffset::Bytes(nbytes) => {
+                ByteOffset::from_bytes((((buf_start + nbytes) / n) + 1) * n - buf_start)
+            }
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
@@ -354,12 +357,15 @@ impl<'a> Parser<'a> {
     /// Returns a `u64`-valued byte-offset equivalent to the stored `ByteOffset`, for
     /// use in association with [`Format::Pos`].
     ///
+    /// As with the argument of [`Parser::advance_or_seek`], this is measured from the start of the
+    /// entire buffer, even if this `Parser` only has a partial [`View`] of it.
+    ///
     /// # Panics
     ///
     /// As currently defined, will panic if we are in bits-mode.
     pub fn get_offset_u64(&self) -> u64 {
         match self.get_current_offset() {
-            ByteOffset::Bytes(n) => n as u64,
+            ByteOffset::Bytes(n) => (self.buffer.start_offset + n) as u64,
             ByteOffset::Bits { .. } => {
                 // FIXME - this panic should perhaps be eliminated if possible
                 unreachable!("no unequivocal way to compute a byte-offset while in bits-mode");
-- 
2.43.0


From e02734d760bbfa18a161b21dd62733fa88aaf3a3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 43/49] fix: generated alternations, negative lookaheads and
 permits give their branch-point back

---
 src/codegen/mod.rs   | 33 ++++++++++++++++++++++++++++-----
 src/codegen/model.rs |  4 ++++
 src/parser/mod.rs    | 14 ++++++++++++--
 src/parser/offset.rs | 22 ++++++++++++++++++++++
 4 files changed, 66 insertions(+), 7 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 72027e6..030779a 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2966,10 +2966,15 @@ where
                 let open_peek_not = RustStmt::Expr(model::open_peek_not(ctxt.parser())).into();
                 let bind_res =
                     GenStmt::assign(model::PEEK_NOT_RES, cl_inner.to_ast(ctxt).abstracted_try());
+                // NOTE - even when we fail, the context has to be closed, as it would otherwise shadow the recovery-point of any enclosing one
+                let mut close_and_fail = GenBlock::explicit_return(model::err_bad_peek_not());
+                close_and_fail.prepend_stmt(
+                    RustStmt::Expr(model::try_close_peek_not(ctxt.parser())).into(),
+                );
                 let close_or_fail = GenExpr::Control(Box::new(RustControl::If(
                     Box::new(RustExpr::local(model::PEEK_NOT_RES).call_method("is_err")),
                     GenBlock::simple_expr(model::try_close_peek_not(ctxt.parser())),
-                    Some(GenBlock::explicit_return(model::err_bad_peek_not())),
+                    Some(close_and_fail),
                 )));
                 let stmts = vec![open_peek_not, bind_res];
                 GenBlock::from_parts(stmts, Some(close_or_fail))
@@ -3496,6 +3501,11 @@ where
                     "ParallelLogic::Alts found with empty list of parse-alternations"
                 );
 
+                // NOTE - with only one branch, there is no alternative to fall back on and its failure is our own
+                if let [only] = &alts[..] {
+                    return only.to_ast(ctxt);
+                }
+
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
 
@@ -3507,8 +3517,15 @@ where
                 for (ix, branch_cl) in alts.iter().enumerate() {
                     let n_left = (l - 1) - ix;
                     let on_match = |ret_expr: RustExpr| match n_left {
+                        // NOTE - the branch-point is already closed by the time we reach the last branch
                         0 => GenBlock::implicit_return(ret_expr),
-                        1.. => GenBlock::explicit_return(ret_expr),
+                        1.. => {
+                            let mut block = GenBlock::explicit_return(ret_expr);
+                            block.prepend_stmt(
+                                RustStmt::Expr(model::try_close_alt(ctxt.parser())).into(),
+                            );
+                            block
+                        }
                     };
                     let on_err = match n_left {
                         0 => GenBlock::implicit_return(RustExpr::ResultErr(Box::new(
@@ -3635,13 +3652,19 @@ impl ToAst for DerivedLogic<GTExpr> {
             }
             DerivedLogic::Permit(inner, expr) => {
                 let rhs = inner.to_ast(ctxt).abstracted_try();
+                // NOTE - an inner parse that fails must leave no trace, so we need to be able to return to where it began
+                let start_alt = RustStmt::Expr(model::start_alt(ctxt.parser())).into();
                 let bind_res = GenStmt::assign(model::PERMIT_BIND, rhs);
-                let if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                let if_ok = GenBlock::lift_block(
+                    [RustStmt::Expr(model::try_close_alt(ctxt.parser()))],
+                    RustExpr::local(model::PERMIT_BIND),
+                );
                 let if_err = {
-                    let (stmts, expr) = model::yield_value_with_error(
+                    let (mut stmts, expr) = model::yield_value_with_error(
                         (&**expr).clone(),
                         RustExpr::local(model::PERMIT_ERR),
                     );
+                    stmts.push(RustStmt::Expr(model::try_next_alt(ctxt.parser(), true)));
                     GenBlock::lift_block(stmts, expr)
                 };
                 let ctrl = GenExpr::Control(Box::new(RustControl::Match(
@@ -3654,7 +3677,7 @@ impl ToAst for DerivedLogic<GTExpr> {
                         .to_vec(),
                     ),
                 )));
-                let block = GenBlock::from_parts(vec![bind_res], Some(ctrl));
+                let block = GenBlock::from_parts(vec![start_alt, bind_res], Some(ctrl));
                 block
             }
             #[cfg(feature = "format_enforce")]
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index aadbed2..39ea9d9 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -319,6 +319,10 @@ pub fn try_next_alt(parser: RustExpr, next_is_final: bool) -> RustExpr {
     try_call!(parser, next_alt, RustExpr::bool_lit(next_is_final))
 }
 
+pub fn try_close_alt(parser: RustExpr) -> RustExpr {
+    try_call!(parser, close_alt)
+}
+
 // !SECTION
 
 // SECTION - boilerplate patterns based on incidental implementation details of codegen process
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6f2e979..9951290 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -311,11 +311,11 @@ impl<'a> Parser<'a> {
     /// let mut p = Parser::new(&buf);
     /// p.start_alt();
     /// match parse_a(&mut p) {
-    ///     Ok(result_a) => return ..., // short circuit to escape future alternation branches
+    ///     Ok(result_a) => { p.close_alt()?; return ... } // short circuit to escape future alternation branches
     ///     Err(_) => p.next_alt(false)?, // the next branch, B, is not the last
     /// }
     /// match parse_b(&mut p) {
-    ///     Ok(result_b) => return ..., // short circuit to escape future alternation branches
+    ///     Ok(result_b) => { p.close_alt()?; return ... } // short circuit to escape future alternation branches
     ///     Err(_) => p.next_alt(true)?, // the next branch, C, is the last
     /// }
     /// match parse_c(&mut p) {
@@ -331,6 +331,16 @@ impl<'a> Parser<'a> {
         Ok(())
     }
 
+    /// Closes the latest 'Alts' context after one of its (non-final) branches was parsed successfully, leaving the offset as-is.
+    ///
+    /// Without this, the branch-point would outlive its alternation, and shadow that of any enclosing `Alts` or `PeekNot`.
+    ///
+    /// Will return an error if there is no Alts context to close.
+    pub fn close_alt(&mut self) -> PResult<()> {
+        self.offset.close_parallel()?;
+        Ok(())
+    }
+
     /// Returns the number of bytes that remain in the current, possibly slice-limited context.
     ///
     /// The return value will be `0` if and only if `self.read_byte` will return `Err(ParseError::Overrun(...))`.
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 9144dba..f682137 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -288,6 +288,20 @@ impl ViewStack {
         }
         Err(StateError::NoRecovery)
     }
+
+    /// Truncates a `ViewStack` to just below its topmost [`Lens::Alts`], which is no longer a
+    /// recovery-point once one of the branches of the alternation has succeeded.
+    ///
+    /// If there is no such `Lens`, returns `Err(StateError::NoRecovery)`.
+    pub(crate) fn close_parallel(&mut self) -> Result<(), StateError> {
+        let ix = self
+            .stack
+            .iter()
+            .rposition(|lens| matches!(lens, Lens::Alts { .. }))
+            .ok_or(StateError::NoRecovery)?;
+        self.stack.truncate(ix);
+        Ok(())
+    }
 }
 
 /// Enumeration over the (four) format-combinators that require special handling,
@@ -619,6 +633,14 @@ impl BufferOffset {
         self.view_stack.push_lens(parallel);
     }
 
+    /// Removes the most recently opened [`Lens::Alts`] from the internal `ViewStack` (along with any `Lens`
+    /// opened after it), without changing the current offset.
+    ///
+    /// Returns `Err(StateError::NoRecovery)` if there is no `Lens::Alts` to close.
+    pub(crate) fn close_parallel(&mut self) -> Result<(), StateError> {
+        self.view_stack.close_parallel()
+    }
+
     /// Performs a [`ViewStack::restore`] operation on the internal ViewStack, replacing
     /// the current offset and ViewStack's values with the return-value of that method call.
     ///
-- 
2.43.0


From 0c450bee138641ee94f9010953afc6927fb611a5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:28 +0000
Subject: [PATCH 44/49] fix: generated relative offsets do not overflow the
 width of their operands

---
 src/codegen/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 030779a..b9aa879 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2939,7 +2939,10 @@ where
             EngineLogic::OffsetPeek(base_addr, offs, cl_inner) => {
                 let bind_tgt_offset_var = RustStmt::assign(
                     model::OFFS_PEEK_TARGET,
-                    RustExpr::add(base_addr.clone(), offs.clone()),
+                    RustExpr::add(
+                        base_addr.clone().cast_as_usize(),
+                        offs.clone().cast_as_usize(),
+                    ),
                 )
                 .into();
                 let advance_or_seek = RustStmt::assign(
-- 
2.43.0


From 7e94a613a5aa0a1aed1d6fc5749f3ab8911b19cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:28 +0000
Subject: [PATCH 45/49] fix: generated AsChar yields the replacement character
 as the interpreter does

---
 src/codegen/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index b9aa879..774e996 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1246,8 +1246,14 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
             RustExpr::local("u64le").call_with([embed_expr_nat(le_bytes)])
         }
         TypedExpr::AsChar(codepoint) => RustExpr::scoped(["char"], "from_u32")
-            .call_with([embed_expr_nat(codepoint)])
-            .call_method("unwrap"),
+            .call_with([RustExpr::Operation(RustOp::AsCast(
+                Box::new(embed_expr_nat(codepoint)),
+                PrimType::U32.into(),
+            ))])
+            .call_method_with(
+                "unwrap_or",
+                [RustExpr::scoped(["char"], "REPLACEMENT_CHARACTER")],
+            ),
         TypedExpr::SeqLength(seq) => {
             // NOTE - SeqLength is treated as U32 in Format context, so any operations on it have to be done on a U32 value rather than the natural `.len(): _ -> usize` return-value
             RustExpr::Operation(RustOp::AsCast(
-- 
2.43.0


From 671cacfd9c1641890fde41e0e21f796b613dee8f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:28 +0000
Subject: [PATCH 46/49] fix: generated one-element tuple patterns match
 one-element tuples only

---
 src/codegen/mod.rs          | 14 +++++++++-----
 src/codegen/rust_ast/mod.rs |  8 +++++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 774e996..13f0ce4 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -908,14 +908,18 @@ fn embed_view_expr(view: &TypedViewExpr<GenType>) -> RustExpr {
 
 fn embed_pattern(pat: &GTPattern) -> RustPattern {
     match pat {
-        TypedPattern::Tuple(_, elts) => match elts.as_slice() {
-            [TypedPattern::Wildcard(..)] => RustPattern::Fill,
-            _ => RustPattern::TupleLiteral(elts.iter().map(embed_pattern).collect()),
-        },
+        TypedPattern::Tuple(_, elts) => {
+            RustPattern::TupleLiteral(elts.iter().map(embed_pattern).collect())
+        }
         TypedPattern::Variant(gt, vname, inner) => match gt {
             GenType::Def((_, tname), _def) => {
                 let constr = Constructor::Compound(tname.clone(), vname.clone());
-                let inner_pat = match inner.as_ref() {
+                // NOTE - a variant over a 1-tuple has the sole element of that tuple as its only positional argument
+                let inner = match inner.as_ref() {
+                    TypedPattern::Tuple(_, elts) if elts.len() == 1 => &elts[0],
+                    other => other,
+                };
+                let inner_pat = match inner {
                     TypedPattern::Wildcard(..) => RustPattern::Fill,
                     _ => {
                         let inner_t = inner.get_type();
diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 6f9022d..d7b7616 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3765,7 +3765,13 @@ impl ToFragment for RustPattern {
                 .to_fragment()
                 .intervene(Fragment::string("..="), pl1.to_fragment()),
             RustPattern::PrimRange(pl0, None) => pl0.to_fragment().cat(Fragment::string("..")),
-            RustPattern::TupleLiteral(tup) => RustPattern::paren_list(tup),
+            RustPattern::TupleLiteral(tup) => match &tup[..] {
+                // NOTE - without the trailing comma, this would be the bare pattern in parentheses
+                [sole] => sole
+                    .to_fragment()
+                    .delimit(Fragment::Char('('), Fragment::string(",)")),
+                _ => RustPattern::paren_list(tup),
+            },
             RustPattern::ArrayLiteral(tup) => RustPattern::brace_list(tup),
             RustPattern::Variant(constr, inner) => {
                 RustExpr::Entity(RustEntity::from(constr.clone()))
-- 
2.43.0


From e0f97c7e94ef38c33a8eb590019efbba4012b14d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:28 +0000
Subject: [PATCH 47/49] fix: generated division, remainder and shift keep the
 grouping of their right-hand side

---
 src/codegen/rust_ast/mod.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index d7b7616..e974d40 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3436,13 +3436,27 @@ impl ToFragmentExt for RustOp {
     fn to_fragment_precedence(&self, prec: Precedence) -> Fragment {
         let inherent = self.precedence();
         match self {
-            RustOp::InfixOp(op, lhs, rhs) => cond_paren(
-                lhs.to_fragment_precedence(inherent)
-                    .cat(Fragment::string(op.token()))
-                    .cat(rhs.to_fragment_precedence(inherent)),
-                prec,
-                inherent,
-            ),
+            RustOp::InfixOp(op, lhs, rhs) => {
+                // NOTE - `a / (b / c)` is not `a / b / c`, so the right-hand side of a non-associative operator needs its parentheses
+                let rhs_prec = match (op, &**rhs) {
+                    (
+                        InfixOperator::Div
+                        | InfixOperator::Rem
+                        | InfixOperator::Sub
+                        | InfixOperator::Shl
+                        | InfixOperator::Shr,
+                        RustExpr::Operation(RustOp::InfixOp(..)),
+                    ) => Precedence::ATOM,
+                    _ => inherent,
+                };
+                cond_paren(
+                    lhs.to_fragment_precedence(inherent)
+                        .cat(Fragment::string(op.token()))
+                        .cat(rhs.to_fragment_precedence(rhs_prec)),
+                    prec,
+                    inherent,
+                )
+            }
             RustOp::PrefixOp(op, inner) => cond_paren(
                 Fragment::string(op.token()).cat(inner.to_fragment_precedence(inherent)),
                 prec,
-- 
2.43.0


From 7a1e026018a47a44442c11b343f6d55e31a1b15b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:51:28 +0000
Subject: [PATCH 48/49] fix: reading past the end of a view is an error, not a
 panic

---
 generated/gencode.rs | 1816 ++++++++++++++++++++++--------------------
 src/codegen/model.rs |    2 +-
 src/parser/view.rs   |   20 +-
 3 files changed, 949 insertions(+), 889 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3aac61b..bd4df0c 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8614,6 +8614,7 @@ PResult::Ok(main_data::waldo(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8627,6 +8628,7 @@ PResult::Ok(main_data::peano(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8640,6 +8642,7 @@ PResult::Ok(main_data::gif(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8653,6 +8656,7 @@ PResult::Ok(main_data::tgz(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8666,6 +8670,7 @@ PResult::Ok(main_data::gzip(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8679,6 +8684,7 @@ PResult::Ok(main_data::jpeg(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8692,6 +8698,7 @@ PResult::Ok(main_data::mpeg4(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8705,6 +8712,7 @@ PResult::Ok(main_data::png(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8718,6 +8726,7 @@ PResult::Ok(main_data::riff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8731,6 +8740,7 @@ PResult::Ok(main_data::tiff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8744,6 +8754,7 @@ PResult::Ok(main_data::tar(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8757,6 +8768,7 @@ PResult::Ok(main_data::elf(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8770,6 +8782,7 @@ PResult::Ok(main_data::opentype(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8783,6 +8796,7 @@ PResult::Ok(main_data::numbers(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8796,6 +8810,7 @@ PResult::Ok(main_data::rle(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8877,7 +8892,7 @@ return Err(ParseError::ExcludedBranch(5712308626808297759u64));
 let _here = _input.get_offset_u64();
 let waldo = {
 let scope = _input.view();
-scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)
+scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)?
 };
 _input.skip_remainder();
 PResult::Ok(waldo_main { r#where, noise, waldo })
@@ -8886,11 +8901,14 @@ PResult::Ok(waldo_main { r#where, noise, waldo })
 /// d#3
 fn Decoder3(_input: &mut Parser<'_>) -> Result<Vec<u32>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+match _input.read_byte()? {
 90u8 => {
 1
 },
@@ -8900,7 +8918,8 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8638089167112501923u64));
+0
+}
 }
 };
 _input.close_peek_context()?;
@@ -8945,7 +8964,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1453530207670075215u64));
+return Err(ParseError::ExcludedBranch(8638089167112501923u64));
 }
 };
 _input.close_peek_context()?;
@@ -8983,15 +9002,19 @@ PResult::Ok(accum)
 /// d#6
 fn Decoder6(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -9083,7 +9106,7 @@ let b = _input.read_byte()?;
 if b == 137 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15915510438164744429u64));
+return Err(ParseError::ExcludedBranch(1453530207670075215u64));
 }
 };
 let ix1 = {
@@ -9091,7 +9114,7 @@ let b = _input.read_byte()?;
 if b == 80 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1542992798780655146u64));
+return Err(ParseError::ExcludedBranch(15915510438164744429u64));
 }
 };
 let ix2 = {
@@ -9099,7 +9122,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7028560493922100069u64));
+return Err(ParseError::ExcludedBranch(1542992798780655146u64));
 }
 };
 let ix3 = {
@@ -9107,7 +9130,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2649783168072194737u64));
+return Err(ParseError::ExcludedBranch(7028560493922100069u64));
 }
 };
 let ix4 = {
@@ -9115,7 +9138,7 @@ let b = _input.read_byte()?;
 if b == 13 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8253205784254894771u64));
+return Err(ParseError::ExcludedBranch(2649783168072194737u64));
 }
 };
 let ix5 = {
@@ -9123,7 +9146,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1225514472166157741u64));
+return Err(ParseError::ExcludedBranch(8253205784254894771u64));
 }
 };
 let ix6 = {
@@ -9131,7 +9154,7 @@ let b = _input.read_byte()?;
 if b == 26 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1224415506115142500u64));
+return Err(ParseError::ExcludedBranch(1225514472166157741u64));
 }
 };
 let ix7 = {
@@ -9139,7 +9162,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16859485491091215361u64));
+return Err(ParseError::ExcludedBranch(1224415506115142500u64));
 }
 };
 vec![ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7]
@@ -9171,7 +9194,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14898840355839773829u64));
+return Err(ParseError::ExcludedBranch(16859485491091215361u64));
 }
 }
 },
@@ -9181,7 +9204,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9453951600195794313u64));
+return Err(ParseError::ExcludedBranch(14898840355839773829u64));
 }
 }
 },
@@ -9195,7 +9218,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10036157788440812915u64));
+return Err(ParseError::ExcludedBranch(9453951600195794313u64));
 }
 }
 },
@@ -9205,7 +9228,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6349531732377484771u64));
+return Err(ParseError::ExcludedBranch(10036157788440812915u64));
 }
 };
 _input.close_peek_context()?;
@@ -9225,7 +9248,7 @@ let idat = {
 let idat = {
 let xs = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9253,7 +9276,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13785646910930464515u64));
+return Err(ParseError::ExcludedBranch(6349531732377484771u64));
 }
 }
 },
@@ -9263,7 +9286,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5323644471994966730u64));
+return Err(ParseError::ExcludedBranch(13785646910930464515u64));
 }
 }
 },
@@ -9273,7 +9296,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13278122992382147879u64));
+return Err(ParseError::ExcludedBranch(5323644471994966730u64));
 }
 }
 },
@@ -9283,7 +9306,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18159646757349796721u64));
+return Err(ParseError::ExcludedBranch(13278122992382147879u64));
 }
 };
 _input.close_peek_context()?;
@@ -9340,7 +9363,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706606u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7124606020426797957u64));
+return Err(ParseError::ExcludedBranch(18159646757349796721u64));
 }
 }
 },
@@ -9350,7 +9373,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847690238u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15116592996336247086u64));
+return Err(ParseError::ExcludedBranch(7124606020426797957u64));
 }
 }
 },
@@ -9360,7 +9383,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10346499338674982396u64));
+return Err(ParseError::ExcludedBranch(15116592996336247086u64));
 }
 }
 },
@@ -9370,7 +9393,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10951432197815892834u64));
+return Err(ParseError::ExcludedBranch(10346499338674982396u64));
 }
 };
 _input.close_peek_context()?;
@@ -9398,7 +9421,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14864597187136898256u64));
+return Err(ParseError::ExcludedBranch(10951432197815892834u64));
 }
 };
 let arg1 = {
@@ -9406,7 +9429,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15238960955167157760u64));
+return Err(ParseError::ExcludedBranch(14864597187136898256u64));
 }
 };
 let arg2 = {
@@ -9414,7 +9437,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17527274083228188873u64));
+return Err(ParseError::ExcludedBranch(15238960955167157760u64));
 }
 };
 let arg3 = {
@@ -9422,7 +9445,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17855530393917176367u64));
+return Err(ParseError::ExcludedBranch(17527274083228188873u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9443,7 +9466,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11054356281452530428u64));
+return Err(ParseError::ExcludedBranch(17855530393917176367u64));
 })
 } else {
 None
@@ -9478,7 +9501,7 @@ u32be(x)
 }
 };
 let ifd = {
-let tgt_offset = start_of_header + offset;
+let tgt_offset = (start_of_header as usize) + (offset as usize);
 let _is_advance = _input.advance_or_seek(tgt_offset)?;
 let ret = (Decoder_tiff_ifd_le(_input, byte_order))?;
 _input.close_peek_context()?;
@@ -9491,7 +9514,7 @@ PResult::Ok(tiff_main { start_of_header, byte_order, magic, offset, ifd })
 fn Decoder_tar_main(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -9505,7 +9528,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17406968167054271466u64));
+return Err(ParseError::ExcludedBranch(11054356281452530428u64));
 }
 };
 _input.close_peek_context()?;
@@ -9533,7 +9556,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11100042044514704042u64));
+return Err(ParseError::ExcludedBranch(17406968167054271466u64));
 }
 };
 accum.push(next_elem)
@@ -9562,7 +9585,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5409189036752851054u64));
+return Err(ParseError::ExcludedBranch(11100042044514704042u64));
 }
 };
 accum.push(next_elem)
@@ -9580,7 +9603,7 @@ fn Decoder_elf_main(_input: &mut Parser<'_>) -> Result<elf_main, ParseError> {
 let header = (Decoder_elf_header(_input))?;
 _input.get_offset_u64();
 let program_headers = if !matches!(header.phoff, elf_types_elf_off::Off32(0u32) | elf_types_elf_off::Off64(0u64)) {
-let tgt_offset = match header.phoff {
+let tgt_offset = (0u64 as usize) + (match header.phoff {
 elf_types_elf_off::Off32(x32) => {
 x32 as u64
 },
@@ -9588,7 +9611,7 @@ x32 as u64
 elf_types_elf_off::Off64(x64) => {
 x64
 }
-};
+} as usize);
 let _is_advance = _input.advance_or_seek(tgt_offset)?;
 let ret = (Decoder237(_input, header.ident.data == 2u8, header.ident.class, header.phnum))?;
 _input.close_peek_context()?;
@@ -9597,7 +9620,7 @@ Some(ret)
 None
 };
 let section_headers = if !matches!(header.shoff, elf_types_elf_off::Off32(0u32) | elf_types_elf_off::Off64(0u64)) {
-let tgt_offset = match header.shoff {
+let tgt_offset = (0u64 as usize) + (match header.shoff {
 elf_types_elf_off::Off32(x32) => {
 x32 as u64
 },
@@ -9605,7 +9628,7 @@ x32 as u64
 elf_types_elf_off::Off64(x64) => {
 x64
 }
-};
+} as usize);
 let _is_advance = _input.advance_or_seek(tgt_offset)?;
 let ret = (Decoder238(_input, header.ident.data == 2u8, header.ident.class, header.shnum))?;
 _input.close_peek_context()?;
@@ -9618,7 +9641,7 @@ Some(ref shdrs) => {
 let mut accum = Vec::new();
 for shdr in shdrs.clone() {
 let next_elem = if (shdr.r#type != 8u32) && (shdr.r#type != 0u32) {
-let tgt_offset = match shdr.offset {
+let tgt_offset = (0u64 as usize) + (match shdr.offset {
 elf_types_elf_off::Off32(x32) => {
 x32 as u64
 },
@@ -9626,7 +9649,7 @@ x32 as u64
 elf_types_elf_off::Off64(x64) => {
 x64
 }
-};
+} as usize);
 let _is_advance = _input.advance_or_seek(tgt_offset)?;
 let ret = (Decoder239(_input, shdr.r#type, match shdr.size {
 elf_types_elf_full::Full32(x32) => {
@@ -9689,7 +9712,7 @@ opentype_main_directory::TableDirectory(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4726315105662630465u64));
+return Err(ParseError::FailToken(5409189036752851054u64));
 }
 };
 PResult::Ok(opentype_main { magic, directory })
@@ -9703,7 +9726,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10036638040555853769u64));
+return Err(ParseError::ExcludedBranch(4726315105662630465u64));
 }
 };
 let arg1 = {
@@ -9711,7 +9734,7 @@ let b = _input.read_byte()?;
 if b == 85 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13230337088401352826u64));
+return Err(ParseError::ExcludedBranch(10036638040555853769u64));
 }
 };
 let arg2 = {
@@ -9719,7 +9742,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11460567998186064482u64));
+return Err(ParseError::ExcludedBranch(13230337088401352826u64));
 }
 };
 let arg3 = {
@@ -9727,7 +9750,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6223008304848233301u64));
+return Err(ParseError::ExcludedBranch(11460567998186064482u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9772,7 +9795,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14550754927305275517u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -9806,7 +9829,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2391834656526534993u64));
+return Err(ParseError::ExcludedBranch(10197098993763395417u64));
 }
 };
 _input.close_peek_context()?;
@@ -9820,7 +9843,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10197098993763395417u64));
+return Err(ParseError::ExcludedBranch(6223008304848233301u64));
 }
 };
 let inner = (Decoder_rle_old_style(_input))?;
@@ -9833,7 +9856,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15631554783732883240u64));
+return Err(ParseError::ExcludedBranch(14550754927305275517u64));
 }
 };
 let inner = (Decoder_rle_new_style(_input))?;
@@ -9841,7 +9864,7 @@ rle_main::new_style(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422510723961972169u64));
+return Err(ParseError::ExcludedBranch(15631554783732883240u64));
 }
 })
 }
@@ -9900,7 +9923,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10940017698627680568u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -9964,7 +9987,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665974566873665536u64));
+return Err(ParseError::ExcludedBranch(9422510723961972169u64));
 }
 };
 _input.close_peek_context()?;
@@ -9978,10 +10001,10 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(179268011689651936u64));
+return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 }
 };
-(char::from_u32(0u32)).unwrap()
+(char::from_u32(0u32 as u32)).unwrap_or(char::REPLACEMENT_CHARACTER)
 },
 
 1 => {
@@ -9989,7 +10012,7 @@ return Err(ParseError::ExcludedBranch(179268011689651936u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(374064178837027275u64));
+return Err(ParseError::ExcludedBranch(10940017698627680568u64));
 }
 })
 }
@@ -10038,7 +10061,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18164850183020044607u64));
+return Err(ParseError::ExcludedBranch(9220862562374507822u64));
 }
 };
 _input.close_peek_context()?;
@@ -10052,7 +10075,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(658824046370133753u64));
+return Err(ParseError::ExcludedBranch(179268011689651936u64));
 }
 };
 byte as u32
@@ -10066,7 +10089,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 4294967292u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3725673472712527969u64));
+return Err(ParseError::ExcludedBranch(9665974566873665536u64));
 }
 };
 raw & 31u8
@@ -10103,7 +10126,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15080388466336998873u64));
+return Err(ParseError::ExcludedBranch(8376883036401934317u64));
 }
 };
 _input.close_peek_context()?;
@@ -10118,7 +10141,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12728843535195535635u64));
+return Err(ParseError::ExcludedBranch(374064178837027275u64));
 }
 };
 raw & 15u8
@@ -10129,7 +10152,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744069414584320u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15741082764016749161u64));
+return Err(ParseError::ExcludedBranch(658824046370133753u64));
 }
 };
 raw & 63u8
@@ -10145,7 +10168,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 35175782154240u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9967703502401950260u64));
+return Err(ParseError::ExcludedBranch(3725673472712527969u64));
 }
 };
 raw & 15u8
@@ -10162,7 +10185,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8376883036401934317u64));
+return Err(ParseError::ExcludedBranch(12728843535195535635u64));
 }
 };
 raw & 15u8
@@ -10173,7 +10196,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 4294967295u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9069368457806005425u64));
+return Err(ParseError::ExcludedBranch(15741082764016749161u64));
 }
 };
 raw & 63u8
@@ -10189,7 +10212,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3179861450314844647u64));
+return Err(ParseError::ExcludedBranch(9967703502401950260u64));
 }
 };
 raw & 15u8
@@ -10200,7 +10223,7 @@ let arg2 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6070260202873699214u64));
+return Err(ParseError::ExcludedBranch(9069368457806005425u64));
 }
 }
 };
@@ -10229,7 +10252,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8772793160380380086u64));
+return Err(ParseError::ExcludedBranch(3852079030227774582u64));
 }
 };
 _input.close_peek_context()?;
@@ -10244,7 +10267,7 @@ let b = _input.read_byte()?;
 if b == 240 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8986322043713516692u64));
+return Err(ParseError::ExcludedBranch(3179861450314844647u64));
 }
 };
 raw & 7u8
@@ -10255,7 +10278,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709486080u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11786939113783016634u64));
+return Err(ParseError::ExcludedBranch(15080388466336998873u64));
 }
 };
 raw & 63u8
@@ -10272,7 +10295,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3852079030227774582u64));
+return Err(ParseError::ExcludedBranch(6070260202873699214u64));
 }
 };
 raw & 7u8
@@ -10290,7 +10313,7 @@ let b = _input.read_byte()?;
 if b == 244 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5176232487486782188u64));
+return Err(ParseError::ExcludedBranch(8986322043713516692u64));
 }
 };
 raw & 7u8
@@ -10301,7 +10324,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 65535u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9220862562374507822u64));
+return Err(ParseError::ExcludedBranch(11786939113783016634u64));
 }
 };
 raw & 63u8
@@ -10312,7 +10335,7 @@ let arg3 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2605623462625042002u64));
+return Err(ParseError::ExcludedBranch(5176232487486782188u64));
 }
 }
 };
@@ -10323,11 +10346,11 @@ let (x3, x2, x1, x0) = tuple_var;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10688770705819276010u64));
+return Err(ParseError::ExcludedBranch(8772793160380380086u64));
 }
 }
 };
-PResult::Ok((char::from_u32(codepoint)).unwrap())
+PResult::Ok((char::from_u32(codepoint as u32)).unwrap_or(char::REPLACEMENT_CHARACTER))
 }
 
 /// d#21
@@ -10337,7 +10360,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10416240583538343445u64));
+return Err(ParseError::ExcludedBranch(2605623462625042002u64));
 }
 };
 PResult::Ok(raw & 63u8)
@@ -10466,7 +10489,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11936787736236307191u64));
+return Err(ParseError::ExcludedBranch(386759067598651566u64));
 }
 };
 _input.close_peek_context()?;
@@ -10481,7 +10504,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1457499133218925748u64));
+return Err(ParseError::ExcludedBranch(18164850183020044607u64));
 }
 };
 _input.read_byte()?
@@ -10496,7 +10519,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14215639860155940137u64));
+return Err(ParseError::ExcludedBranch(10688770705819276010u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -10512,7 +10535,7 @@ let b = _input.read_byte()?;
 if b == 2 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5584166819955891466u64));
+return Err(ParseError::ExcludedBranch(10416240583538343445u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10528,7 +10551,7 @@ let b = _input.read_byte()?;
 if b == 3 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11133239979815295357u64));
+return Err(ParseError::ExcludedBranch(1457499133218925748u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10544,7 +10567,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1275286460638129217u64));
+return Err(ParseError::ExcludedBranch(14215639860155940137u64));
 }
 };
 let raw = _input.read_byte()?;
@@ -10560,7 +10583,7 @@ let b = _input.read_byte()?;
 if b == 5 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(386759067598651566u64));
+return Err(ParseError::ExcludedBranch(5584166819955891466u64));
 }
 };
 let raw = {
@@ -10579,7 +10602,7 @@ let b = _input.read_byte()?;
 if b == 6 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13527164188224560282u64));
+return Err(ParseError::ExcludedBranch(11133239979815295357u64));
 }
 };
 let raw = {
@@ -10598,7 +10621,7 @@ let b = _input.read_byte()?;
 if b == 7 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(240888096670347429u64));
+return Err(ParseError::ExcludedBranch(1275286460638129217u64));
 }
 };
 let raw = {
@@ -10611,7 +10634,7 @@ numbers_num_value::I64BEValue(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5215619712890029856u64));
+return Err(ParseError::ExcludedBranch(13527164188224560282u64));
 }
 })
 }
@@ -10630,7 +10653,7 @@ matches!(version, 65536u32 | 1330926671u32 | 1953658213u32)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3167775832820164678u64));
+return Err(ParseError::FalsifiedWhere(240888096670347429u64));
 }
 };
 let num_tables = {
@@ -10675,7 +10698,7 @@ tag == 1953784678u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7215050775822222282u64));
+return Err(ParseError::FalsifiedWhere(11936787736236307191u64));
 }
 };
 let major_version = {
@@ -11284,7 +11307,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(5215619712890029856u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11296,6 +11319,7 @@ None
 }
 };
 let dsig = {
+_input.start_alt();
 let res = (|| match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1146308935u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
@@ -11313,11 +11337,13 @@ PResult::Ok(None)
 })();
 match res {
 Ok(res) => {
+_input.close_alt()?;
 res
 },
 
 Err(err) => {
 log::error!("expect-level value assertion failed: {}", err);
+_input.next_alt(true)?;
 None
 }
 }
@@ -11393,7 +11419,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12652804269632162478u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3167775832820164678u64));
 inner
 }
 };
@@ -11409,7 +11435,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18134882366868794706u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7215050775822222282u64));
 inner
 }
 };
@@ -11430,7 +11456,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let arg1 = {
@@ -11438,7 +11464,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let arg2 = {
@@ -11446,7 +11472,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let arg3 = {
@@ -11454,7 +11480,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11475,7 +11501,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4762692522317026931u64));
+return Err(ParseError::FalsifiedWhere(17920584887603040596u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11590,7 +11616,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9630069758457681762u64));
+return Err(ParseError::FalsifiedWhere(5673845796627816005u64));
 }
 };
 let glyph_data_format = {
@@ -11605,7 +11631,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14591018267292443527u64));
 inner
 }
 };
@@ -11626,7 +11652,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
 inner
 }
 };
@@ -11642,7 +11668,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9630069758457681762u64));
 inner
 }
 };
@@ -11729,7 +11755,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
 inner
 }
 };
@@ -11745,7 +11771,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
 inner
 }
 };
@@ -11761,7 +11787,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
 inner
 }
 };
@@ -11777,7 +11803,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
 inner
 }
 };
@@ -11795,7 +11821,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
 inner
 }
 };
@@ -12377,7 +12403,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
 inner
 }
 };
@@ -12393,7 +12419,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(980800817911480223u64));
+return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
 }
 };
 let horiz_axis_offset = {
@@ -12441,7 +12467,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
 inner
 }
 };
@@ -12487,7 +12513,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(7801539417877429212u64));
+return Err(ParseError::FailToken(1079884235207081886u64));
 },
 
 2u16 => {
@@ -12570,7 +12596,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -12631,7 +12657,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -12690,7 +12716,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -12706,7 +12732,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -12722,7 +12748,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
 inner
 }
 };
@@ -12757,7 +12783,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -12773,7 +12799,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
 inner
 }
 };
@@ -12789,7 +12815,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7343323033370781545u64));
+return Err(ParseError::FalsifiedWhere(8987822076696059625u64));
 }
 };
 {
@@ -12804,7 +12830,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
 inner
 }
 };
@@ -12824,7 +12850,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
 inner
 }
 };
@@ -12859,7 +12885,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12875,7 +12901,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
 inner
 }
 };
@@ -12962,7 +12988,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12978,7 +13004,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -13033,7 +13059,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -13049,7 +13075,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -13065,7 +13091,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
 inner
 }
 };
@@ -13081,7 +13107,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -13124,7 +13150,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -13148,7 +13174,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2818918064991511645u64));
+return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13168,7 +13194,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -13203,7 +13229,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -13219,7 +13245,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -13272,7 +13298,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -13288,7 +13314,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -13375,7 +13401,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13391,7 +13417,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13407,7 +13433,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13423,7 +13449,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
 inner
 }
 };
@@ -13441,7 +13467,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13508,7 +13534,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13549,7 +13575,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
 inner
 }
 };
@@ -13569,7 +13595,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16097120758067046920u64));
+return Err(ParseError::FalsifiedWhere(10263667190582992611u64));
 }
 };
 let records = {
@@ -13605,7 +13631,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13625,7 +13651,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
+return Err(ParseError::FalsifiedWhere(12275201028130973875u64));
 }
 };
 let ratio_range = {
@@ -13749,7 +13775,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13765,7 +13791,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13775,7 +13801,7 @@ u32be(x)
 };
 let signature = {
 let here_view = _input.view();
-here_view.read_len(signature_length as usize)
+here_view.read_len(signature_length as usize)?
 };
 PResult::Ok(opentype_dsig_sig_format1 { signature_length, signature })
 }
@@ -13840,7 +13866,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10502127387712395480u64));
+return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
 }
 };
 let data = match format {
@@ -14030,7 +14056,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -14062,7 +14088,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5322124757500927073u64));
+return Err(ParseError::FailToken(17544092807091201u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14216,7 +14242,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -14253,7 +14279,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
 inner
 }
 };
@@ -14261,7 +14287,7 @@ let svg_document_length = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize);
+let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize)?;
 let _svg_document_utf8 = std::marker::PhantomData;
 PResult::Ok(opentype_svg_document_record { start_glyph_id, end_glyph_id, svg_document_offset, svg_document_length, _svg_document, _svg_document_utf8 })
 }
@@ -14276,6 +14302,7 @@ PResult::Ok(text_maybe_gzip::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -14368,7 +14395,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3433937857563719729u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -14388,15 +14415,19 @@ PResult::Ok(accum)
 /// d#79
 fn Decoder79(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -14454,7 +14485,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13516986665125759073u64));
+return Err(ParseError::ExcludedBranch(5322124757500927073u64));
 }
 };
 let ix1 = {
@@ -14462,7 +14493,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14751251992141172493u64));
+return Err(ParseError::ExcludedBranch(17869550927478639832u64));
 }
 };
 vec![ix0, ix1]
@@ -14532,7 +14563,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733880678136728614u64));
+return Err(ParseError::ExcludedBranch(13431462572241034712u64));
 }
 };
 _input.close_peek_context()?;
@@ -14545,7 +14576,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8997881400116719018u64));
+return Err(ParseError::ExcludedBranch(3433937857563719729u64));
 }
 };
 accum.push(next_elem)
@@ -14560,7 +14591,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13614619987783239962u64));
+return Err(ParseError::ExcludedBranch(13516986665125759073u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14585,7 +14616,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6915530142412472120u64));
+return Err(ParseError::ExcludedBranch(14751251992141172493u64));
 }
 };
 _input.close_peek_context()?;
@@ -14598,7 +14629,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6949960292533894002u64));
+return Err(ParseError::ExcludedBranch(5733880678136728614u64));
 }
 };
 accum.push(next_elem)
@@ -14613,7 +14644,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1347174710810305478u64));
+return Err(ParseError::ExcludedBranch(8997881400116719018u64));
 }
 };
 chars.clone()
@@ -15856,7 +15887,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(6915530142412472120u64));
 }
 }))
 },
@@ -16008,7 +16039,7 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(8390724546948265409u64));
+return Err(ParseError::FailToken(6949960292533894002u64));
 },
 
 _other => {
@@ -16143,7 +16174,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6347242493551283856u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1347174710810305478u64));
 inner
 }
 };
@@ -16209,7 +16240,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4251627061094365437u64));
+return Err(ParseError::FalsifiedWhere(8958899994948144829u64));
 }
 };
 let variation_regions = {
@@ -16382,7 +16413,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11915580511665106140u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15803403730818557393u64));
 inner
 }
 };
@@ -16409,7 +16440,7 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 };
 let map_data = {
 let here_view = _input.view();
-here_view.read_len((map_count * (entry_size as u32)) as usize)
+here_view.read_len((map_count * (entry_size as u32)) as usize)?
 };
 PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_bits, map_count, map_data })
 }
@@ -16466,7 +16497,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17324980155911269375u64));
+return Err(ParseError::FalsifiedWhere(8390724546948265409u64));
 }
 };
 let tuple_variation_headers = {
@@ -16659,7 +16690,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 _input.close_peek_context()?;
@@ -16673,7 +16704,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 (0u16, [].to_vec())
@@ -16685,7 +16716,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16697,7 +16728,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16705,7 +16736,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 })
 }
@@ -16835,7 +16866,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2444204717155307095u64));
 inner
 }
 };
@@ -16984,7 +17015,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11250208753083412758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1278184758971178969u64));
 inner
 }
 };
@@ -17000,7 +17031,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17349123374714965876u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4480225125687487743u64));
 inner
 }
 };
@@ -17056,7 +17087,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12879845237981630531u64));
 inner
 }
 };
@@ -17072,7 +17103,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
 inner
 }
 };
@@ -17214,7 +17245,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(11250208753083412758u64));
 }
 };
 let table_scope = table_view;
@@ -17230,7 +17261,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
+return Err(ParseError::FalsifiedWhere(17349123374714965876u64));
 }
 };
 let extension_offset = {
@@ -17283,11 +17314,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(8700288293163706751u64));
+return Err(ParseError::FailToken(2153064741293804702u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(16771529512960957239u64));
+return Err(ParseError::FailToken(1588651938759015246u64));
 }
 })
 }
@@ -17311,7 +17342,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13846498452079501214u64));
+return Err(ParseError::FailToken(3249387167439447765u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17380,7 +17411,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
+return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
 }
 };
 let coverage = {
@@ -17429,7 +17460,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
+return Err(ParseError::FalsifiedWhere(8700288293163706751u64));
 }
 };
 let coverage = {
@@ -17487,7 +17518,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(18279137173405083757u64));
+return Err(ParseError::FailToken(16771529512960957239u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17518,7 +17549,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14954891776835932150u64));
+return Err(ParseError::FailToken(13846498452079501214u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17539,7 +17570,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
+return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
 }
 };
 let table_scope = table_view;
@@ -17670,7 +17701,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14984809111992638634u64));
+return Err(ParseError::FailToken(9819345728844658158u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17918,7 +17949,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9342187932533045817u64));
+return Err(ParseError::FailToken(18279137173405083757u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18160,7 +18191,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+return Err(ParseError::FalsifiedWhere(14954891776835932150u64));
 }
 };
 let seq_lookup_count = {
@@ -18398,7 +18429,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
 inner
 }
 };
@@ -18547,7 +18578,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(14984809111992638634u64));
 }
 };
 let table_scope = table_view;
@@ -18563,7 +18594,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(9342187932533045817u64));
 }
 };
 let extension_offset = {
@@ -18621,11 +18652,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(13404710972790825894u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(2688427941405105545u64));
 }
 })
 }
@@ -18649,7 +18680,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(6279463968646665849u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18674,7 +18705,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(10875553067752207222u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18695,7 +18726,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
 }
 };
 let table_scope = table_view;
@@ -18737,7 +18768,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(1179945139148562335u64));
 }
 };
 let table_scope = table_view;
@@ -18796,7 +18827,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(3270685119814653163u64));
 }
 };
 let mark_coverage = {
@@ -18853,7 +18884,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(6821845925776570829u64));
 }
 };
 let table_scope = table_view;
@@ -19011,7 +19042,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6495907546257147840u64));
+return Err(ParseError::FailToken(15898809900392744567u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19159,7 +19190,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8327471529801851430u64));
+return Err(ParseError::ExcludedBranch(5653230390980289841u64));
 }
 };
 let arg1 = {
@@ -19167,7 +19198,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10310785543736156275u64));
+return Err(ParseError::ExcludedBranch(9179996462972575343u64));
 }
 };
 (arg0, arg1)
@@ -20105,7 +20136,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16594239496794104967u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3675496117133668659u64));
 inner
 }
 };
@@ -20196,7 +20227,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(6495907546257147840u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20445,7 +20476,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12187643960709778443u64));
+return Err(ParseError::FailToken(8327471529801851430u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20509,7 +20540,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8766708729375264031u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21056,7 +21087,7 @@ fn Decoder_opentype_post_pascal_string<'input>(_input: &mut Parser<'input>) -> R
 let length = _input.read_byte()?;
 let string = {
 let pascal_string_data = _input.view();
-pascal_string_data.read_len(length as usize)
+pascal_string_data.read_len(length as usize)?
 };
 PResult::Ok(opentype_post_pascal_string { length, string })
 }
@@ -21088,7 +21119,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_name_record { platform, encoding, language, name_id, length, string })
@@ -21122,7 +21153,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_lang_tag_record { length, lang_tag })
@@ -21158,7 +21189,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
 }
 };
 let max_twilight_points = {
@@ -21201,7 +21232,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(16529910322175208638u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21320,7 +21351,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12187643960709778443u64));
 inner
 }
 };
@@ -21345,7 +21376,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4770836931378141069u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8766708729375264031u64));
 inner
 }
 };
@@ -21388,7 +21419,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1369437808023015077u64));
 inner
 }
 };
@@ -21403,7 +21434,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(163858356033350300u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21424,7 +21455,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
 inner
 }
 };
@@ -21440,7 +21471,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
 }
 };
 let language = {
@@ -21561,7 +21592,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
 inner
 }
 };
@@ -21586,7 +21617,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3595277668730903043u64));
 inner
 }
 };
@@ -21640,7 +21671,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
 inner
 }
 };
@@ -21721,7 +21752,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12530712830475607577u64));
 inner
 }
 };
@@ -21772,7 +21803,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
 inner
 }
 };
@@ -21788,7 +21819,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
 inner
 }
 };
@@ -21813,7 +21844,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
 inner
 }
 };
@@ -21829,7 +21860,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
 inner
 }
 };
@@ -21884,7 +21915,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
 inner
 }
 };
@@ -21900,7 +21931,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
 inner
 }
 };
@@ -21925,7 +21956,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
 inner
 }
 };
@@ -21941,7 +21972,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
 inner
 }
 };
@@ -21995,7 +22026,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
 inner
 }
 };
@@ -22011,7 +22042,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
 inner
 }
 };
@@ -22036,7 +22067,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -22052,7 +22083,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -22099,7 +22130,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -22115,7 +22146,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -22140,7 +22171,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -22156,7 +22187,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -22203,7 +22234,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -22228,7 +22259,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -22395,7 +22426,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5170050512307443704u64));
+return Err(ParseError::FalsifiedWhere(2508979988921372290u64));
 })
 }
 
@@ -22581,7 +22612,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18440348483137307888u64));
+return Err(ParseError::ExcludedBranch(10057441536650509049u64));
 }
 };
 let arg1 = {
@@ -22589,7 +22620,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11309019127259385425u64));
+return Err(ParseError::ExcludedBranch(11815677057767015929u64));
 }
 };
 let arg2 = {
@@ -22597,7 +22628,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5159371628350638829u64));
+return Err(ParseError::ExcludedBranch(829032137919921844u64));
 }
 };
 let arg3 = {
@@ -22605,7 +22636,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7762269623995317946u64));
+return Err(ParseError::ExcludedBranch(5170050512307443704u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22637,7 +22668,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(18440348483137307888u64));
 }
 };
 accum.push(next_elem)
@@ -22660,7 +22691,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
+return Err(ParseError::FalsifiedWhere(11309019127259385425u64));
 })
 }
 
@@ -22679,7 +22710,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16190528142421852545u64));
+return Err(ParseError::FalsifiedWhere(5159371628350638829u64));
 })
 }
 
@@ -22709,7 +22740,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(173922233423713068u64));
+return Err(ParseError::FalsifiedWhere(7762269623995317946u64));
 })
 }
 
@@ -22723,7 +22754,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
+return Err(ParseError::FalsifiedWhere(16134612799304961491u64));
 })
 }
 
@@ -22737,7 +22768,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
 })
 }
 
@@ -22798,7 +22829,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9277543013594125416u64));
+return Err(ParseError::ExcludedBranch(16190528142421852545u64));
 }
 };
 _input.close_peek_context()?;
@@ -22811,7 +22842,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5955168674639093440u64));
+return Err(ParseError::ExcludedBranch(173922233423713068u64));
 }
 };
 accum.push(next_elem)
@@ -22844,7 +22875,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4471438437047399494u64));
+return Err(ParseError::ExcludedBranch(12540117573097456360u64));
 }
 };
 accum.push(next_elem)
@@ -22879,7 +22910,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319523888327217639u64));
+return Err(ParseError::ExcludedBranch(515819609734101411u64));
 }
 };
 _input.close_peek_context()?;
@@ -22892,7 +22923,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(9277543013594125416u64));
 }
 };
 accum.push(next_elem)
@@ -22925,7 +22956,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(5955168674639093440u64));
 }
 };
 accum.push(next_elem)
@@ -22960,7 +22991,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(4471438437047399494u64));
 }
 };
 _input.close_peek_context()?;
@@ -22973,7 +23004,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(13319523888327217639u64));
 }
 };
 accum.push(next_elem)
@@ -23006,7 +23037,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(824589811577025210u64));
 }
 };
 accum.push(next_elem)
@@ -23029,10 +23060,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(4649034608147552416u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8094248233631264621u64)
+try_sub!(bit as u8, 48u8, 14339975513692068616u64)
 };
 let _o9 = {
 let bit = {
@@ -23040,10 +23071,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7230273548678969972u64)
+try_sub!(bit as u8, 48u8, 12668500753644823654u64)
 };
 let _o8 = {
 let bit = {
@@ -23051,10 +23082,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14903563845775542749u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9038350950373664822u64)
+try_sub!(bit as u8, 48u8, 4839194687019048322u64)
 };
 let _o7 = {
 let bit = {
@@ -23062,10 +23093,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7281717462557989541u64));
+return Err(ParseError::ExcludedBranch(7230273548678969972u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14681668243282477517u64)
+try_sub!(bit as u8, 48u8, 1969670610881234889u64)
 };
 let _o6 = {
 let bit = {
@@ -23073,10 +23104,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(9038350950373664822u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12217686503432178884u64)
+try_sub!(bit as u8, 48u8, 15510952803379905659u64)
 };
 let _o5 = {
 let bit = {
@@ -23084,10 +23115,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(14681668243282477517u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9815657591077818003u64)
+try_sub!(bit as u8, 48u8, 16474038368490899078u64)
 };
 let _o4 = {
 let bit = {
@@ -23095,10 +23126,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(12217686503432178884u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14485842416732585139u64)
+try_sub!(bit as u8, 48u8, 7832192330748800109u64)
 };
 let _o3 = {
 let bit = {
@@ -23106,10 +23137,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8179432974518885725u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
-try_sub!(bit as u8, 48u8, 13780055874544357936u64)
+try_sub!(bit as u8, 48u8, 16624020278885696461u64)
 };
 let _o2 = {
 let bit = {
@@ -23117,10 +23148,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16909208071962620789u64));
+return Err(ParseError::ExcludedBranch(14485842416732585139u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12100308281236296642u64)
+try_sub!(bit as u8, 48u8, 5152282179373241998u64)
 };
 let _o1 = {
 let bit = {
@@ -23128,10 +23159,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9041056097467752267u64));
+return Err(ParseError::ExcludedBranch(13780055874544357936u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3810055094392728880u64)
+try_sub!(bit as u8, 48u8, 7933266403838225878u64)
 };
 let _o0 = {
 let bit = {
@@ -23139,10 +23170,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15252450768049745444u64));
+return Err(ParseError::ExcludedBranch(12100308281236296642u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16437491640759399344u64)
+try_sub!(bit as u8, 48u8, 5025197102194587315u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23170,7 +23201,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(3810055094392728880u64));
 }
 };
 _input.close_peek_context()?;
@@ -23183,7 +23214,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 }
 };
 accum.push(next_elem)
@@ -23216,7 +23247,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(5599331855309773603u64));
 }
 };
 accum.push(next_elem)
@@ -23251,7 +23282,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(16437491640759399344u64));
 }
 };
 _input.close_peek_context()?;
@@ -23264,7 +23295,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
 }
 };
 accum.push(next_elem)
@@ -23297,7 +23328,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(6215067399528787845u64));
 }
 };
 accum.push(next_elem)
@@ -23326,7 +23357,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(17176374570344757031u64));
 }
 };
 let arg1 = {
@@ -23334,7 +23365,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
 let arg2 = {
@@ -23342,7 +23373,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
 let arg3 = {
@@ -23350,7 +23381,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(3653195934333285574u64));
 }
 };
 let arg4 = {
@@ -23358,7 +23389,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
 let arg5 = {
@@ -23366,7 +23397,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23377,7 +23408,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(8898504689444561451u64));
 }
 };
 let arg1 = {
@@ -23385,7 +23416,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
 (arg0, arg1)
@@ -23424,7 +23455,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
 _input.close_peek_context()?;
@@ -23437,7 +23468,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(10046433636842398056u64));
 }
 };
 accum.push(next_elem)
@@ -23470,7 +23501,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
 accum.push(next_elem)
@@ -23505,7 +23536,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
 _input.close_peek_context()?;
@@ -23518,7 +23549,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(5986772336072340665u64));
 }
 };
 accum.push(next_elem)
@@ -23551,7 +23582,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
 accum.push(next_elem)
@@ -23581,7 +23612,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
 accum.push(next_elem)
@@ -23598,11 +23629,14 @@ PResult::Ok(ret)
 fn Decoder_tar_ascii_string_opt0_nonempty(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -23612,7 +23646,8 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+0
+}
 }
 };
 _input.close_peek_context()?;
@@ -23631,7 +23666,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 }
 };
 accum.push(next_elem)
@@ -23661,7 +23696,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
 accum.push(next_elem)
@@ -23680,7 +23715,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 })
 }
 
@@ -23702,7 +23737,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -23715,7 +23750,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 accum.push(next_elem)
@@ -23747,7 +23782,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23778,7 +23813,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 _input.close_peek_context()?;
@@ -23791,7 +23826,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 accum.push(next_elem)
@@ -23803,15 +23838,19 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23829,7 +23868,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 accum.push(next_elem)
@@ -23855,7 +23894,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 _input.close_peek_context()?;
@@ -23869,7 +23908,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 let arg1 = {
@@ -23877,7 +23916,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23889,7 +23928,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 let arg1 = {
@@ -23897,14 +23936,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 })
 }
@@ -24113,7 +24152,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 })
 } else {
 None
@@ -24135,7 +24174,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1029952099207838423u64));
+return Err(ParseError::FalsifiedWhere(4338497647520366709u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24167,7 +24206,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17327099206515189757u64));
+return Err(ParseError::FalsifiedWhere(14600508952542130472u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24299,7 +24338,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
+return Err(ParseError::FalsifiedWhere(460669108121189046u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24333,7 +24372,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
+return Err(ParseError::FalsifiedWhere(8971553008180040990u64));
 }
 };
 let flags = {
@@ -24376,7 +24415,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
+return Err(ParseError::FalsifiedWhere(1310624491311340594u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24394,7 +24433,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 let arg1 = {
@@ -24402,7 +24441,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 let arg2 = {
@@ -24410,7 +24449,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 let arg3 = {
@@ -24418,7 +24457,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24431,7 +24470,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 let arg1 = {
@@ -24439,7 +24478,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 let arg2 = {
@@ -24447,7 +24486,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 }
 };
 let arg3 = {
@@ -24455,7 +24494,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24497,7 +24536,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 let arg1 = {
@@ -24505,7 +24544,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 let arg2 = {
@@ -24513,7 +24552,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 let arg3 = {
@@ -24521,7 +24560,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24530,6 +24569,7 @@ PResult::Ok(())
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24544,7 +24584,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 let arg1 = {
@@ -24552,7 +24592,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 let arg2 = {
@@ -24560,7 +24600,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 let arg3 = {
@@ -24568,7 +24608,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24588,6 +24628,7 @@ Err(_e)
 if res.is_err() {
 _input.close_peek_not_context()?
 } else {
+_input.close_peek_not_context()?;
 return Err(ParseError::NegatedSuccess);
 }
 };
@@ -24598,7 +24639,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 accum.push(next_elem)
@@ -24609,12 +24650,16 @@ PResult::Ok(accum)
 /// d#287
 fn Decoder287(_input: &mut Parser<'_>) -> Result<Vec<gif_color_table_entry>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() == 0 {
+0
+} else {
+_input.read_byte()?;
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24760,7 +24805,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 val.clone()
@@ -24770,7 +24815,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24845,7 +24890,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
+return Err(ParseError::FalsifiedWhere(9465826900165497155u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24860,7 +24905,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 val.clone()
@@ -24870,7 +24915,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 let compression_method = {
@@ -24878,7 +24923,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 let language_tag = {
@@ -24898,7 +24943,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 };
 _input.close_peek_context()?;
@@ -24911,7 +24956,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 accum.push(next_elem)
@@ -24926,7 +24971,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 chars.clone()
@@ -24938,7 +24983,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 val.clone()
@@ -24961,6 +25006,7 @@ PResult::Ok(png_itxt_text::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.close_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -25024,7 +25070,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 val.clone()
@@ -25062,7 +25108,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 val.clone()
@@ -25072,7 +25118,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let compressed_text = {
@@ -25213,7 +25259,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 val.clone()
@@ -25223,7 +25269,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let palette = match sample_depth {
@@ -25333,7 +25379,7 @@ PResult::Ok(png_time { year, month, day, hour, minute, second })
 /// d#302
 fn Decoder302(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -25815,49 +25861,85 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 }
 },
@@ -26249,42 +26331,6 @@ return Err(ParseError::ExcludedBranch(6850311165997710199u64));
 _ => {
 return Err(ParseError::ExcludedBranch(2310756498479603065u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5816243344835903905u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16915030153566842158u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5877293982949196624u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2440323998191641952u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3265375406401843811u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(11458871772722170518u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -26298,7 +26344,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+return Err(ParseError::ExcludedBranch(5816243344835903905u64));
 }
 };
 accum.push(next_elem)
@@ -26310,7 +26356,7 @@ PResult::Ok(accum)
 /// d#303
 fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -26791,6 +26837,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(16915030153566842158u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5877293982949196624u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2440323998191641952u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3265375406401843811u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11458871772722170518u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(15301408058960503169u64));
 }
@@ -27226,42 +27308,6 @@ return Err(ParseError::ExcludedBranch(9730514595131843432u64));
 _ => {
 return Err(ParseError::ExcludedBranch(11851311358763079517u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4195586632355556000u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3595083506735372973u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7160308966995483862u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(10995965655495216468u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(329678914966083835u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6740511944232229269u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -27275,7 +27321,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+return Err(ParseError::ExcludedBranch(4195586632355556000u64));
 }
 };
 accum.push(next_elem)
@@ -27300,7 +27346,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2734069901426030304u64));
+return Err(ParseError::FalsifiedWhere(3595083506735372973u64));
 }
 };
 let flags = {
@@ -27332,7 +27378,7 @@ PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32
 /// d#305
 fn Decoder305(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -27813,6 +27859,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(7160308966995483862u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(10995965655495216468u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(329678914966083835u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6740511944232229269u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(8313738771561634204u64));
 }
@@ -28248,42 +28330,6 @@ return Err(ParseError::ExcludedBranch(9864490923722431849u64));
 _ => {
 return Err(ParseError::ExcludedBranch(1995664400520545068u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14904826071154862403u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9819888267966403254u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9848248130448711783u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13072404838946064765u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(608962121954693839u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4003079682566975393u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -28297,7 +28343,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+return Err(ParseError::ExcludedBranch(14904826071154862403u64));
 }
 };
 accum.push(next_elem)
@@ -28309,7 +28355,7 @@ PResult::Ok(accum)
 /// d#306
 fn Decoder306(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -28790,6 +28836,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(9819888267966403254u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9848248130448711783u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(13072404838946064765u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(608962121954693839u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4003079682566975393u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(1862457564087794359u64));
 }
@@ -29225,42 +29307,6 @@ return Err(ParseError::ExcludedBranch(14577481400621526493u64));
 _ => {
 return Err(ParseError::ExcludedBranch(14148913971033431093u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(17190949120592669315u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(8699787504309122591u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(78099073500381561u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5364461768558038471u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7135191863324865081u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5733684513012333041u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -29274,7 +29320,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+return Err(ParseError::ExcludedBranch(17190949120592669315u64));
 }
 };
 accum.push(next_elem)
@@ -29332,7 +29378,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+return Err(ParseError::ExcludedBranch(8699787504309122591u64));
 }
 };
 _input.close_peek_context()?;
@@ -29365,7 +29411,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14275129881911283147u64));
+return Err(ParseError::FalsifiedWhere(78099073500381561u64));
 }
 };
 let flags = {
@@ -29439,7 +29485,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -29510,7 +29556,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+1
 }
 };
 _input.close_peek_context()?;
@@ -29530,7 +29576,7 @@ PResult::Ok(accum)
 /// d#312
 fn Decoder312(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -29983,32 +30029,80 @@ match _input.read_byte()? {
 74
 },
 
-byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
-match _input.read_byte()? {
-0u8 => {
-75
+byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
+match _input.read_byte()? {
+0u8 => {
+75
+},
+
+byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
+match _input.read_byte()? {
+0u8 => {
+76
+},
+
+byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
+match _input.read_byte()? {
+0u8 => {
+77
+},
+
+byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
+match _input.read_byte()? {
+0u8 => {
+78
+},
+
+byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
+79
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5364461768558038471u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7135191863324865081u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5733684513012333041u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+}
+}
 },
 
-byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
-match _input.read_byte()? {
-0u8 => {
-76
+_ => {
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+}
+}
 },
 
-byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
-match _input.read_byte()? {
-0u8 => {
-77
+_ => {
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
+}
+}
 },
 
-byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
-match _input.read_byte()? {
-0u8 => {
-78
+_ => {
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+}
+}
 },
 
-byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
-79
+_ => {
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+}
+}
 },
 
 _ => {
@@ -30434,54 +30528,6 @@ return Err(ParseError::ExcludedBranch(8004105446758774533u64));
 _ => {
 return Err(ParseError::ExcludedBranch(12569316739694558801u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2967911718584065013u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7227788188777836434u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2859130192484418172u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12550558264664848853u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16954835414833850385u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1891774877762105457u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13705211812356460160u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5515497093089591991u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -30495,7 +30541,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+return Err(ParseError::ExcludedBranch(2967911718584065013u64));
 }
 };
 accum.push(next_elem)
@@ -30520,7 +30566,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6882184431082022206u64));
+return Err(ParseError::FalsifiedWhere(7227788188777836434u64));
 }
 };
 let flags = {
@@ -30556,7 +30602,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3998072683184925592u64));
+return Err(ParseError::ExcludedBranch(2859130192484418172u64));
 }
 };
 let arg1 = {
@@ -30564,7 +30610,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(29850628954056690u64));
+return Err(ParseError::ExcludedBranch(12550558264664848853u64));
 }
 };
 let arg2 = {
@@ -30572,7 +30618,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7279615132236188739u64));
+return Err(ParseError::ExcludedBranch(16954835414833850385u64));
 }
 };
 let arg3 = {
@@ -30580,7 +30626,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17636172564439370608u64));
+return Err(ParseError::ExcludedBranch(1891774877762105457u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30621,7 +30667,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16714498072262546943u64)
+try_sub!(x, 16u64, 5515497093089591991u64)
 },
 
 _ => {
@@ -30783,7 +30829,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15134222038433106385u64)
+try_sub!(x, 16u64, 6882184431082022206u64)
 },
 
 _ => {
@@ -30817,7 +30863,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5499566165243611472u64)
+try_sub!(x, 16u64, 29850628954056690u64)
 },
 
 _ => {
@@ -31038,7 +31084,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14916894554939814670u64)
+try_sub!(x, 16u64, 17636172564439370608u64)
 },
 
 _ => {
@@ -31152,7 +31198,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5334325531610156978u64)
+try_sub!(x, 16u64, 16714498072262546943u64)
 },
 
 _ => {
@@ -31352,7 +31398,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 760820951392925727u64)
+try_sub!(x, 16u64, 15134222038433106385u64)
 },
 
 _ => {
@@ -31416,7 +31462,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4600414761378562541u64)
+try_sub!(x, 16u64, 5499566165243611472u64)
 },
 
 _ => {
@@ -31536,7 +31582,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
+return Err(ParseError::ExcludedBranch(11265176092564100083u64));
 }
 };
 _input.close_peek_context()?;
@@ -31549,7 +31595,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15786118691017431738u64));
+return Err(ParseError::ExcludedBranch(14916894554939814670u64));
 }
 };
 accum.push(next_elem)
@@ -31564,7 +31610,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(10473830801714814973u64));
 }
 };
 chars.clone()
@@ -31655,7 +31701,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7931358881575056193u64)
+try_sub!(x, 16u64, 16975008930446149745u64)
 },
 
 _ => {
@@ -31811,7 +31857,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11515797873012483658u64)
+try_sub!(x, 16u64, 14363790737598139216u64)
 },
 
 _ => {
@@ -31875,7 +31921,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 18313399323903636110u64)
 },
 
 _ => {
@@ -32280,7 +32326,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 16165934354425559621u64)
 },
 
 _ => {
@@ -32366,7 +32412,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 7931358881575056193u64)
 },
 
 _ => {
@@ -32610,7 +32656,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8407356061009412694u64));
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 }
 };
 _input.close_peek_context()?;
@@ -32623,7 +32669,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6881565717664829242u64));
+return Err(ParseError::ExcludedBranch(11515797873012483658u64));
 }
 };
 accum.push(next_elem)
@@ -32638,7 +32684,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13752480002470540422u64));
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
 }
 };
 chars.clone()
@@ -32881,7 +32927,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 11570281271401624317u64)
 },
 
 _ => {
@@ -32965,7 +33011,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 1378805635639824117u64)
 },
 
 _ => {
@@ -33134,7 +33180,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 8407356061009412694u64)
 },
 
 _ => {
@@ -33189,7 +33235,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3484767027554133518u64)
+try_sub!(x, 16u64, 13752480002470540422u64)
 },
 
 _ => {
@@ -33244,7 +33290,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12041148194529633639u64)
+try_sub!(x, 16u64, 5534609128357633386u64)
 },
 
 _ => {
@@ -33341,7 +33387,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(14539762430836305896u64));
 }
 };
 _input.close_peek_context()?;
@@ -33354,7 +33400,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(16625761205375889740u64));
 }
 };
 accum.push(next_elem)
@@ -33369,7 +33415,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(2662265345698212949u64));
 }
 };
 chars.clone()
@@ -33391,7 +33437,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(3344648651879382526u64));
 }
 };
 _input.close_peek_context()?;
@@ -33404,7 +33450,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(8599210436172030522u64));
 }
 };
 accum.push(next_elem)
@@ -33419,7 +33465,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(3484767027554133518u64));
 }
 };
 chars.clone()
@@ -33441,7 +33487,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(15403934492100194569u64));
 }
 };
 _input.close_peek_context()?;
@@ -33454,7 +33500,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(12041148194529633639u64));
 }
 };
 accum.push(next_elem)
@@ -33469,7 +33515,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(2288772415159374970u64));
 }
 };
 chars.clone()
@@ -33515,7 +33561,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(17888323854924040413u64));
 }
 };
 _input.close_peek_context()?;
@@ -33528,7 +33574,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 };
 accum.push(next_elem)
@@ -33543,7 +33589,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(11074951631636946051u64));
 }
 };
 chars.clone()
@@ -33590,7 +33636,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(15601622509425384091u64));
 }
 };
 _input.close_peek_context()?;
@@ -33603,7 +33649,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 };
 accum.push(next_elem)
@@ -33618,7 +33664,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 };
 chars.clone()
@@ -33645,7 +33691,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 _input.close_peek_context()?;
@@ -33658,7 +33704,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 };
 accum.push(next_elem)
@@ -33673,7 +33719,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 };
 chars.clone()
@@ -33688,7 +33734,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 let marker = {
@@ -33696,7 +33742,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33851,11 +33897,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 };
 _input.close_peek_context()?;
 ret
@@ -33976,11 +34022,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 };
 _input.close_peek_context()?;
 ret
@@ -33996,7 +34042,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 }
 };
@@ -34102,11 +34148,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34131,7 +34177,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 }
 };
 let marker = {
@@ -34139,7 +34185,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34162,11 +34208,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34184,7 +34230,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 })
 }
@@ -34282,11 +34328,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34399,7 +34445,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(9892894478446917378u64));
 }
 })
 }
@@ -34465,11 +34511,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34542,7 +34588,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 })
 }
@@ -34647,11 +34693,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34679,7 +34725,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 let marker = {
@@ -34687,7 +34733,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 jpeg_soi { marker }
@@ -34806,11 +34852,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34838,7 +34884,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 let marker = {
@@ -34846,7 +34892,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 jpeg_soi { marker }
@@ -35009,13 +35055,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 _input.close_peek_context()?;
@@ -35120,13 +35166,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 _input.close_peek_context()?;
@@ -35180,7 +35226,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 })
 }
@@ -35200,7 +35246,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 _input.close_peek_context()?;
@@ -35213,7 +35259,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 },
 
@@ -35224,7 +35270,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 let arg1 = {
@@ -35232,7 +35278,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 (arg0, arg1)
@@ -35241,7 +35287,7 @@ return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 })
 }
@@ -35253,7 +35299,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 let marker = {
@@ -35261,7 +35307,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35274,7 +35320,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 let marker = {
@@ -35282,7 +35328,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35295,7 +35341,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 };
 let marker = {
@@ -35303,7 +35349,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35316,7 +35362,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 };
 let marker = {
@@ -35324,7 +35370,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35337,7 +35383,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 let marker = {
@@ -35345,7 +35391,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35358,7 +35404,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 };
 let marker = {
@@ -35366,7 +35412,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35379,7 +35425,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 };
 let marker = {
@@ -35387,7 +35433,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35400,7 +35446,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 };
 let marker = {
@@ -35408,7 +35454,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35425,7 +35471,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3011460078285478248u64));
+return Err(ParseError::FalsifiedWhere(15032955882314050195u64));
 }
 };
 let image_components = {
@@ -35445,7 +35491,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5117297982688264891u64));
+return Err(ParseError::FalsifiedWhere(12522857579864693834u64));
 }
 };
 let end_spectral_selection = {
@@ -35457,7 +35503,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4614223265245060097u64));
+return Err(ParseError::FalsifiedWhere(15286713778088114821u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35494,7 +35540,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
+return Err(ParseError::FalsifiedWhere(17055268834995250246u64));
 })
 }
 
@@ -35512,7 +35558,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
+return Err(ParseError::FalsifiedWhere(15014773733126201031u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35666,13 +35712,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 };
 _input.close_peek_context()?;
@@ -35736,7 +35782,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 };
 let marker = {
@@ -35744,7 +35790,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 jpeg_soi { marker }
@@ -35771,7 +35817,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 let marker = {
@@ -35779,7 +35825,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 };
 jpeg_soi { marker }
@@ -35806,7 +35852,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 let marker = {
@@ -35814,7 +35860,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 jpeg_soi { marker }
@@ -35841,7 +35887,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 let marker = {
@@ -35849,7 +35895,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 };
 jpeg_soi { marker }
@@ -35876,7 +35922,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 };
 let marker = {
@@ -35884,7 +35930,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 jpeg_soi { marker }
@@ -35911,7 +35957,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 let marker = {
@@ -35919,7 +35965,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 jpeg_soi { marker }
@@ -35946,7 +35992,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 let marker = {
@@ -35954,7 +36000,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 jpeg_soi { marker }
@@ -35981,7 +36027,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 let marker = {
@@ -35989,7 +36035,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 jpeg_soi { marker }
@@ -36016,7 +36062,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 let marker = {
@@ -36024,7 +36070,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 jpeg_soi { marker }
@@ -36051,7 +36097,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -36059,7 +36105,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 jpeg_soi { marker }
@@ -36086,7 +36132,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let marker = {
@@ -36094,7 +36140,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 jpeg_soi { marker }
@@ -36121,7 +36167,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -36129,7 +36175,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 jpeg_soi { marker }
@@ -36156,7 +36202,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -36164,7 +36210,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 jpeg_soi { marker }
@@ -36194,7 +36240,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
+return Err(ParseError::FalsifiedWhere(2668737607901180946u64));
 }
 };
 let num_lines = {
@@ -36213,7 +36259,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
+return Err(ParseError::FalsifiedWhere(12828788577937869717u64));
 }
 };
 let num_image_components = {
@@ -36225,7 +36271,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(4528919599938425798u64));
 }
 };
 let image_components = {
@@ -36257,7 +36303,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(12955185663715491460u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36271,7 +36317,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 let marker = {
@@ -36279,7 +36325,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 jpeg_soi { marker }
@@ -36293,12 +36339,16 @@ let sz = (try_sub!(length, 2u16, 3198904588321530108u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() == 0 {
+0
+} else {
+_input.read_byte()?;
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36330,7 +36380,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 let marker = {
@@ -36338,7 +36388,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 jpeg_soi { marker }
@@ -36365,7 +36415,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 let marker = {
@@ -36373,7 +36423,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 jpeg_soi { marker }
@@ -36400,7 +36450,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 let marker = {
@@ -36408,7 +36458,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 jpeg_soi { marker }
@@ -36435,7 +36485,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 let marker = {
@@ -36443,7 +36493,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 jpeg_soi { marker }
@@ -36470,7 +36520,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 let marker = {
@@ -36478,7 +36528,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 jpeg_soi { marker }
@@ -36505,7 +36555,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 let marker = {
@@ -36513,7 +36563,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 jpeg_soi { marker }
@@ -36560,7 +36610,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 let marker = {
@@ -36568,7 +36618,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 jpeg_soi { marker }
@@ -36615,7 +36665,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 let marker = {
@@ -36623,7 +36673,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 jpeg_soi { marker }
@@ -36670,7 +36720,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 let marker = {
@@ -36678,7 +36728,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 jpeg_soi { marker }
@@ -36725,7 +36775,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 let marker = {
@@ -36733,7 +36783,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 jpeg_soi { marker }
@@ -36780,7 +36830,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 let marker = {
@@ -36788,7 +36838,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 jpeg_soi { marker }
@@ -36835,7 +36885,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 let marker = {
@@ -36843,7 +36893,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 jpeg_soi { marker }
@@ -36890,7 +36940,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 let marker = {
@@ -36898,7 +36948,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 jpeg_soi { marker }
@@ -36945,7 +36995,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 let marker = {
@@ -36953,7 +37003,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 jpeg_soi { marker }
@@ -37000,7 +37050,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 let marker = {
@@ -37008,7 +37058,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 jpeg_soi { marker }
@@ -37055,7 +37105,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 let marker = {
@@ -37063,7 +37113,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 jpeg_soi { marker }
@@ -37110,7 +37160,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 let marker = {
@@ -37118,7 +37168,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 jpeg_soi { marker }
@@ -37165,7 +37215,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 let marker = {
@@ -37173,7 +37223,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 jpeg_soi { marker }
@@ -37220,7 +37270,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 let marker = {
@@ -37228,7 +37278,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 jpeg_soi { marker }
@@ -37275,7 +37325,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 let marker = {
@@ -37283,7 +37333,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 jpeg_soi { marker }
@@ -37341,7 +37391,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 _input.close_peek_context()?;
@@ -37354,7 +37404,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 accum.push(next_elem)
@@ -37369,7 +37419,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 chars.clone()
@@ -37425,7 +37475,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37477,7 +37527,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 _input.close_peek_context()?;
@@ -37490,7 +37540,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 accum.push(next_elem)
@@ -37505,7 +37555,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 chars.clone()
@@ -37562,7 +37612,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4491050975676636472u64));
+return Err(ParseError::FalsifiedWhere(16811847696882257499u64));
 }
 };
 let density_x = {
@@ -37577,7 +37627,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9933460716242958610u64));
+return Err(ParseError::FalsifiedWhere(11078254580983048780u64));
 }
 };
 let density_y = {
@@ -37592,7 +37642,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10865781264025109219u64));
+return Err(ParseError::FalsifiedWhere(1845850007550452160u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37654,7 +37704,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
+return Err(ParseError::FalsifiedWhere(7779176190297216638u64));
 })
 }
 
@@ -37709,7 +37759,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
+return Err(ParseError::FalsifiedWhere(1016564408906296566u64));
 })
 }
 
@@ -37767,7 +37817,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 _input.close_peek_context()?;
@@ -37780,7 +37830,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 accum.push(next_elem)
@@ -37795,7 +37845,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37820,7 +37870,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 _input.close_peek_context()?;
@@ -37833,7 +37883,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 accum.push(next_elem)
@@ -37848,7 +37898,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 chars.clone()
@@ -37859,15 +37909,19 @@ PResult::Ok(gzip_fcomment { comment })
 /// d#452
 fn Decoder452(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -37921,7 +37975,7 @@ PResult::Ok(accum)
 fn Decoder453(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -37935,7 +37989,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 _input.close_peek_context()?;
@@ -37963,7 +38017,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 accum.push(next_elem)
@@ -37992,7 +38046,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 accum.push(next_elem)
@@ -38023,7 +38077,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 _input.close_peek_context()?;
@@ -38036,7 +38090,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 accum.push(next_elem)
@@ -38051,7 +38105,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38076,7 +38130,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 _input.close_peek_context()?;
@@ -38089,7 +38143,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 accum.push(next_elem)
@@ -38104,7 +38158,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 chars.clone()
@@ -38120,7 +38174,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 let arg1 = {
@@ -38128,7 +38182,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 let arg2 = {
@@ -38136,7 +38190,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38186,7 +38240,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 }
 },
@@ -38196,7 +38250,7 @@ return Err(ParseError::ExcludedBranch(389354767835086292u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 _input.close_peek_context()?;
@@ -38215,7 +38269,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 })
 }
@@ -38227,7 +38281,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38251,7 +38305,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 }
 },
@@ -38261,7 +38315,7 @@ return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 _input.close_peek_context()?;
@@ -38278,7 +38332,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 }
 };
@@ -38303,11 +38357,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38325,7 +38379,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 })
 }
@@ -38337,7 +38391,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 let label = {
@@ -38345,7 +38399,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 let block_size = {
@@ -38353,7 +38407,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 let identifier = {
@@ -38381,7 +38435,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 _input.close_peek_context()?;
@@ -38408,7 +38462,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 let label = {
@@ -38416,7 +38470,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 let comment_data = {
@@ -38435,7 +38489,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 _input.close_peek_context()?;
@@ -38462,7 +38516,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 let data = {
@@ -38482,7 +38536,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 })
 }
 
@@ -38493,7 +38547,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 let label = {
@@ -38501,7 +38555,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 let block_size = {
@@ -38509,7 +38563,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38537,7 +38591,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 _input.close_peek_context()?;
@@ -38556,7 +38610,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 })
 }
@@ -38585,7 +38639,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 let label = {
@@ -38593,7 +38647,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 let block_size = {
@@ -38601,7 +38655,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 let text_grid_left_position = {
@@ -38640,7 +38694,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 _input.close_peek_context()?;
@@ -38667,7 +38721,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 let image_left_position = {
@@ -38717,7 +38771,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 _input.close_peek_context()?;
@@ -38787,7 +38841,7 @@ fn Decoder477(_input: &mut Parser<'_>) -> Result<u32, ParseError> {
 let tuple_var = {
 let arg0 = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -38849,55 +38903,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 _input.close_peek_context()?;
@@ -38912,7 +38966,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 accum.push(next_elem)
@@ -38925,7 +38979,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 (arg0, arg1)
@@ -38953,7 +39007,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -38986,7 +39040,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
+return Err(ParseError::FalsifiedWhere(1371641324337791042u64));
 }
 };
 let num_image_components = {
@@ -38998,7 +39052,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
+return Err(ParseError::FalsifiedWhere(13840694103855630215u64));
 }
 };
 let image_components = {
@@ -39021,7 +39075,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39043,7 +39097,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
+return Err(ParseError::FalsifiedWhere(15519482928753245836u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39057,7 +39111,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 };
 let marker = {
@@ -39065,7 +39119,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 jpeg_soi { marker }
@@ -39112,7 +39166,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 let marker = {
@@ -39120,7 +39174,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 jpeg_soi { marker }
@@ -39158,7 +39212,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15243788729772203041u64));
+return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
 }
 };
 let num_image_components = {
@@ -39170,7 +39224,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14565187915810837879u64));
+return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
 }
 };
 let image_components = {
@@ -39192,7 +39246,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 let marker = {
@@ -39200,7 +39254,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 jpeg_soi { marker }
@@ -39235,7 +39289,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
+return Err(ParseError::FalsifiedWhere(16026689348257499085u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index 39ea9d9..9f0baa6 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -244,7 +244,7 @@ pub fn get_view(parser: RustExpr) -> RustExpr {
 
 /// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model.
 pub fn read_from_view(view: RustExpr, len: RustExpr) -> RustExpr {
-    call!(view, read_len, len)
+    try_call!(view, read_len, len)
 }
 
 /// Model RustExpr for handling `ViewFormat::ReadArray(len, kind)` in the Parser (View) model.
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 1533a4d..fe1ac99 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -24,17 +24,23 @@ impl<'a> View<'a> {
         }
     }
 
-    /// Reads a slice of `len` bytes from the View, offset by `offset`.
-    pub fn read_len(&self, len: usize) -> &'a [u8] {
-        &self.buffer[..len]
+    /// Reads a slice of `len` bytes from the start of the View.
+    ///
+    /// Will return an error if there are fewer than `len` bytes in the View.
+    pub fn read_len(&self, len: usize) -> Result<&'a [u8], DoodleParseError> {
+        self.buffer.get(..len).ok_or_else(|| self.overrun(len))
+    }
+
+    fn overrun(&self, offset: usize) -> DoodleParseError {
+        DoodleParseError::Overrun(OverrunKind::EndOfStream {
+            offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
+            max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
+        })
     }
 
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
         if offset > self.buffer.len() {
-            Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
-                max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
-            }))
+            Err(self.overrun(offset))
         } else {
             Ok(View {
                 buffer: &self.buffer[offset..],
-- 
2.43.0


From 384093699bab748af8ebe548764a8631a64f2739 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:40:21 +0000
Subject: [PATCH 49/49] fix: a generated product keeps the grouping of its
 right-hand side

---
 src/codegen/rust_ast/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index e974d40..61e5384 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3437,10 +3437,11 @@ impl ToFragmentExt for RustOp {
         let inherent = self.precedence();
         match self {
             RustOp::InfixOp(op, lhs, rhs) => {
-                // NOTE - `a / (b / c)` is not `a / b / c`, so the right-hand side of a non-associative operator needs its parentheses
+                // NOTE - `a / (b / c)` is not `a / b / c`, and `a * b * c` may overflow where `a * (b * c)` does not
                 let rhs_prec = match (op, &**rhs) {
                     (
-                        InfixOperator::Div
+                        InfixOperator::Mul
+                        | InfixOperator::Div
                         | InfixOperator::Rem
                         | InfixOperator::Sub
                         | InfixOperator::Shl
-- 
2.43.0

