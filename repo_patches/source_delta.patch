From 5420916c36e9047eea8b877dd95281b6cc6acf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 1/4] fix: reject bad positions when the replaced range and the
 replacement are empty

replace_range returned Ok before looking at the range when there was
nothing to remove and nothing to insert, so positions out of bounds or
inside a character were accepted by replace_range, try_insert_str and
insert_str_truncate.
---
 src/arraystring.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index e3d96ae..77d9f60 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -861,9 +861,6 @@ where
             with.as_ref().len(),
             with.as_ref()
         );
-        if start == end && str.is_empty() {
-            return Ok(());
-        }
         is_inside_boundary(start, end)?;
         is_inside_boundary(end, self.len())?;
         is_inside_boundary(str.len(), Self::capacity())?;
-- 
2.43.0


From cfaf485931f5be5a84eb56a8401d1b823ba0e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 2/4] fix: deserialize from transient and owned strings

Deserializing through &str only works when the format can lend the text,
so any string with an escape sequence, and any string read through a
reader or from an owned value, was refused.
---
 src/integration.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/integration.rs b/src/integration.rs
index 9e1b32f..8d2c23e 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -78,8 +78,10 @@ mod diesel_impl {
 #[cfg(feature = "serde-traits")]
 mod serde_impl {
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
+    use core::fmt;
     #[cfg(all(feature = "no-panic", not(debug_assertions)))]
     use no_panic::no_panic;
+    use serde::de::{self, Visitor};
     pub use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 
     impl<const N: usize> Serialize for ArrayString<N>
@@ -100,7 +102,33 @@ mod serde_impl {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn deserialize<D: Deserializer<'a>>(des: D) -> Result<Self, D::Error> {
-            <&str>::deserialize(des).map(Self::from_str_truncate)
+            des.deserialize_str(StrTruncateVisitor)
+        }
+    }
+
+    /// Accepts every form in which a deserializer may deliver text (borrowed, transient or owned)
+    struct StrTruncateVisitor<const N: usize>;
+
+    impl<'a, const N: usize> Visitor<'a> for StrTruncateVisitor<N>
+    where
+        ArrayString<N>: ValidCapacity,
+    {
+        type Value = ArrayString<N>;
+
+        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
+            f.write_str("a string")
+        }
+
+        #[inline]
+        fn visit_str<E: de::Error>(self, string: &str) -> Result<Self::Value, E> {
+            Ok(ArrayString::from_str_truncate(string))
+        }
+
+        #[inline]
+        fn visit_bytes<E: de::Error>(self, bytes: &[u8]) -> Result<Self::Value, E> {
+            core::str::from_utf8(bytes)
+                .map(ArrayString::from_str_truncate)
+                .map_err(|_| E::invalid_value(de::Unexpected::Bytes(bytes), &self))
         }
     }
 
-- 
2.43.0


From 8c4bc41e5a1ba310c7d584a38cc390c7f3bcc944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 3/4] fix: SmallString occupies as much memory as a String

The size is one byte more than the capacity, so a capacity of three words
made it one byte larger than documented.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2750339..f2687ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,7 +143,7 @@ pub use crate::error::Error;
 /// 24 bytes in 64 bits architecture
 ///
 /// 12 bytes in 32 bits architecture
-pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 }>;
+pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 - 1 }>;
 
 /// Biggest `ArrayString<N>` supported (255 bytes of text)
 pub type MaxString = ArrayString<255>;
-- 
2.43.0


From b8adb82e7022376303b19411961971a1a7b990cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 4/4] fix: an inclusive range that has been iterated to its end
 addresses nothing

---
 src/implementations.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/implementations.rs b/src/implementations.rs
index 04f3daf..eca04c5 100644
--- a/src/implementations.rs
+++ b/src/implementations.rs
@@ -2,7 +2,7 @@
 
 use crate::{arraystring::sealed::ValidCapacity, prelude::*};
 use core::fmt::{self, Debug, Display, Formatter, Write};
-use core::ops::{Add, Deref, DerefMut, Index, IndexMut};
+use core::ops::{Add, Bound, Deref, DerefMut, Index, IndexMut, RangeBounds};
 use core::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
 use core::str::{self, FromStr};
 use core::{borrow::Borrow, borrow::BorrowMut, cmp::Ordering, hash::Hash, hash::Hasher};
@@ -305,6 +305,15 @@ where
     }
 }
 
+/// Bounds of an inclusive range, its `start()` and `end()` are unspecified after it has been iterated to its end
+#[inline]
+fn inclusive_bounds(range: &RangeInclusive<u8>) -> (Bound<usize>, Bound<usize>) {
+    (
+        range.start_bound().cloned().map(usize::from),
+        range.end_bound().cloned().map(usize::from),
+    )
+}
+
 impl<const N: usize> IndexMut<RangeFrom<u8>> for ArrayString<N>
 where
     Self: ValidCapacity,
@@ -367,9 +376,7 @@ where
 {
     #[inline]
     fn index_mut(&mut self, index: RangeInclusive<u8>) -> &mut str {
-        let (start, end) = (*index.start() as usize, *index.end() as usize);
-        let range = RangeInclusive::new(start, end);
-        self.as_mut_str().index_mut(range)
+        self.as_mut_str().index_mut(inclusive_bounds(&index))
     }
 }
 
@@ -445,8 +452,6 @@ where
 
     #[inline]
     fn index(&self, index: RangeInclusive<u8>) -> &Self::Output {
-        let (start, end) = (*index.start() as usize, *index.end() as usize);
-        let range = RangeInclusive::new(start, end);
-        self.as_str().index(range)
+        self.as_str().index(inclusive_bounds(&index))
     }
 }
-- 
2.43.0

