From c17488941bf66fd942fe48d099fb326e607d733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 1/7] fix: reserve only the guaranteed lower bound of an
 iterator's size hint

The upper bound of a size hint may be arbitrarily loose: (3, Some(usize::MAX)) aborted collecting into
a nullable or variable-size collection, and made fallible collecting fail without any allocation failure.
---
 src/offset.rs   |  8 ++++----
 src/validity.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index a549595..5c8fd4a 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -345,8 +345,8 @@ where
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc);
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::with_capacity_in(lower_bound, alloc);
         offsets.extend(items);
         offsets
     }
@@ -368,8 +368,8 @@ where
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::try_with_capacity_in(lower_bound, alloc)?;
         offsets.try_extend(items)?;
         Ok(offsets)
     }
diff --git a/src/validity.rs b/src/validity.rs
index 57d00f1..6e6d98f 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -374,8 +374,8 @@ impl<
 {
     fn from_iter<I: IntoIterator<Item = Option<U>>>(iter: I) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap = Bitmap::with_capacity(upper_bound.unwrap_or(lower_bound));
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::with_capacity(lower_bound);
         let collection = items
             .inspect(|opt| bitmap.extend(iter::once(opt.is_some())))
             .map(Option::unwrap_or_default)
@@ -454,9 +454,8 @@ impl<
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap =
-            Bitmap::<Storage>::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc.clone());
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::<Storage>::with_capacity_in(lower_bound, alloc.clone());
         let collection = T::from_iter_in(
             items
                 .inspect(|item| bitmap.extend(iter::once(item.is_some())))
@@ -483,8 +482,8 @@ impl<
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut validity = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut validity = Self::try_with_capacity_in(lower_bound, alloc)?;
         validity.try_extend(items)?;
         Ok(validity)
     }
-- 
2.43.0


From 818d1f8b1a35b01b85430c571a76c4ccecf2275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 2/7] fix: return no row or element for the largest indices of
 a variable-size list

Indexing rows with usize::MAX, or a row starting above zero with an index near usize::MAX, panicked
with an arithmetic overflow instead of returning None like every other out-of-range index.
---
 src/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index 5c8fd4a..3da3c16 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -443,7 +443,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U: FromIterator<T::Owne
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
         let start = self.offsets.owned(index);
-        let end = self.offsets.owned(index.strict_add(1));
+        let end = self.offsets.owned(index.checked_add(1)?);
         start.zip(end).map(|(s, e)| OffsetView {
             collection: self,
             start: s.as_usize(),
@@ -700,7 +700,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U> Collection
     type Owned = T::Owned;
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        let idx = self.start.strict_add(index);
+        let idx = self.start.checked_add(index)?;
         if idx < self.end {
             self.collection.data.view(idx)
         } else {
-- 
2.43.0


From 5d1c7509d4fae7c6414744ac5e6f22d1e1555892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 3/7] fix: return no row for an out-of-range index of a
 fixed-size list

Flatten::view panicked for every index at or beyond its length; Collection::view is None there.
---
 src/collection/flatten.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 12903d5..949e3cc 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -154,11 +154,13 @@ impl<C: Collection, const N: usize> Collection for Flatten<C, N> {
     type Owned = [C::Owned; N];
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        Some(FlattenView(array::from_fn(|idx| {
-            self.0
-                .view(index.strict_mul(N).strict_add(idx))
-                .expect("out of bounds")
-        })))
+        (index < self.len()).then(|| {
+            FlattenView(array::from_fn(|idx| {
+                self.0
+                    .view(index.strict_mul(N).strict_add(idx))
+                    .expect("out of bounds")
+            }))
+        })
     }
 
     type Iter<'collection>
-- 
2.43.0


From 2b88b3b4ccbff74dbfeb4abf0a19a9a614ccc5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 4/7] fix: keep whole rows in a fixed-size list when an append
 unwinds

A panic in the source could leave part of a row in the child, so that rows
appended later were read shifted and consuming the list panicked.
---
 src/collection/flatten.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 949e3cc..a1cddc0 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -135,7 +135,22 @@ impl<C: Collection, const N: usize> Length for Flatten<C, N> {
 
 impl<C: CollectionRealloc, const N: usize> Extend<[C::Owned; N]> for Flatten<C, N> {
     fn extend<I: IntoIterator<Item = [C::Owned; N]>>(&mut self, iter: I) {
-        self.0.extend(iter.into_iter().flatten());
+        WholeRows::<_, N>(&mut self.0)
+            .0
+            .extend(iter.into_iter().flatten());
+    }
+}
+
+/// Keeps a whole number of rows in the child when an append unwinds.
+struct WholeRows<'collection, C: CollectionRealloc, const N: usize>(&'collection mut C);
+
+impl<C: CollectionRealloc, const N: usize> Drop for WholeRows<'_, C, N> {
+    fn drop(&mut self) {
+        let len = self.0.len();
+        match len.checked_rem(N) {
+            None | Some(0) => (),
+            Some(partial) => self.0.truncate(len.strict_sub(partial)),
+        }
     }
 }
 
@@ -222,7 +237,9 @@ impl<C: CollectionRealloc, const N: usize> CollectionRealloc for Flatten<C, N> {
         &mut self,
         iter: I,
     ) -> Result<(), AllocError> {
-        self.0.try_extend(iter.into_iter().flatten())
+        WholeRows::<_, N>(&mut self.0)
+            .0
+            .try_extend(iter.into_iter().flatten())
     }
 
     fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From 59321e6076510e697fd3b774f78276a38ec89f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 5/7] fix: keep exported child arrays alive after their parent
 is released

A child array moved out of an exported array kept pointing into storage
that was freed with the parent. Every child now shares the owner.
---
 narrow-ffi/src/export/fixed_size_list.rs    | 16 ++++---
 narrow-ffi/src/export/mod.rs                | 51 +++++++++++----------
 narrow-ffi/src/export/variable_size_list.rs | 16 ++++---
 3 files changed, 47 insertions(+), 36 deletions(-)

diff --git a/narrow-ffi/src/export/fixed_size_list.rs b/narrow-ffi/src/export/fixed_size_list.rs
index 843244a..5485577 100644
--- a/narrow-ffi/src/export/fixed_size_list.rs
+++ b/narrow-ffi/src/export/fixed_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, ffi::CString, format};
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, ffi::CString, format, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -34,8 +34,8 @@ where
         [ptr::null()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_array(owner)?])
     }
 }
 
@@ -71,8 +71,12 @@ where
         [validity.unwrap_or(ptr::null())]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self
+            .buffer_ref()
+            .child_ref()
+            .child_ref()
+            .child_array(owner)?])
     }
 }
 
diff --git a/narrow-ffi/src/export/mod.rs b/narrow-ffi/src/export/mod.rs
index 22e14f2..1c9054b 100644
--- a/narrow-ffi/src/export/mod.rs
+++ b/narrow-ffi/src/export/mod.rs
@@ -2,8 +2,9 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, sync::Arc, vec::Vec};
 use core::{
+    any::Any,
     ffi::{CStr, c_void},
     fmt, ptr,
 };
@@ -149,8 +150,8 @@ trait ArrowArrayLayout: Length + Sized {
     /// Returns the array's buffer pointers.
     fn buffers(&self) -> Self::Buffers;
 
-    /// Returns the array's child pointers.
-    fn children(&self) -> Result<Self::Children, ExportError> {
+    /// Returns the child arrays, which share `owner` to retain their storage.
+    fn children(&self, _owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
         Ok(Self::Children::default())
     }
 
@@ -159,8 +160,11 @@ trait ArrowArrayLayout: Length + Sized {
         ptr::null_mut()
     }
 
-    /// Builds a child [`ArrowArray`] borrowing storage retained by its parent.
-    fn child_array(&self) -> Result<ArrowArray, ExportError>
+    /// Builds a child [`ArrowArray`] that shares `owner` with its parent.
+    ///
+    /// A consumer may move the child array out of its parent and release the
+    /// parent first, so the child itself retains the storage.
+    fn child_array(&self, owner: &Arc<dyn Any>) -> Result<ArrowArray, ExportError>
     where
         Self: 'static,
     {
@@ -172,10 +176,10 @@ trait ArrowArrayLayout: Length + Sized {
         let length = i64::try_from(self.len()).expect("array length exceeds i64");
         let null_count = self.null_count();
         let dictionary = self.dictionary();
-        let mut private = Box::new(ArrayData::<(), Self>::new(
-            (),
+        let mut private = Box::new(ArrayData::<Self>::new(
+            Arc::clone(owner),
             self.buffers(),
-            self.children()?,
+            self.children(owner)?,
         ));
         private.set_child_pointers();
 
@@ -193,20 +197,19 @@ trait ArrowArrayLayout: Length + Sized {
         }
 
         // Pin the layout before asking it for pointers into its storage.
-        let mut private = Box::new(ArrayData::<Self, Self> {
-            buffers: Self::Buffers::default(),
-            children: Self::Children::default(),
-            child_pointers: Vec::new(),
-            owner: self,
-        });
-        private.buffers = private.owner.buffers();
-        private.children = private.owner.children()?;
+        let layout = Arc::new(self);
+        let owner: Arc<dyn Any> = Arc::<Self>::clone(&layout);
+        let mut private = Box::new(ArrayData::<Self>::new(
+            Arc::clone(&owner),
+            layout.buffers(),
+            layout.children(&owner)?,
+        ));
         private.set_child_pointers();
 
         // Convert platform-sized layout metadata into the Arrow C ABI fields.
-        let length = i64::try_from(private.owner.len()).expect("array length exceeds i64");
-        let null_count = private.owner.null_count();
-        let dictionary = private.owner.dictionary();
+        let length = i64::try_from(layout.len()).expect("array length exceeds i64");
+        let null_count = layout.null_count();
+        let dictionary = layout.dictionary();
         let array = private.into_array(length, null_count, dictionary);
 
         Ok((array, Self::schema()))
@@ -214,7 +217,7 @@ trait ArrowArrayLayout: Length + Sized {
 }
 
 /// Data retained by `ArrowArray::private_data` for an array export.
-struct ArrayData<Owner, Layout: ArrowArrayLayout> {
+struct ArrayData<Layout: ArrowArrayLayout> {
     /// Arrow C Data buffer pointers.
     buffers: Layout::Buffers,
     /// Child arrays owned by the export.
@@ -222,17 +225,17 @@ struct ArrayData<Owner, Layout: ArrowArrayLayout> {
     /// Arrow C Data child pointers.
     child_pointers: Vec<*mut ArrowArray>,
     /// Owner retained until the array is released.
-    owner: Owner,
+    _owner: Arc<dyn Any>,
 }
 
-impl<Owner: 'static, Layout: ArrowArrayLayout + 'static> ArrayData<Owner, Layout> {
+impl<Layout: ArrowArrayLayout + 'static> ArrayData<Layout> {
     /// Creates private data for an exported array.
-    fn new(owner: Owner, buffers: Layout::Buffers, children: Layout::Children) -> Self {
+    fn new(owner: Arc<dyn Any>, buffers: Layout::Buffers, children: Layout::Children) -> Self {
         Self {
             buffers,
             children,
             child_pointers: Vec::new(),
-            owner,
+            _owner: owner,
         }
     }
 
diff --git a/narrow-ffi/src/export/variable_size_list.rs b/narrow-ffi/src/export/variable_size_list.rs
index 5689dab..a365e40 100644
--- a/narrow-ffi/src/export/variable_size_list.rs
+++ b/narrow-ffi/src/export/variable_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::boxed::Box;
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -37,8 +37,8 @@ where
         [ptr::null(), offsets.as_ptr().cast()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_array(owner)?])
     }
 }
 
@@ -80,8 +80,12 @@ where
         ]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self
+            .buffer_ref()
+            .child_ref()
+            .child_ref()
+            .child_array(owner)?])
     }
 }
 
-- 
2.43.0


From 5273f812401894139551f4325a98c033b77c3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 6/7] fix: collecting a bitmap stops at the source's first end

---
 src/bitmap/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 0e51160..5ae09c6 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -396,8 +396,11 @@ impl<T: Borrow<bool>, Storage: Buffer<For<u8>: CollectionAlloc>> FromIterator<T>
 {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut bits: usize = 0;
+        // Fuse to prevent a resumable iterator from adding bits beyond the
+        // first `None`.
         let buffer = iter
             .into_iter()
+            .fuse()
             .inspect(|_| {
                 bits = bits.strict_add(1);
             })
@@ -457,6 +460,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
@@ -485,6 +489,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::try_from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
-- 
2.43.0


From c0b1a3090b9c25460bc5dd99a753e533738a80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 7/7] fix: keep values and validity row-aligned when an append
 unwinds

---
 src/validity.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/validity.rs b/src/validity.rs
index 6e6d98f..e7ac66c 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -391,6 +391,19 @@ impl<
 /// [`Extend::extend`] for [`Validity`].
 const VALIDITY_CHUNK: usize = 1024;
 
+/// Drops the items without validity when an append unwinds, so that the
+/// collection and the bitmap stay row-aligned.
+struct AlignedRows<'validity, T: CollectionRealloc, Storage: Buffer>(
+    &'validity mut Validity<T, Storage>,
+);
+
+impl<T: CollectionRealloc, Storage: Buffer> Drop for AlignedRows<'_, T, Storage> {
+    fn drop(&mut self) {
+        let len = self.0.len();
+        self.0.collection.truncate(len);
+    }
+}
+
 impl<
     U: Default,
     T: CollectionRealloc<Owned = U>,
@@ -411,11 +424,12 @@ impl<
         // packing fast path. The bitmap is extended after the items of a
         // chunk are committed to the collection, so a panicking iterator can
         // not add validity for items that never arrive.
+        let rows = AlignedRows(self);
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
             let mut count: usize = 0;
-            self.collection.extend(
+            rows.0.collection.extend(
                 items
                     .by_ref()
                     .take(VALIDITY_CHUNK)
@@ -425,7 +439,8 @@ impl<
                     })
                     .map(Option::unwrap_or_default),
             );
-            self.bitmap
+            rows.0
+                .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .extend(validity.iter().take(count));
@@ -515,6 +530,7 @@ impl<
         self.try_materialize_bitmap()?;
         self.collection.truncate(len);
 
+        let rows = AlignedRows(self);
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
@@ -527,17 +543,18 @@ impl<
                     count = count.strict_add(1);
                 })
                 .map(Option::unwrap_or_default);
-            if let Err(error) = self.collection.try_extend(values) {
-                self.truncate(len);
+            if let Err(error) = rows.0.collection.try_extend(values) {
+                rows.0.truncate(len);
                 return Err(error);
             }
-            if let Err(error) = self
+            if let Err(error) = rows
+                .0
                 .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .try_extend(validity.into_iter().take(count))
             {
-                self.truncate(len);
+                rows.0.truncate(len);
                 return Err(error);
             }
             if count < VALIDITY_CHUNK {
-- 
2.43.0

