From 2c93cf94859e2590f30737fe87264abe47f4e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:11 +0000
Subject: [PATCH 1/7] fix: keep the matrix coherent when T::default panics in
 resize

resize assigned the new shape before filling in the new elements, so a
panicking T::default left a matrix whose shape described more elements
than it had (out-of-bounds reads through get after catching the unwind).
---
 src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d4ce65..8ee0123 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,8 +491,19 @@ impl<T> Matrix<T> {
     {
         let shape = shape.into().try_to_axis_shape(self.order)?;
         let size = Self::check_size(shape.size())?;
-        self.shape = shape;
-        self.data.resize_with(size, T::default);
+        if size > self.size() {
+            // `T::default` may panic, so `self` must not be touched until
+            // all the new elements are ready
+            let mut extension = Vec::new();
+            extension.resize_with(size - self.size(), T::default);
+            self.data.append(&mut extension);
+            self.shape = shape;
+        } else {
+            // dropping elements may panic, but not before the length of
+            // the vector is set
+            self.shape = shape;
+            self.data.truncate(size);
+        }
         Ok(self)
     }
 
-- 
2.43.0


From de6828f6e33f95c7f7643367b457ae69bb3be95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:11 +0000
Subject: [PATCH 2/7] fix: do not call swap_nonoverlapping when swapping a
 vector with itself

Swapping a row (column) of a row-major (column-major) matrix with itself
passed identical ranges to ptr::swap_nonoverlapping, which is undefined
behavior and aborts under the precondition checks of std.
---
 src/swap.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/swap.rs b/src/swap.rs
index 8ff529e..c982fd9 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -97,6 +97,9 @@ impl<T> Matrix<T> {
         if m >= self.major() || n >= self.major() {
             return Err(Error::IndexOutOfBounds);
         }
+        if m == n {
+            return Ok(self);
+        }
         let base = self.data.as_mut_ptr();
         let index = m * self.major_stride();
         let jndex = n * self.major_stride();
-- 
2.43.0


From b26eb80c83c17b2e1c730036926d3296e2201cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:37 +0000
Subject: [PATCH 3/7] fix: reject ragged rows before sizing the buffer from the
 first row

TryFrom computed the size from the first row alone and allocated it before
comparing row lengths, so ragged input could abort on an impossible
allocation (or report a size error) instead of LengthInconsistent.
---
 src/convert.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 0758e3d..23fd993 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -150,13 +150,14 @@ impl<T, const C: usize> TryFrom<[Vec<T>; C]> for Matrix<T> {
         let order = Order::RowMajor;
         let nrows = C;
         let ncols = value.first().map_or(0, |row| row.len());
+        // must be checked before allocating, or the size is meaningless
+        if value.iter().any(|row| row.len() != ncols) {
+            return Err(Error::LengthInconsistent);
+        }
         let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
         let size = Self::check_size(shape.size())?;
         let mut data = Vec::with_capacity(size);
         for row in value {
-            if row.len() != ncols {
-                return Err(Error::LengthInconsistent);
-            }
             data.extend(row);
         }
         Ok(Self { order, shape, data })
@@ -192,13 +193,14 @@ impl<T> TryFrom<Vec<Vec<T>>> for Matrix<T> {
         let order = Order::RowMajor;
         let nrows = value.len();
         let ncols = value.first().map_or(0, |row| row.len());
+        // must be checked before allocating, or the size is meaningless
+        if value.iter().any(|row| row.len() != ncols) {
+            return Err(Error::LengthInconsistent);
+        }
         let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
         let size = Self::check_size(shape.size())?;
         let mut data = Vec::with_capacity(size);
         for row in value {
-            if row.len() != ncols {
-                return Err(Error::LengthInconsistent);
-            }
             data.extend(row);
         }
         Ok(Self { order, shape, data })
@@ -234,13 +236,14 @@ impl<T: Clone> TryFrom<&[Vec<T>]> for Matrix<T> {
         let order = Order::RowMajor;
         let nrows = value.len();
         let ncols = value.first().map_or(0, |row| row.len());
+        // must be checked before allocating, or the size is meaningless
+        if value.iter().any(|row| row.len() != ncols) {
+            return Err(Error::LengthInconsistent);
+        }
         let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
         let size = Self::check_size(shape.size())?;
         let mut data = Vec::with_capacity(size);
         for row in value {
-            if row.len() != ncols {
-                return Err(Error::LengthInconsistent);
-            }
             data.extend_from_slice(row);
         }
         Ok(Self { order, shape, data })
-- 
2.43.0


From 79e26a1082d9a2cbd2cede360ec44e56c345722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 4/7] fix: avoid address overflow when iterating over
 zero-sized elements

Starting from the dangling pointer of the vector, whose address is the
alignment of the element type, the address of the last vector (element)
overflowed or became null for matrices of about usize::MAX elements.
---
 src/iter/iter_mut.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 1c3bf0f..71c9da1 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -124,7 +124,13 @@ impl<'a, T> IterVectorsMut<'a, T> {
         vector_stride: NonZero<usize>,
         vector_length: NonZero<usize>,
     ) -> Self {
-        let lower = buffer;
+        let lower = if size_of::<T>() == 0 {
+            // only the distance between addresses matters, and it can be
+            // up to `usize::MAX - 1`
+            unsafe { NonNull::new_unchecked(without_provenance_mut(1)) }
+        } else {
+            buffer
+        };
         let offset = axis_stride.get() * (axis_length.get() - 1);
         let upper = if size_of::<T>() == 0 {
             let addr = lower.addr().get() + offset;
@@ -329,6 +335,13 @@ impl<'a, T> IterNthVectorMut<'a, T> {
     /// any matrix. The returned iterator is valid only if the matrix
     /// remains in scope.
     unsafe fn assemble(lower: NonNull<T>, stride: NonZero<usize>, length: NonZero<usize>) -> Self {
+        let lower = if size_of::<T>() == 0 {
+            // only the distance between addresses matters, and it can be
+            // up to `usize::MAX - 1`
+            unsafe { NonNull::new_unchecked(without_provenance_mut(1)) }
+        } else {
+            lower
+        };
         let offset = (length.get() - 1) * stride.get();
         let upper = if size_of::<T>() == 0 {
             let addr = lower.addr().get() + offset;
-- 
2.43.0


From 8645dd978533a34c88803e2102aa719144a8d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 5/7] fix: yield empty rows and columns from iter_rows_mut and
 iter_cols_mut

For a matrix without elements they yielded nothing even if the matrix had
rows (columns), unlike iter_rows, iter_cols, nrows and ncols.
---
 src/iter/iter_mut.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 71c9da1..3111d07 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -21,6 +21,9 @@ pub(crate) struct IterVectorsMut<'a, T> {
     lower: NonNull<T>,
     upper: NonNull<T>,
     layout: Option<Layout>,
+    /// The number of vectors still to be yielded if they have no elements,
+    /// in which case `layout` is `None` from the beginning.
+    empty_vectors: usize,
     marker: PhantomData<&'a mut T>,
 }
 
@@ -37,7 +40,7 @@ unsafe impl<T: Sync> Sync for IterVectorsMut<'_, T> {}
 impl<'a, T> IterVectorsMut<'a, T> {
     pub(crate) fn over_major_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::empty(matrix.major());
         }
 
         unsafe {
@@ -59,7 +62,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
 
     pub(crate) fn over_minor_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::empty(matrix.minor());
         }
 
         unsafe {
@@ -83,11 +86,12 @@ impl<'a, T> IterVectorsMut<'a, T> {
     ///
     /// This returns a detached iterator whose lifetime is not bound to
     /// any matrix. However, it is safe.
-    fn empty() -> Self {
+    fn empty(axis_length: usize) -> Self {
         Self {
             lower: NonNull::dangling(),
             upper: NonNull::dangling(),
             layout: None,
+            empty_vectors: axis_length,
             marker: PhantomData,
         }
     }
@@ -149,6 +153,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
             lower,
             upper,
             layout,
+            empty_vectors: 0,
             marker: PhantomData,
         }
     }
@@ -158,7 +163,10 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
     type Item = IterNthVectorMut<'a, T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let layout = self.layout?;
+        let Some(layout) = self.layout else {
+            self.empty_vectors = self.empty_vectors.checked_sub(1)?;
+            return Some(IterNthVectorMut::empty());
+        };
 
         let result = unsafe {
             IterNthVectorMut::assemble(self.lower, layout.vector_stride, layout.vector_length)
@@ -182,7 +190,7 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let len = match self.layout {
-            None => 0,
+            None => self.empty_vectors,
             Some(strides) => {
                 let stride = strides.axis_stride.get();
                 let elem_size = size_of::<T>();
@@ -202,7 +210,10 @@ impl<T> ExactSizeIterator for IterVectorsMut<'_, T> {
 
 impl<T> DoubleEndedIterator for IterVectorsMut<'_, T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let layout = self.layout?;
+        let Some(layout) = self.layout else {
+            self.empty_vectors = self.empty_vectors.checked_sub(1)?;
+            return Some(IterNthVectorMut::empty());
+        };
 
         let result = unsafe {
             IterNthVectorMut::assemble(self.upper, layout.vector_stride, layout.vector_length)
-- 
2.43.0


From 64039ffc91b0962f1bcbc639dc7b255fcab5a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 6/7] fix: do not panic when formatting elements wider than
 u16::MAX

Formatting width arguments are limited to u16::MAX, so Display and Debug
panicked for matrices with an element rendering of 65536 characters or more.
---
 src/fmt.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index be14246..1b2d773 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -72,7 +72,7 @@ where
             }
             write_index!(f, "{col:>index_width$}")?;
             write!(f, "{SPACE:INNER_GAP$}")?;
-            write!(f, "{SPACE:element_width$}")?;
+            write_padded(f, SPACE, element_width)?;
         }
         writeln!(f)?;
 
@@ -92,8 +92,8 @@ where
                 write_index!(f, "{index:>index_width$}")?;
                 write!(f, "{SPACE:INNER_GAP$}")?;
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -112,8 +112,8 @@ where
                     write!(f, "{SPACE:index_width$}")?;
                     write!(f, "{SPACE:INNER_GAP$}")?;
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -164,8 +164,8 @@ where
                 }
                 let index = Index::new(row, col).to_flattened(self.order, self.shape);
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -180,8 +180,8 @@ where
                     }
                     let index = Index::new(row, col).to_flattened(self.order, self.shape);
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -192,6 +192,16 @@ where
     }
 }
 
+/// The width of a formatting argument is limited to [`u16::MAX`], while
+/// that of an element is not.
+fn write_padded(f: &mut fmt::Formatter<'_>, text: &str, width: usize) -> fmt::Result {
+    f.write_str(text)?;
+    for _ in text.chars().count()..width {
+        f.write_str(SPACE)?;
+    }
+    Ok(())
+}
+
 struct Lines(VecDeque<String>);
 
 impl Lines {
-- 
2.43.0


From 6e76cbba699a3b7e108d2875ebb23a739022e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 7/7] fix: avoid offset overflow when swapping vectors along
 the minor axis

---
 src/swap.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/swap.rs b/src/swap.rs
index c982fd9..f3db01a 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -117,16 +117,15 @@ impl<T> Matrix<T> {
             return Err(Error::IndexOutOfBounds);
         }
         let base = self.data.as_mut_ptr();
-        let mut index = m * self.minor_stride();
-        let mut jndex = n * self.minor_stride();
-        for _ in 0..self.major() {
+        for i in 0..self.major() {
+            let offset = i * self.major_stride();
+            let index = offset + m * self.minor_stride();
+            let jndex = offset + n * self.minor_stride();
             unsafe {
                 let x = base.add(index);
                 let y = base.add(jndex);
                 ptr::swap(x, y);
             }
-            index += self.major_stride();
-            jndex += self.major_stride();
         }
         Ok(self)
     }
-- 
2.43.0

