From 87cf21f211b90bb576a1591f3d28ba9ee3226e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 01/12] fix: report the actual stride of arbitrary stride
 matrix layouts

stride() returned the packed stride, so blocks of blocks and products with
block operands addressed the wrong elements.
---
 src/layouts/arbitrary_stride_column_major.rs | 2 +-
 src/layouts/arbitrary_stride_row_major.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index 3f062a4..ac21da6 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -52,7 +52,7 @@ impl LayoutType for ArbitraryStrideColumnMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (1, self.dim.0)
+        self.stride
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e611a2d..e02b6fb 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -51,7 +51,7 @@ impl LayoutType for ArbitraryStrideRowMajor {
 
     #[inline]
     fn stride(&self) -> (IndexType, IndexType) {
-        (self.dim.1, 1)
+        self.stride
     }
 
     #[inline]
-- 
2.43.0


From 623e25f030a3b28d3ee9c1e2ae1cf1cf6aafb9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 02/12] fix: 1d to 2d conversion of vector layouts uses zero
 based indices

The returned position was outside of the vector, so get(row, col) on it failed.
---
 src/layouts/arbitrary_stride_column_vector.rs | 2 +-
 src/layouts/arbitrary_stride_row_vector.rs    | 2 +-
 src/layouts/column_vector.rs                  | 2 +-
 src/layouts/row_vector.rs                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index ab1251f..bd01119 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 86ccf21..70bab47 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -27,7 +27,7 @@ impl LayoutType for ArbitraryStrideRowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 6b18f6d..210ac49 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for ColumnVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (index, 1)
+        (index, 0)
     }
 
     #[inline]
diff --git a/src/layouts/row_vector.rs b/src/layouts/row_vector.rs
index cc4cfc3..f0f5241 100644
--- a/src/layouts/row_vector.rs
+++ b/src/layouts/row_vector.rs
@@ -22,7 +22,7 @@ impl LayoutType for RowVector {
 
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
-        (1, index)
+        (0, index)
     }
 
     #[inline]
-- 
2.43.0


From 915538c901754ea173338adf0431ff3428e52e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 03/12] fix: ColumnVector::from_dimension must require one
 column, not one row

---
 src/layouts/column_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layouts/column_vector.rs b/src/layouts/column_vector.rs
index 210ac49..3254bde 100644
--- a/src/layouts/column_vector.rs
+++ b/src/layouts/column_vector.rs
@@ -64,7 +64,7 @@ impl LayoutType for ColumnVector {
 impl BaseLayoutType for ColumnVector {
     fn from_dimension(dim: (IndexType, IndexType)) -> Self {
         assert_eq!(
-            dim.0, 1,
+            dim.1, 1,
             "Number of columns is {} but must be one for ColumnVector.",
             dim.1
         );
-- 
2.43.0


From 430868020491f1eeb43a7c283584cef153127ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 04/12] fix: length of a base row vector is that of its layout

The container may be larger than the vector.
---
 src/base_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b993e47..b8d95fa 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -149,7 +149,7 @@ macro_rules! vector_length {
             > BaseMatrix<Item, Data, $Layout, RS, CS>
         {
             pub fn length(&self) -> IndexType {
-                self.data.number_of_elements()
+                self.layout.number_of_elements()
             }
         }
     };
-- 
2.43.0


From 760841bd2f512b92879c92690e98cff2d1aa1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:08 +0000
Subject: [PATCH 05/12] fix: exact 1d to 2d conversion for very large upper
 triangular layouts

The floating point square root is off by one row from dimension 2^27 on.
---
 src/layouts/upper_triangular.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/layouts/upper_triangular.rs b/src/layouts/upper_triangular.rs
index 8850079..a0a8337 100644
--- a/src/layouts/upper_triangular.rs
+++ b/src/layouts/upper_triangular.rs
@@ -24,7 +24,14 @@ impl LayoutType for UpperTriangular {
     #[inline]
     fn convert_1d_2d(&self, index: IndexType) -> (IndexType, IndexType) {
         let p = -0.5 + f64::sqrt(0.25 + 2.0 * (index as f64));
-        let p = f64::floor(p) as IndexType;
+        let mut p = f64::floor(p) as IndexType;
+        // The estimate is rounded for very large indices. Correct it exactly.
+        while (p * (p + 1)) / 2 > index {
+            p -= 1;
+        }
+        while ((p + 1) * (p + 2)) / 2 <= index {
+            p += 1;
+        }
         (
             self.dim - 1 - p,
             self.dim - 1 - p + index - (p * (p + 1)) / 2,
-- 
2.43.0


From e6b9f04799fcf0b95f1be1240c61b1f178327cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:33 +0000
Subject: [PATCH 06/12] fix: refuse split points outside of the matrix

Without overflow checks the block dimensions wrapped around.
---
 src/matrix/matrix_slices.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 2405171..f864d98 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -96,6 +96,12 @@ macro_rules! subdivide_matrix {
                 SliceMatrixMut<'a, Item, $StrideLayout, Dynamic, Dynamic>,
             ) {
                 let dim = self.layout().dim();
+                assert!(
+                    (split_at.0 <= dim.0) & (split_at.1 <= dim.1),
+                    "Split point {:?} out of bounds for matrix with dim {:?}",
+                    split_at,
+                    dim
+                );
                 let stride = self.layout().stride();
                 let ptr = self.get_pointer_mut();
                 let dim0 = split_at;
-- 
2.43.0


From 7dccc4854bf8969ef54288b27e5f2deeaa0d30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:33 +0000
Subject: [PATCH 07/12] fix: block bounds check must not wrap around

Without overflow checks a block with a huge corner or dimension was accepted.
---
 src/matrix/matrix_slices.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index f864d98..6c5dafa 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -22,10 +22,13 @@ macro_rules! block_matrix {
                 dim: (IndexType, IndexType),
             ) -> SliceMatrix<'a, Item, $StrideLayout, $RS, $CS> {
                 assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
+                    (top_left.0 <= self.layout().dim().0)
+                        && (top_left.1 <= self.layout().dim().1)
+                        && (dim.0 <= self.layout().dim().0 - top_left.0)
+                        && (dim.1 <= self.layout().dim().1 - top_left.1),
+                    "Block at {:?} with dim {:?} out of bounds for matrix with dim {:?}",
+                    top_left,
+                    dim,
                     self.layout().dim()
                 );
                 let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
@@ -51,10 +54,13 @@ macro_rules! block_matrix {
                 dim: (IndexType, IndexType),
             ) -> SliceMatrixMut<'a, Item, $StrideLayout, $RS, $CS> {
                 assert!(
-                    (top_left.0 + dim.0 <= self.layout().dim().0)
-                        & (top_left.1 + dim.1 <= self.layout().dim().1),
-                    "Lower right corner {:?} out of bounds for matrix with dim {:?}",
-                    (top_left.0 + dim.0 - 1, top_left.1 + dim.1 - 1),
+                    (top_left.0 <= self.layout().dim().0)
+                        && (top_left.1 <= self.layout().dim().1)
+                        && (dim.0 <= self.layout().dim().0 - top_left.0)
+                        && (dim.1 <= self.layout().dim().1 - top_left.1),
+                    "Block at {:?} with dim {:?} out of bounds for matrix with dim {:?}",
+                    top_left,
+                    dim,
                     self.layout().dim()
                 );
                 let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
-- 
2.43.0


From f3f78c99c67617fa3edf4a56581b06e06148141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:33 +0000
Subject: [PATCH 08/12] fix: empty blocks and splits at the edge of a matrix

The storage size of an empty block was computed as a difference that
underflows: a panic, or without overflow checks a slice of huge length.
---
 src/matrix/constructors.rs  | 12 ++++++++++--
 src/matrix/matrix_slices.rs | 29 +++++++++++++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/matrix/constructors.rs b/src/matrix/constructors.rs
index f99eb46..80305f9 100644
--- a/src/matrix/constructors.rs
+++ b/src/matrix/constructors.rs
@@ -138,7 +138,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if new_layout.number_of_elements() == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts_mut(ptr, nindices);
                 let data = SliceContainerMut::<'a, Item>::new(slice);
 
@@ -154,7 +158,11 @@ macro_rules! from_pointer_strided {
                 stride: (IndexType, IndexType),
             ) -> Self {
                 let new_layout = $L::new(dim, stride);
-                let nindices = new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1;
+                let nindices = if new_layout.number_of_elements() == 0 {
+                    0
+                } else {
+                    new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
+                };
                 let slice = std::slice::from_raw_parts(ptr, nindices);
                 let data = SliceContainer::<'a, Item>::new(slice);
 
diff --git a/src/matrix/matrix_slices.rs b/src/matrix/matrix_slices.rs
index 6c5dafa..aee78b0 100644
--- a/src/matrix/matrix_slices.rs
+++ b/src/matrix/matrix_slices.rs
@@ -31,7 +31,11 @@ macro_rules! block_matrix {
                     dim,
                     self.layout().dim()
                 );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                let start_index = if (dim.0 == 0) | (dim.1 == 0) {
+                    0
+                } else {
+                    self.layout().convert_2d_raw(top_left.0, top_left.1)
+                };
                 unsafe {
                     SliceMatrix::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
                         self.get_pointer().add(start_index),
@@ -63,7 +67,11 @@ macro_rules! block_matrix {
                     dim,
                     self.layout().dim()
                 );
-                let start_index = self.layout().convert_2d_raw(top_left.0, top_left.1);
+                let start_index = if (dim.0 == 0) | (dim.1 == 0) {
+                    0
+                } else {
+                    self.layout().convert_2d_raw(top_left.0, top_left.1)
+                };
 
                 unsafe {
                     SliceMatrixMut::<'a, Item, $StrideLayout, $RS, $CS>::from_pointer(
@@ -120,10 +128,19 @@ macro_rules! subdivide_matrix {
                 let origin2 = (split_at.0, 0);
                 let origin3 = split_at;
 
-                let start0 = self.layout().convert_2d_raw(origin0.0, origin0.1) as isize;
-                let start1 = self.layout().convert_2d_raw(origin1.0, origin1.1) as isize;
-                let start2 = self.layout().convert_2d_raw(origin2.0, origin2.1) as isize;
-                let start3 = self.layout().convert_2d_raw(origin3.0, origin3.1) as isize;
+                // The origin of an empty block may lie outside of the data.
+                let start = |origin: (usize, usize), dim: (usize, usize)| {
+                    if (dim.0 == 0) | (dim.1 == 0) {
+                        0
+                    } else {
+                        self.layout().convert_2d_raw(origin.0, origin.1) as isize
+                    }
+                };
+
+                let start0 = start(origin0, dim0);
+                let start1 = start(origin1, dim1);
+                let start2 = start(origin2, dim2);
+                let start3 = start(origin3, dim3);
 
                 let blocks = unsafe {
                     (
-- 
2.43.0


From a015e956ba830625129a0d4b85ff136fb1baf597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 09/12] fix: refuse matrix dimensions whose number of elements
 overflows

Without overflow checks such a matrix got too little storage and its bounds
checked accessors reached memory outside of it.
---
 src/layouts/arbitrary_stride_column_major.rs | 5 ++++-
 src/layouts/arbitrary_stride_row_major.rs    | 5 ++++-
 src/layouts/column_major.rs                  | 5 ++++-
 src/layouts/row_major.rs                     | 5 ++++-
 src/layouts/upper_triangular.rs              | 6 +++++-
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index ac21da6..bb2a25d 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -57,7 +57,10 @@ impl LayoutType for ArbitraryStrideColumnMajor {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        self.dim.0 * self.dim.1
+        self.dim
+            .0
+            .checked_mul(self.dim.1)
+            .expect("Number of matrix elements exceeds the index range.")
     }
 
     #[inline]
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index e02b6fb..9ccd7d4 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -56,7 +56,10 @@ impl LayoutType for ArbitraryStrideRowMajor {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        self.dim.0 * self.dim.1
+        self.dim
+            .0
+            .checked_mul(self.dim.1)
+            .expect("Number of matrix elements exceeds the index range.")
     }
 
     #[inline]
diff --git a/src/layouts/column_major.rs b/src/layouts/column_major.rs
index 6c25ada..6cfef39 100644
--- a/src/layouts/column_major.rs
+++ b/src/layouts/column_major.rs
@@ -53,7 +53,10 @@ impl LayoutType for ColumnMajor {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        self.dim.0 * self.dim.1
+        self.dim
+            .0
+            .checked_mul(self.dim.1)
+            .expect("Number of matrix elements exceeds the index range.")
     }
 
     #[inline]
diff --git a/src/layouts/row_major.rs b/src/layouts/row_major.rs
index e9a6289..272c4e3 100644
--- a/src/layouts/row_major.rs
+++ b/src/layouts/row_major.rs
@@ -53,7 +53,10 @@ impl LayoutType for RowMajor {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        self.dim.0 * self.dim.1
+        self.dim
+            .0
+            .checked_mul(self.dim.1)
+            .expect("Number of matrix elements exceeds the index range.")
     }
 
     #[inline]
diff --git a/src/layouts/upper_triangular.rs b/src/layouts/upper_triangular.rs
index a0a8337..5b2db2b 100644
--- a/src/layouts/upper_triangular.rs
+++ b/src/layouts/upper_triangular.rs
@@ -71,7 +71,11 @@ impl LayoutType for UpperTriangular {
 
     #[inline]
     fn number_of_elements(&self) -> IndexType {
-        (self.dim * (self.dim + 1)) / 2
+        self.dim
+            .checked_add(1)
+            .and_then(|next| next.checked_mul(self.dim))
+            .expect("Number of matrix elements exceeds the index range.")
+            / 2
     }
 
     #[inline]
-- 
2.43.0


From 9c30f06775f1e85992f14fe36640c82bc60acfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 10/12] fix: storage must reach the last element of a strided
 layout

from_data only compared element counts, so bounds checked access to a strided
matrix could read and write outside of its storage.
---
 src/base_matrix.rs                            |  8 ++++++++
 src/layouts.rs                                | 16 ++++++++++++++++
 src/layouts/arbitrary_stride_column_major.rs  |  1 +
 src/layouts/arbitrary_stride_column_vector.rs |  1 +
 src/layouts/arbitrary_stride_row_major.rs     |  1 +
 src/layouts/arbitrary_stride_row_vector.rs    |  1 +
 6 files changed, 28 insertions(+)

diff --git a/src/base_matrix.rs b/src/base_matrix.rs
index b8d95fa..57bb3f3 100644
--- a/src/base_matrix.rs
+++ b/src/base_matrix.rs
@@ -42,6 +42,14 @@ impl<
             data.number_of_elements(),
             layout.number_of_elements(),
         );
+        // With strides the last element can lie beyond the number of elements.
+        assert!(
+            layout.number_of_elements() == 0
+                || layout.convert_1d_raw(layout.number_of_elements() - 1)
+                    < data.number_of_elements(),
+            "Number of elements in data: {}. But the last element of the layout lies beyond it.",
+            data.number_of_elements(),
+        );
         BaseMatrix::<Item, Data, L, RS, CS> {
             data,
             layout,
diff --git a/src/layouts.rs b/src/layouts.rs
index 754dc47..f5adc17 100644
--- a/src/layouts.rs
+++ b/src/layouts.rs
@@ -14,6 +14,22 @@ pub mod row_major;
 pub mod row_vector;
 pub mod upper_triangular;
 
+use crate::types::IndexType;
+
+/// Check that the raw indices of a strided layout do not exceed the index range.
+pub(crate) fn assert_raw_indices(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) {
+    if dim.0 > 0 && dim.1 > 0 {
+        let last_row = (dim.0 - 1).checked_mul(stride.0);
+        let last_col = (dim.1 - 1).checked_mul(stride.1);
+        assert!(
+            matches!((last_row, last_col), (Some(row), Some(col)) if row.checked_add(col).is_some()),
+            "Raw indices exceed the index range for dim {:?} and stride {:?}",
+            dim,
+            stride
+        );
+    }
+}
+
 pub use arbitrary_stride_column_major::*;
 pub use arbitrary_stride_column_vector::*;
 pub use arbitrary_stride_row_major::*;
diff --git a/src/layouts/arbitrary_stride_column_major.rs b/src/layouts/arbitrary_stride_column_major.rs
index bb2a25d..26e2b0f 100644
--- a/src/layouts/arbitrary_stride_column_major.rs
+++ b/src/layouts/arbitrary_stride_column_major.rs
@@ -17,6 +17,7 @@ pub struct ArbitraryStrideColumnMajor {
 
 impl ArbitraryStrideColumnMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        assert_raw_indices(dim, stride);
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_column_vector.rs b/src/layouts/arbitrary_stride_column_vector.rs
index bd01119..2d19355 100644
--- a/src/layouts/arbitrary_stride_column_vector.rs
+++ b/src/layouts/arbitrary_stride_column_vector.rs
@@ -18,6 +18,7 @@ pub struct ArbitraryStrideColumnVector {
 
 impl ArbitraryStrideColumnVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        assert_raw_indices((dim, 1), (stride, 1));
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_major.rs b/src/layouts/arbitrary_stride_row_major.rs
index 9ccd7d4..1415b3d 100644
--- a/src/layouts/arbitrary_stride_row_major.rs
+++ b/src/layouts/arbitrary_stride_row_major.rs
@@ -16,6 +16,7 @@ pub struct ArbitraryStrideRowMajor {
 
 impl ArbitraryStrideRowMajor {
     pub fn new(dim: (IndexType, IndexType), stride: (IndexType, IndexType)) -> Self {
+        assert_raw_indices(dim, stride);
         Self { dim, stride }
     }
 }
diff --git a/src/layouts/arbitrary_stride_row_vector.rs b/src/layouts/arbitrary_stride_row_vector.rs
index 70bab47..0f965ff 100644
--- a/src/layouts/arbitrary_stride_row_vector.rs
+++ b/src/layouts/arbitrary_stride_row_vector.rs
@@ -18,6 +18,7 @@ pub struct ArbitraryStrideRowVector {
 
 impl ArbitraryStrideRowVector {
     pub fn new(dim: IndexType, stride: IndexType) -> Self {
+        assert_raw_indices((dim, 1), (stride, 1));
         Self { dim, stride }
     }
 }
-- 
2.43.0


From ed78ad0994ca5741d04db5a7adb3615f3f6e5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 11/12] fix: interleaved mutable blocks must not hold
 overlapping exclusive slices

The blocks of split_in_four_mut are interleaved in memory. Each held an
exclusive reference to its whole span, which overlaps that of its siblings:
undefined behaviour as soon as two blocks are used (Miri rejects the example of
the documentation). Hold a pointer and only create references to elements.
---
 src/data_container.rs      | 38 +++++++++++++++++++++++++++++++-------
 src/matrix/constructors.rs |  6 ++----
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/data_container.rs b/src/data_container.rs
index f798a13..ad6cd5c 100644
--- a/src/data_container.rs
+++ b/src/data_container.rs
@@ -9,6 +9,7 @@
 
 use crate::types::HScalar;
 use crate::types::IndexType;
+use std::marker::PhantomData;
 
 pub trait DataContainer {
     type Item: HScalar;
@@ -91,10 +92,21 @@ pub struct SliceContainer<'a, Item: HScalar> {
 }
 
 /// A container that takes a mutable reference to a slice.
+///
+/// The data is held as pointer and length since several containers with disjoint
+/// elements can be interleaved in memory (see
+/// [split_in_four_mut](crate::matrix::Matrix::split_in_four_mut)), so that none of
+/// them may hold an exclusive reference to its whole memory region.
 pub struct SliceContainerMut<'a, Item: HScalar> {
-    data: &'a mut [Item],
+    pointer: *mut Item,
+    nelems: IndexType,
+    phantom: PhantomData<&'a mut [Item]>,
 }
 
+// A [SliceContainerMut] is used like a mutable reference to its elements.
+unsafe impl<'a, Item: HScalar + Send> Send for SliceContainerMut<'a, Item> {}
+unsafe impl<'a, Item: HScalar + Sync> Sync for SliceContainerMut<'a, Item> {}
+
 impl<Item: HScalar> VectorContainer<Item> {
     /// New vector container by specifying the number of elements.
     ///
@@ -130,7 +142,19 @@ impl<'a, Item: HScalar> SliceContainer<'a, Item> {
 impl<'a, Item: HScalar> SliceContainerMut<'a, Item> {
     /// New mutable slice container from mutable reference.
     pub fn new(slice: &'a mut [Item]) -> SliceContainerMut<Item> {
-        SliceContainerMut::<Item> { data: slice }
+        unsafe { SliceContainerMut::<Item>::from_raw(slice.as_mut_ptr(), slice.len()) }
+    }
+
+    /// New mutable container for `nelems` elements starting at `pointer`.
+    ///
+    /// The elements that are accessed through the container must not be accessed
+    /// otherwise during its lifetime.
+    pub unsafe fn from_raw(pointer: *mut Item, nelems: IndexType) -> Self {
+        SliceContainerMut::<'a, Item> {
+            pointer,
+            nelems,
+            phantom: PhantomData,
+        }
     }
 }
 
@@ -206,24 +230,24 @@ impl<'a, Item: HScalar> DataContainer for SliceContainerMut<'a, Item> {
     type Item = Item;
 
     unsafe fn get_unchecked(&self, index: IndexType) -> Self::Item {
-        *self.data.get_unchecked(index)
+        *self.pointer.add(index)
     }
 
     fn get_pointer(&self) -> *const Self::Item {
-        self.data.as_ptr()
+        self.pointer
     }
 
     fn number_of_elements(&self) -> IndexType {
-        self.data.len()
+        self.nelems
     }
 }
 
 impl<'a, Item: HScalar> DataContainerMut for SliceContainerMut<'a, Item> {
     unsafe fn get_unchecked_mut(&mut self, index: IndexType) -> &mut Self::Item {
-        self.data.get_unchecked_mut(index)
+        &mut *self.pointer.add(index)
     }
 
     fn get_pointer_mut(&mut self) -> *mut Self::Item {
-        self.data.as_mut_ptr()
+        self.pointer
     }
 }
diff --git a/src/matrix/constructors.rs b/src/matrix/constructors.rs
index 80305f9..dde7aa2 100644
--- a/src/matrix/constructors.rs
+++ b/src/matrix/constructors.rs
@@ -143,8 +143,7 @@ macro_rules! from_pointer_strided {
                 } else {
                     new_layout.convert_2d_raw(dim.0 - 1, dim.1 - 1) + 1
                 };
-                let slice = std::slice::from_raw_parts_mut(ptr, nindices);
-                let data = SliceContainerMut::<'a, Item>::new(slice);
+                let data = SliceContainerMut::<'a, Item>::from_raw(ptr, nindices);
 
                 SliceMatrixMut::<'a, Item, $L, $RS, $CS>::from_data(data, new_layout)
             }
@@ -179,8 +178,7 @@ macro_rules! from_pointer {
             pub unsafe fn from_pointer(ptr: *mut Item, dim: (IndexType, IndexType)) -> Self {
                 let new_layout = $L::new(dim);
                 let nindices = dim.0 * dim.1;
-                let slice = std::slice::from_raw_parts_mut(ptr, nindices);
-                let data = SliceContainerMut::<'a, Item>::new(slice);
+                let data = SliceContainerMut::<'a, Item>::from_raw(ptr, nindices);
 
                 SliceMatrixMut::<'a, Item, $L, $RS, $CS>::from_data(data, new_layout)
             }
-- 
2.43.0


From 363a495459f5b59eb394b35c6b5181a5567748e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:21 +0000
Subject: [PATCH 12/12] fix: evaluate the dimension argument of mat! once

---
 src/macros.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 86568dc..203222f 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -6,24 +6,26 @@ macro_rules! mat {
     ($ScalarType:ty, $dim:expr) => {
         mat![$ScalarType, $dim, RowMajor]
     };
-    ($ScalarType:ty, $dim:expr, RowMajor) => {
+    ($ScalarType:ty, $dim:expr, RowMajor) => {{
+        let dim = &$dim;
         $crate::GenericBaseMatrixMut::<
             $ScalarType,
             $crate::RowMajor,
             $crate::VectorContainer<$ScalarType>,
             $crate::Dynamic,
             $crate::Dynamic,
-        >::zeros_from_dim($dim.0, $dim.1)
-    };
-    ($ScalarType:ty, $dim:expr, ColumnMajor) => {
+        >::zeros_from_dim(dim.0, dim.1)
+    }};
+    ($ScalarType:ty, $dim:expr, ColumnMajor) => {{
+        let dim = &$dim;
         $crate::GenericBaseMatrixMut::<
             $ScalarType,
             $crate::ColumnMajor,
             $crate::VectorContainer<$ScalarType>,
             $crate::Dynamic,
             $crate::Dynamic,
-        >::zeros_from_dim($dim.0, $dim.1)
-    };
+        >::zeros_from_dim(dim.0, dim.1)
+    }};
 }
 
 #[macro_export]
-- 
2.43.0

