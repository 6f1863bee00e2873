From 8aa504f2b77b3c444c9ff5ca6482cf8d77d52969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 1/6] fix: get_row_copy reads the requested row for every row
 index

---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 1e0d4ce..1c62766 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -105,7 +105,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         T: Copy,
     {
         let mut target_index: usize = (self.cols() - 1) as _;
-        let mut source_index: usize = (row + 1) * (self.cols() - 1);
+        let mut source_index: usize = row * self.cols() + target_index;
 
         let data = self.as_slice();
         row_data[idx!(target_index)] = data[idx!(source_index)];
-- 
2.43.0


From 413528d2a4fa11b57087ec5e58dc37efd58e57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 2/6] fix: copy_to of an empty matrix does not underflow

---
 crates/minikalman/src/matrix/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 1c62766..2539189 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -151,7 +151,7 @@ pub trait Matrix<const ROWS: usize, const COLS: usize, T = f32>:
         let adata = self.as_slice();
         let bdata = target.as_mut_slice();
 
-        for index in (0..=(count - 1)).rev() {
+        for index in (0..count).rev() {
             bdata[idx!(index)] = adata[idx![index]];
         }
     }
-- 
2.43.0


From 845b66d22fbd4ded3b471c55bc7e4c33edc5fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 3/6] fix: cholesky_decompose_lower reports NaN input as not
 positive definite

---
 crates/minikalman/src/matrix/traits.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/traits.rs b/crates/minikalman/src/matrix/traits.rs
index 2539189..a1d6e41 100644
--- a/crates/minikalman/src/matrix/traits.rs
+++ b/crates/minikalman/src/matrix/traits.rs
@@ -1148,7 +1148,9 @@ pub trait MatrixMut<const ROWS: usize, const COLS: usize, T = f32>:
                 t[idx!(j * n + i)] = sum * div_el_ii;
                 if i == j {
                     // is it positive-definite?
-                    if sum <= T::zero() {
+                    // Written as a negation so that NaN is rejected as well.
+                    #[allow(clippy::neg_cmp_op_on_partial_ord)]
+                    if !(sum > T::zero()) {
                         return false;
                     }
 
-- 
2.43.0


From 6fb6411cf5e8ce0c044aad069918e50f6bd3a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 4/6] fix: never hand nalgebra a matrix view that exceeds its
 buffer

---
 crates/minikalman/src/matrix/nalgebra_support.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index 830009b..57ac4d4 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -46,6 +46,9 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     fn ptr(&self) -> *const T {
+        // nalgebra reads ROWS * COLS elements through this pointer; `new_array` does not
+        // guarantee that the buffer holds that many.
+        assert!(ROWS * COLS <= TOTAL);
         self.as_slice().as_ptr()
     }
 
-- 
2.43.0


From f11abb479699f87020d11e3cd397faf27e51f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:33 +0000
Subject: [PATCH 5/6] fix: build the nalgebra support without std

as_slice_unchecked named std::slice, which does not exist in a no_std build.
---
 crates/minikalman/src/matrix/nalgebra_support.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/minikalman/src/matrix/nalgebra_support.rs b/crates/minikalman/src/matrix/nalgebra_support.rs
index 57ac4d4..62c8e99 100644
--- a/crates/minikalman/src/matrix/nalgebra_support.rs
+++ b/crates/minikalman/src/matrix/nalgebra_support.rs
@@ -69,7 +69,7 @@ unsafe impl<const ROWS: usize, const COLS: usize, const TOTAL: usize, T>
 
     #[inline]
     unsafe fn as_slice_unchecked(&self) -> &[T] {
-        std::slice::from_raw_parts(self.ptr(), ROWS * COLS)
+        core::slice::from_raw_parts(self.ptr(), ROWS * COLS)
     }
 }
 
-- 
2.43.0


From e6f63efa2c95850a35f023e31d48a66bef92f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:33 +0000
Subject: [PATCH 6/6] fix: build with libm and micromath enabled together

Each back end was disabled by the presence of the other, leaving recip and
square_root without a body. libm, which is exact, now takes precedence.
---
 crates/minikalman/src/matrix/data_type.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/minikalman/src/matrix/data_type.rs b/crates/minikalman/src/matrix/data_type.rs
index db57526..3298e56 100644
--- a/crates/minikalman/src/matrix/data_type.rs
+++ b/crates/minikalman/src/matrix/data_type.rs
@@ -57,7 +57,7 @@ impl MatrixDataType for f32 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -73,7 +73,7 @@ impl MatrixDataType for f32 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrtf(self)
         }
@@ -92,7 +92,7 @@ impl MatrixDataType for f64 {
         {
             self.recip()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             1.0 / self
         }
@@ -108,7 +108,7 @@ impl MatrixDataType for f64 {
         {
             self.sqrt()
         }
-        #[cfg(all(feature = "libm", not(any(feature = "std", feature = "micromath"))))]
+        #[cfg(all(feature = "libm", not(feature = "std")))]
         {
             libm::sqrt(self)
         }
-- 
2.43.0

