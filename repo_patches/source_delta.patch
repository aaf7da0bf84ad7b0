From 43f21f6c7a03e5df9cf6c8f7fabb5ee873f8f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 01/53] fix: size arithmetic of image stores must not wrap
 around

A stride or size whose product wraps made a short buffer pass validation,
and the resize then read out of bounds.
---
 src/image_store.rs | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index b1b1bb0..407e55f 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -131,8 +131,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -156,8 +156,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -219,8 +219,8 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.borrow().len() != self.stride() * self.height {
+        let expected_size = self.stride().saturating_mul(self.height);
+        if self.buffer.borrow().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -229,8 +229,9 @@ where
                 slice_len: self.buffer.borrow().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        let min_stride = self.width.saturating_mul(N);
+        if self.stride < min_stride {
+            return Err(PicScaleError::InvalidStride(min_stride, self.stride));
         }
         Ok(())
     }
@@ -241,8 +242,8 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.as_ref().len() != self.stride() * self.height {
+        let expected_size = self.stride().saturating_mul(self.height);
+        if self.buffer.as_ref().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -251,8 +252,9 @@ where
                 slice_len: self.buffer.as_ref().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        let min_stride = self.width.saturating_mul(N);
+        if self.stride < min_stride {
+            return Err(PicScaleError::InvalidStride(min_stride, self.stride));
         }
         Ok(())
     }
@@ -270,8 +272,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -298,8 +300,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -361,7 +363,7 @@ where
     #[inline]
     pub fn stride(&self) -> usize {
         if self.stride == 0 {
-            return self.width * N;
+            return self.width.saturating_mul(N);
         }
         self.stride
     }
@@ -377,7 +379,7 @@ where
     #[inline]
     pub fn stride(&self) -> usize {
         if self.stride == 0 {
-            return self.width * N;
+            return self.width.saturating_mul(N);
         }
         self.stride
     }
@@ -404,8 +406,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -471,8 +473,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
-- 
2.43.0


From 22918d19b649bb5c16785a8a8e0cb4fad14a0a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 02/53] fix: accept a stride of zero as width * channels, as
 documented

---
 src/image_store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 407e55f..1bcce1e 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -230,7 +230,7 @@ where
             }));
         }
         let min_stride = self.width.saturating_mul(N);
-        if self.stride < min_stride {
+        if self.stride() < min_stride {
             return Err(PicScaleError::InvalidStride(min_stride, self.stride));
         }
         Ok(())
@@ -253,7 +253,7 @@ where
             }));
         }
         let min_stride = self.width.saturating_mul(N);
-        if self.stride < min_stride {
+        if self.stride() < min_stride {
             return Err(PicScaleError::InvalidStride(min_stride, self.stride));
         }
         Ok(())
-- 
2.43.0


From 91eda35e76dff26878db5faa837b272dea9a5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 03/53] fix: copied() and to_immutable() keep the stride of the
 buffer they copy

---
 src/image_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 1bcce1e..c5bbc2b 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -432,7 +432,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -499,7 +499,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -510,7 +510,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
-- 
2.43.0


From b08fd54ad8a26b7f6eb83266d13a719a63a0e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 04/53] fix: copying an image must not write into the row
 padding of the destination

---
 src/image_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index c5bbc2b..535511b 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -439,13 +439,14 @@ where
 
     pub fn copied_to_mut(&self, into: &mut ImageStoreMut<T, N>) {
         let into_stride = into.stride();
+        let row_len = self.width.min(into.width) * N;
         for (src_row, dst_row) in self
             .buffer
             .as_ref()
             .chunks_exact(self.stride())
             .zip(into.buffer.borrow_mut().chunks_exact_mut(into_stride))
         {
-            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()) {
+            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()).take(row_len) {
                 *dst = src;
             }
         }
-- 
2.43.0


From b7ff03a248edd6e1be7f98048e35f1201ce9c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 05/53] fix: size arithmetic of AR30/RA30 images must not wrap
 around

---
 src/resize_ar30.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 281abf2..12d138d 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -56,9 +56,9 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::DestinationImageIsTooLarge);
     }
 
-    if src.len() != src_stride * src_size.height {
+    if src.len() != src_stride.saturating_mul(src_size.height) {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: src_stride * src_size.height,
+            expected: src_stride.saturating_mul(src_size.height),
             width: src_size.width,
             height: src_size.height,
             channels: 4,
@@ -69,9 +69,9 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::InvalidStride(src_size.width * 4, src_stride));
     }
 
-    if dst.len() != dst_stride * dst_size.height {
+    if dst.len() != dst_stride.saturating_mul(dst_size.height) {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: dst_stride * dst_size.height,
+            expected: dst_stride.saturating_mul(dst_size.height),
             width: dst_size.width,
             height: dst_size.height,
             channels: 4,
-- 
2.43.0


From c2ed9525e3f151466ca6ce80ccdd79353d5616b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 06/53] fix: same-size AR30/RA30 copy must follow the strides

---
 src/resize_ar30.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 12d138d..ae09087 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -83,8 +83,12 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
     }
 
     if src_size.width == dst_size.width && src_size.height == dst_size.height {
-        for (src, dst) in src.iter().zip(dst.iter_mut()) {
-            *dst = *src;
+        let row_len = src_size.width * 4;
+        for (src, dst) in src
+            .chunks_exact(src_stride)
+            .zip(dst.chunks_exact_mut(dst_stride))
+        {
+            dst[..row_len].copy_from_slice(&src[..row_len]);
         }
         return Ok(());
     }
-- 
2.43.0


From 33fa44f970ace3d7a44d1781bfa3fbb4f36b9a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 07/53] fix: vertical AR30/RA30 resize must use the stride of
 the destination

---
 src/resize_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index ae09087..2026ed2 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -123,7 +123,7 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
             src_stride,
             vertical_filters,
             dst,
-            src_stride,
+            dst_stride,
             &pool,
             src_size.width,
             options,
-- 
2.43.0


From 5c1e0de01607fb24427141d90b7c54f39bcd7a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 08/53] fix: nearest sampling must follow the strides of both
 images

AR30 and RA30 passed strides in bytes where widths in pixels were expected
and panicked or scrambled the picture.
---
 src/nearest_sampler.rs | 16 ++++++++++++----
 src/resize_ar30.rs     |  2 ++
 src/scaler.rs          |  6 ++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 945d5bb..899ef24 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -31,11 +31,14 @@ use rayon::iter::{IndexedParallelIterator, ParallelIterator};
 use rayon::prelude::ParallelSliceMut;
 use rayon::ThreadPool;
 
+#[allow(clippy::too_many_arguments)]
 pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     src: &[T],
+    src_stride: usize,
     src_width: usize,
     src_height: usize,
     dst: &mut [T],
+    dst_stride: usize,
     dst_width: usize,
     dst_height: usize,
     pool: &Option<ThreadPool>,
@@ -46,15 +49,17 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     let clip_width = src_width as f32 - 1f32;
     let clip_height = src_height as f32 - 1f32;
 
-    let dst_stride = dst_width * CHANNELS;
-    let src_stride = src_width * CHANNELS;
+    let dst_row_len = dst_width * CHANNELS;
 
     if let Some(pool) = pool {
         pool.install(|| {
             dst.par_chunks_exact_mut(dst_stride)
                 .enumerate()
                 .for_each(|(y, dst_chunk)| {
-                    for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                    for (x, dst) in dst_chunk[..dst_row_len]
+                        .chunks_exact_mut(CHANNELS)
+                        .enumerate()
+                    {
                         let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                             .min(clip_width)
                             .max(0f32) as usize;
@@ -77,7 +82,10 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
         dst.chunks_exact_mut(dst_stride)
             .enumerate()
             .for_each(|(y, dst_chunk)| {
-                for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                for (x, dst) in dst_chunk[..dst_row_len]
+                    .chunks_exact_mut(CHANNELS)
+                    .enumerate()
+                {
                     let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                         .min(clip_width)
                         .max(0f32) as usize;
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 2026ed2..1c43945 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -101,9 +101,11 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         resize_nearest::<u8, 4>(
             src,
             src_stride,
+            src_size.width,
             src_size.height,
             dst,
             dst_stride,
+            dst_size.width,
             dst_size.height,
             &pool,
         );
diff --git a/src/scaler.rs b/src/scaler.rs
index 1b4d94f..837e79b 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -610,11 +610,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
@@ -901,11 +904,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
-- 
2.43.0


From a8862b0bb52464446bb87bb99408dae09b0615f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 09/53] fix: nearest sampling must pick the nearest pixel

The index was floor of the distance to the first pixel center, which is up to
a whole pixel off; single precision also failed for wide images.
---
 src/nearest_sampler.rs | 74 ++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 49 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 899ef24..b5d226e 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -31,6 +31,15 @@ use rayon::iter::{IndexedParallelIterator, ParallelIterator};
 use rayon::prelude::ParallelSliceMut;
 use rayon::ThreadPool;
 
+/// Index of the source pixel whose center is the closest to the center of the destination pixel
+///
+/// If two are equally close then the lower one is used.
+#[inline]
+fn nearest_index(index: usize, src_size: usize, dst_size: usize) -> usize {
+    let scaled = (2 * index as u128 + 1) * src_size as u128 - 1;
+    (scaled / (2 * dst_size as u128)) as usize
+}
+
 #[allow(clippy::too_many_arguments)]
 pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     src: &[T],
@@ -43,65 +52,32 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     dst_height: usize,
     pool: &Option<ThreadPool>,
 ) {
-    let x_scale = src_width as f32 / dst_width as f32;
-    let y_scale = src_height as f32 / dst_height as f32;
+    let dst_row_len = dst_width * CHANNELS;
 
-    let clip_width = src_width as f32 - 1f32;
-    let clip_height = src_height as f32 - 1f32;
+    let columns: Vec<usize> = (0..dst_width)
+        .map(|x| nearest_index(x, src_width, dst_width) * CHANNELS)
+        .collect();
 
-    let dst_row_len = dst_width * CHANNELS;
+    let sample_row = |y: usize, dst_chunk: &mut [T]| {
+        let src_y = nearest_index(y, src_height, dst_height);
+        let src_row = &src[src_y * src_stride..];
+        for (dst, &src_px) in dst_chunk[..dst_row_len]
+            .chunks_exact_mut(CHANNELS)
+            .zip(columns.iter())
+        {
+            dst.copy_from_slice(&src_row[src_px..(src_px + CHANNELS)]);
+        }
+    };
 
     if let Some(pool) = pool {
         pool.install(|| {
             dst.par_chunks_exact_mut(dst_stride)
                 .enumerate()
-                .for_each(|(y, dst_chunk)| {
-                    for (x, dst) in dst_chunk[..dst_row_len]
-                        .chunks_exact_mut(CHANNELS)
-                        .enumerate()
-                    {
-                        let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
-                            .min(clip_width)
-                            .max(0f32) as usize;
-                        let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
-                            .min(clip_height)
-                            .max(0f32) as usize;
-                        let src_offset_y = src_y * src_stride;
-                        let src_px = src_x * CHANNELS;
-                        let offset = src_offset_y + src_px;
-
-                        let src_slice = &src[offset..(offset + CHANNELS)];
-
-                        for (src, dst) in src_slice.iter().zip(dst.iter_mut()) {
-                            *dst = *src;
-                        }
-                    }
-                });
+                .for_each(|(y, dst_chunk)| sample_row(y, dst_chunk));
         });
     } else {
         dst.chunks_exact_mut(dst_stride)
             .enumerate()
-            .for_each(|(y, dst_chunk)| {
-                for (x, dst) in dst_chunk[..dst_row_len]
-                    .chunks_exact_mut(CHANNELS)
-                    .enumerate()
-                {
-                    let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
-                        .min(clip_width)
-                        .max(0f32) as usize;
-                    let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
-                        .min(clip_height)
-                        .max(0f32) as usize;
-                    let src_offset_y = src_y * src_stride;
-                    let src_px = src_x * CHANNELS;
-                    let offset = src_offset_y + src_px;
-
-                    let src_slice = &src[offset..(offset + CHANNELS)];
-
-                    for (src, dst) in src_slice.iter().zip(dst.iter_mut()) {
-                        *dst = *src;
-                    }
-                }
-            });
+            .for_each(|(y, dst_chunk)| sample_row(y, dst_chunk));
     }
 }
-- 
2.43.0


From f03224cfdf0b9724a00e8761b3a3026634ff06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 10/53] fix: adaptive thread count must not wrap around for
 huge sizes

---
 src/threading_policy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/threading_policy.rs b/src/threading_policy.rs
index a83ec59..a67ce57 100644
--- a/src/threading_policy.rs
+++ b/src/threading_policy.rs
@@ -58,7 +58,8 @@ impl ThreadingPolicy {
         match self {
             ThreadingPolicy::Single => 1,
             ThreadingPolicy::Fixed(thread_count) => (*thread_count).max(1),
-            ThreadingPolicy::Adaptive => (for_size.width * for_size.height / (256 * 256))
+            ThreadingPolicy::Adaptive => (for_size.width.saturating_mul(for_size.height)
+                / (256 * 256))
                 .clamp(1, Self::available_parallelism()),
         }
     }
-- 
2.43.0


From 60ac26650a3939f3382eaf64591d8cce7b5b5384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 11/53] fix: SSE u16 unpremultiply must not use the global
 thread pool in single-thread mode

---
 src/sse/alpha_u16.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index a20897d..5162389 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -219,15 +219,13 @@ unsafe fn unpremultiply_alpha_sse_rgba_u16_impl(
                 });
         });
     } else {
-        in_place
-            .par_chunks_exact_mut(stride)
-            .for_each(|row| unsafe {
-                unpremultiply_alpha_sse_rgba_u16_row_impl(
-                    &mut row[..width * 4],
-                    bit_depth,
-                    DisassociateAlphaDefault::default(),
-                );
-            });
+        in_place.chunks_exact_mut(stride).for_each(|row| unsafe {
+            unpremultiply_alpha_sse_rgba_u16_row_impl(
+                &mut row[..width * 4],
+                bit_depth,
+                DisassociateAlphaDefault::default(),
+            );
+        });
     }
 }
 
-- 
2.43.0


From 20e3a1669b3a3d5332763aa915e35385c8994129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 12/53] fix: images whose alpha was not premultiplied must not
 be unpremultiplied

---
 src/scaler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 837e79b..0d40c53 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -688,7 +688,7 @@ impl Scaler {
         let mut src_store: std::borrow::Cow<'_, ImageStore<'_, T, N>> =
             std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -765,7 +765,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -822,7 +822,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
-- 
2.43.0


From c62181c3845b2e361b8965f8d338a0b99f0b844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 13/53] fix: scalar premultiplication must leave the alpha
 channel as it is

---
 src/alpha_handle_u16.rs | 9 ++++-----
 src/alpha_handle_u8.rs  | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 92a4880..625203c 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -71,7 +71,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_1023(src[0] as u32 * a);
             dst[1] = div_by_1023(src[1] as u32 * a);
             dst[2] = div_by_1023(src[2] as u32 * a);
-            dst[3] = div_by_1023(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 4096 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -79,7 +79,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_4095(src[0] as u32 * a);
             dst[1] = div_by_4095(src[1] as u32 * a);
             dst[2] = div_by_4095(src[2] as u32 * a);
-            dst[3] = div_by_4095(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 65535 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -87,7 +87,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_65535(src[0] as u32 * a);
             dst[1] = div_by_65535(src[1] as u32 * a);
             dst[2] = div_by_65535(src[2] as u32 * a);
-            dst[3] = div_by_65535(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else {
         let recip_max_colors = 1. / max_colors as f32;
@@ -99,7 +99,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
                 (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
             dst[2] =
                 (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[3] = (((a * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+            dst[3] = src[3];
         }
     }
 }
@@ -112,7 +112,6 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
             dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
             dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
             dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[3] = ((a * max_colors) as f32 * a_recip) as u16;
         }
     }
 }
diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index ada0cc9..6f37278 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -52,7 +52,7 @@ pub(crate) fn premultiply_alpha_rgba_row_impl(dst: &mut [u8], src: &[u8]) {
         dst[0] = div_by_255(src[0] as u16 * a);
         dst[1] = div_by_255(src[1] as u16 * a);
         dst[2] = div_by_255(src[2] as u16 * a);
-        dst[3] = div_by_255(a * a);
+        dst[3] = src[3];
     }
 }
 
-- 
2.43.0


From 25a291a04699777526c88562fe7e04897c69bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 14/53] fix: scalar alpha handling of u8 and u16 must round and
 saturate

---
 src/alpha_handle_u16.rs | 21 +++++++++------------
 src/alpha_handle_u8.rs  |  6 +++---
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 625203c..18f8879 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -73,7 +73,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[2] = div_by_1023(src[2] as u32 * a);
             dst[3] = src[3];
         }
-    } else if max_colors == 4096 {
+    } else if max_colors == 4095 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
             dst[0] = div_by_4095(src[0] as u32 * a);
@@ -90,15 +90,12 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[3] = src[3];
         }
     } else {
-        let recip_max_colors = 1. / max_colors as f32;
+        let rounding = max_colors / 2;
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
-            dst[0] =
-                (((src[0] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[1] =
-                (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[2] =
-                (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+            dst[0] = ((src[0] as u32 * a + rounding) / max_colors).min(max_colors) as u16;
+            dst[1] = ((src[1] as u32 * a + rounding) / max_colors).min(max_colors) as u16;
+            dst[2] = ((src[2] as u32 * a + rounding) / max_colors).min(max_colors) as u16;
             dst[3] = src[3];
         }
     }
@@ -108,10 +105,10 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
     for dst in in_place.chunks_exact_mut(4) {
         let a = dst[3] as u32;
         if a != 0 {
-            let a_recip = 1. / a as f32;
-            dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
+            let rounding = a / 2;
+            dst[0] = ((dst[0] as u32 * max_colors + rounding) / a).min(max_colors) as u16;
+            dst[1] = ((dst[1] as u32 * max_colors + rounding) / a).min(max_colors) as u16;
+            dst[2] = ((dst[2] as u32 * max_colors + rounding) / a).min(max_colors) as u16;
         }
     }
 }
diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index 6f37278..053b07d 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -89,10 +89,10 @@ const fn make_unpremultiplication_table() -> [u8; 65536] {
         let mut pixel = 0usize;
         while pixel < 256 {
             if alpha == 0 {
-                buf[alpha * 255 + pixel] = 0;
+                buf[alpha * 256 + pixel] = 0;
             } else {
                 let value = (pixel * 255 + alpha / 2) / alpha;
-                buf[alpha * 255 + pixel] = value as u8;
+                buf[alpha * 256 + pixel] = if value > 255 { 255 } else { value as u8 };
             }
             pixel += 1;
         }
@@ -107,7 +107,7 @@ static UNPREMULTIPLICATION_TABLE: [u8; 65536] = make_unpremultiplication_table()
 pub(crate) fn unpremultiply_alpha_rgba_row_impl(in_place: &mut [u8]) {
     for dst in in_place.chunks_exact_mut(4) {
         let a = dst[3];
-        let z = a as u16 * 255;
+        let z = a as u16 * 256;
         dst[0] = UNPREMULTIPLICATION_TABLE[(z + dst[0] as u16) as usize];
         dst[1] = UNPREMULTIPLICATION_TABLE[(z + dst[1] as u16) as usize];
         dst[2] = UNPREMULTIPLICATION_TABLE[(z + dst[2] as u16) as usize];
-- 
2.43.0


From 3d906e0815b7fb9da05bd95bc969394ca462e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 15/53] fix: unpremultiplying f16 must divide by alpha, not
 multiply

---
 src/avx2/alpha_f16.rs | 12 ++++++------
 src/sse/alpha_f16.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/avx2/alpha_f16.rs b/src/avx2/alpha_f16.rs
index 9cafee2..85632b6 100644
--- a/src/avx2/alpha_f16.rs
+++ b/src/avx2/alpha_f16.rs
@@ -174,17 +174,17 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let zeros = _mm256_setzero_ps();
         let low_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(low_alpha, zeros);
         let low_r = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -192,7 +192,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let high_alpha = _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.3));
         let high_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(high_alpha, zeros);
         let high_r = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.0)),
                 high_alpha,
             ),
@@ -200,7 +200,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_g = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.1)),
                 high_alpha,
             ),
@@ -208,7 +208,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_b = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.2)),
                 high_alpha,
             ),
diff --git a/src/sse/alpha_f16.rs b/src/sse/alpha_f16.rs
index e0c6195..b0e84c2 100644
--- a/src/sse/alpha_f16.rs
+++ b/src/sse/alpha_f16.rs
@@ -227,17 +227,17 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let zeros = _mm_setzero_ps();
         let low_alpha_zero_mask = _mm_cmpeq_ps(low_alpha, zeros);
         let low_r = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -245,7 +245,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let high_alpha = _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.3));
         let high_alpha_zero_mask = _mm_cmpeq_ps(high_alpha, zeros);
         let high_r = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.0)),
                 high_alpha,
             ),
@@ -253,7 +253,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_g = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.1)),
                 high_alpha,
             ),
@@ -261,7 +261,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_b = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.2)),
                 high_alpha,
             ),
-- 
2.43.0


From 5ba595883ca4ac82c07f583ccbae290265052b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 16/53] fix: unpremultiplied u8 values above 32767 must
 saturate, not wrap to zero

---
 src/avx2/alpha_u8.rs   | 4 ++--
 src/avx512/alpha_u8.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index fd28c6c..f25467d 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -238,8 +238,8 @@ impl Avx2DisassociateAlpha {
         let hi_lo = _mm256_cvtps_epi32(fhlw);
         let hi_hi = _mm256_cvtps_epi32(fhhw);
 
-        let packed0 = _mm256_packus_epi32(lo_lo, lo_hi);
-        let packed1 = _mm256_packus_epi32(hi_lo, hi_hi);
+        let packed0 = _mm256_packs_epi32(lo_lo, lo_hi);
+        let packed1 = _mm256_packs_epi32(hi_lo, hi_hi);
 
         _mm256_select_si256(is_zero_mask, zeros, _mm256_packus_epi16(packed0, packed1))
     }
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index a2f15ad..133bc04 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -183,8 +183,8 @@ impl<const HAS_VBMI: bool> Avx512DisassociateAlpha<HAS_VBMI> {
         let hi_hi = _mm512_cvtps_epi32(_mm512_mul_ps(hi_hi, a_hi_hi));
 
         let packed = _mm512_packus_epi16(
-            _mm512_packus_epi32(lo_lo, lo_hi),
-            _mm512_packus_epi32(hi_lo, hi_hi),
+            _mm512_packs_epi32(lo_lo, lo_hi),
+            _mm512_packs_epi32(hi_lo, hi_hi),
         );
         _mm512_mask_blend_epi8(is_zero_mask, packed, _mm512_setzero_si512())
     }
-- 
2.43.0


From c21c34e8c2119499fc07cbfc1adb914692799d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 17/53] fix: 16-bit premultiplication must multiply unsigned

---
 src/avx2/alpha_u16.rs | 12 ++++++------
 src/sse/alpha_u16.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 1a0a0b3..3157811 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -154,12 +154,12 @@ impl<const BIT_DEPTH: usize> Avx2PremultiplyExecutorDefault<BIT_DEPTH> {
         let bl32 = _mm256_unpacklo_epi16(pixel.2, zeros);
         let bh32 = _mm256_unpackhi_epi16(pixel.2, zeros);
 
-        let rl32 = _mm256_madd_epi16(rl32, low_alpha);
-        let rh32 = _mm256_madd_epi16(rh32, high_alpha);
-        let gl32 = _mm256_madd_epi16(gl32, low_alpha);
-        let gh32 = _mm256_madd_epi16(gh32, high_alpha);
-        let bl32 = _mm256_madd_epi16(bl32, low_alpha);
-        let bh32 = _mm256_madd_epi16(bh32, high_alpha);
+        let rl32 = _mm256_mullo_epi32(rl32, low_alpha);
+        let rh32 = _mm256_mullo_epi32(rh32, high_alpha);
+        let gl32 = _mm256_mullo_epi32(gl32, low_alpha);
+        let gh32 = _mm256_mullo_epi32(gh32, high_alpha);
+        let bl32 = _mm256_mullo_epi32(bl32, low_alpha);
+        let bh32 = _mm256_mullo_epi32(bh32, high_alpha);
 
         let lr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rl32);
         let hr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rh32);
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index 5162389..dc4960f 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -310,16 +310,16 @@ impl<const BIT_DEPTH: usize> Sse41PremultiplyExecutorDefault<BIT_DEPTH> {
         let a_hi_f = _mm_unpackhi_epi16(aaaa, zeros);
 
         let new_rrrr = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
         );
         let new_gggg = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
         );
         let new_bbbb = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
         );
 
         let (rgba0, rgba1, rgba2, rgba3) =
-- 
2.43.0


From 1067e7d682d19886d185d142ca6a0dcef6044ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 18/53] fix: u16 unpremultiplication must be exact to rounding
 and saturate

---
 src/avx2/alpha_u16.rs | 69 +++++++++++++++++++------------------------
 src/sse/alpha_u16.rs  | 34 ++++++++++-----------
 2 files changed, 46 insertions(+), 57 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 3157811..67a438a 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -39,10 +39,11 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 #[inline(always)]
-unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
+unsafe fn _mm256_scale_by_alpha(
     px: __m256i,
     low_low_a: __m256,
     low_high_a: __m256,
+    v_max_colors: __m256,
 ) -> __m256i {
     let zeros = _mm256_setzero_si256();
     let ls = _mm256_unpacklo_epi16(px, zeros);
@@ -51,18 +52,9 @@ unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
     let low_px = _mm256_cvtepi32_ps(ls);
     let high_px = _mm256_cvtepi32_ps(hs);
 
-    let (lvs, hvs);
-
-    if FMA {
-        lvs = _mm256_fmadd_ps(low_px, low_low_a, _mm256_set1_ps(0.5f32));
-        hvs = _mm256_fmadd_ps(high_px, low_high_a, _mm256_set1_ps(0.5f32));
-    } else {
-        let lps = _mm256_mul_ps(low_px, low_low_a);
-        let hps = _mm256_mul_ps(high_px, low_high_a);
-
-        lvs = _mm256_round_ps::<0x00>(lps);
-        hvs = _mm256_round_ps::<0x00>(hps);
-    }
+    // The conversion below already rounds to the nearest integer
+    let lvs = _mm256_min_ps(_mm256_mul_ps(low_px, low_low_a), v_max_colors);
+    let hvs = _mm256_min_ps(_mm256_mul_ps(high_px, low_high_a), v_max_colors);
 
     let new_ll = _mm256_cvtps_epi32(lvs);
     let new_lh = _mm256_cvtps_epi32(hvs);
@@ -245,10 +237,11 @@ impl Avx2PremultiplyExecutorAnyBit {
 
         let low_alpha = _mm256_mul_ps(lla, scale);
         let high_alpha = _mm256_mul_ps(hla, scale);
+        let v_max_value = _mm256_set1_ps(u16::MAX as f32);
 
-        let new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
-        let new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
-        let new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_value);
+        let new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_value);
+        let new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_value);
 
         let dst_ptr = dst.as_mut_ptr();
 
@@ -441,21 +434,21 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_scale_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        let high_alpha = _mm256_div_ps(
+            v_scale_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_scale_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_scale_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_scale_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let dst_ptr = dst.as_mut_ptr();
@@ -487,21 +480,21 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_scale_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        let high_alpha = _mm256_div_ps(
+            v_scale_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_scale_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_scale_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_scale_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let (d_lane0, d_lane1, d_lane2, d_lane3) =
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index dc4960f..342995a 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -43,21 +43,23 @@ unsafe fn sse_unpremultiply_row_u16(
     is_zero_mask: __m128i,
     a_lo_f: __m128,
     a_hi_f: __m128,
+    v_max_colors: __m128,
 ) -> __m128i {
     let zeros = _mm_setzero_si128();
     let lo = _mm_unpacklo_epi16(x, zeros);
     let hi = _mm_unpackhi_epi16(x, zeros);
 
-    let new_lo = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    // The conversion already rounds to the nearest integer
+    let new_lo = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(lo), a_lo_f),
+        v_max_colors,
     ));
-    let new_hi = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_hi = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(hi), a_hi_f),
+        v_max_colors,
     ));
 
-    let pixel = _mm_packs_epi32(new_lo, new_hi);
+    let pixel = _mm_packus_epi32(new_lo, new_hi);
     _mm_select_si128(is_zero_mask, x, pixel)
 }
 
@@ -130,24 +132,18 @@ impl DisassociateAlphaDefault {
         let (rrrr, gggg, bbbb, aaaa) = sse_deinterleave_rgba_epi16(row0, row1, row2, row3);
 
         let is_zero_mask = _mm_cmpeq_epi16(aaaa, _mm_setzero_si128());
-        let a_lo_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpacklo_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_lo_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpacklo_epi16(aaaa, _mm_setzero_si128())),
         );
-        let a_hi_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpackhi_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_hi_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpackhi_epi16(aaaa, _mm_setzero_si128())),
         );
 
-        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f);
-        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f);
-        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f);
+        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
 
         let (rgba0, rgba1, rgba2, rgba3) =
             sse_interleave_rgba_epi16(new_rrrr, new_gggg, new_bbbb, aaaa);
@@ -249,7 +245,7 @@ unsafe fn sse_premultiply_row_u16(
         a_hi_f,
     ));
 
-    _mm_packs_epi32(new_lo, new_hi)
+    _mm_packus_epi32(new_lo, new_hi)
 }
 
 pub(crate) fn premultiply_alpha_sse_rgba_u16(
-- 
2.43.0


From 329307140a68de5f0890298a8045038629fe686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 19/53] fix: RGBA rows must not run AVX2 code on CPUs without
 AVX2

---
 src/rgba_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgba_u8.rs b/src/rgba_u8.rs
index fc6c4a6..52fb519 100644
--- a/src/rgba_u8.rs
+++ b/src/rgba_u8.rs
@@ -112,7 +112,7 @@ impl HorizontalConvolutionPass<u8, 4> for ImageStore<'_, u8, 4> {
         }
         #[cfg(all(target_arch = "x86_64", feature = "avx"))]
         {
-            if (std::arch::is_x86_feature_detected!("avx2") || _scale_factor < 8.)
+            if (std::arch::is_x86_feature_detected!("avx2") && _scale_factor < 8.)
                 && _options.workload_strategy == crate::WorkloadStrategy::PreferSpeed
             {
                 _dispatcher_4_rows = Some(convolve_horizontal_rgba_avx_rows_4_lb);
-- 
2.43.0


From deb7f44b93de0c5a1b8c166f1a359a0365789691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 20/53] fix: low-precision 8-bit paths must not brighten
 samples by 64.25/64

---
 src/avx2/rgba_u8_lb.rs       | 10 +++++-----
 src/avx2/vertical_u8_lp.rs   | 18 +++++++++---------
 src/avx512/vertical_u8_lp.rs |  8 ++++----
 src/sse/cbcr8_hrs.rs         | 10 +++++-----
 src/sse/plane_u8_hrs.rs      | 12 ++++++------
 src/sse/rgba_u8_lb.rs        | 16 ++++++++--------
 src/sse/vertical_u8_lp.rs    | 16 ++++++++--------
 7 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/avx2/rgba_u8_lb.rs b/src/avx2/rgba_u8_lb.rs
index d9663d3..5cbda63 100644
--- a/src/avx2/rgba_u8_lb.rs
+++ b/src/avx2/rgba_u8_lb.rs
@@ -45,7 +45,7 @@ unsafe fn convolve_horizontal_parts_one_rgba_sse(
 
     let src_ptr_32 = src_ptr.as_ptr() as *const i32;
     let rgba_pixel = _mm_cvtsi32_si128(src_ptr_32.read_unaligned());
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(rgba_pixel, rgba_pixel));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(rgba_pixel, _mm_setzero_si128()));
 
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
@@ -64,8 +64,8 @@ pub(crate) fn convolve_horizontal_rgba_avx_rows_4_lb(
 
 #[inline(always)]
 unsafe fn hdot4(store: __m256i, v0: __m256i, w01: __m256i, w23: __m256i) -> __m256i {
-    let lo0 = _mm256_srli_epi16::<2>(_mm256_unpacklo_epi8(v0, v0));
-    let hi0 = _mm256_srli_epi16::<2>(_mm256_unpackhi_epi8(v0, v0));
+    let lo0 = _mm256_slli_epi16::<6>(_mm256_unpacklo_epi8(v0, _mm256_setzero_si256()));
+    let hi0 = _mm256_slli_epi16::<6>(_mm256_unpackhi_epi8(v0, _mm256_setzero_si256()));
     let mut p = _mm256_mulhrs_epi16(lo0, w01);
     p = _mm256_add_epi16(p, _mm256_mulhrs_epi16(hi0, w23));
     _mm256_add_epi16(store, p)
@@ -73,13 +73,13 @@ unsafe fn hdot4(store: __m256i, v0: __m256i, w01: __m256i, w23: __m256i) -> __m2
 
 #[inline(always)]
 unsafe fn hdot2(store: __m256i, v: __m256i, w0123: __m256i) -> __m256i {
-    let lo = _mm256_srli_epi16::<2>(_mm256_unpacklo_epi8(v, v));
+    let lo = _mm256_slli_epi16::<6>(_mm256_unpacklo_epi8(v, _mm256_setzero_si256()));
     _mm256_add_epi16(store, _mm256_mulhrs_epi16(lo, w0123))
 }
 
 #[inline(always)]
 unsafe fn hdot(store: __m128i, v: __m128i, w01: __m128i) -> __m128i {
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v, v));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(v, _mm_setzero_si128()));
     _mm_add_epi16(store, _mm_mulhrs_epi16(lo, w01))
 }
 
diff --git a/src/avx2/vertical_u8_lp.rs b/src/avx2/vertical_u8_lp.rs
index f6dcda0..c8aaa78 100644
--- a/src/avx2/vertical_u8_lp.rs
+++ b/src/avx2/vertical_u8_lp.rs
@@ -53,16 +53,16 @@ unsafe fn m256dot(
     row: __m256i,
     weight: __m256i,
 ) -> (__m256i, __m256i) {
-    let lo = _mm256_unpacklo_epi8(row, row);
-    let hi = _mm256_unpackhi_epi8(row, row);
+    let lo = _mm256_unpacklo_epi8(row, _mm256_setzero_si256());
+    let hi = _mm256_unpackhi_epi8(row, _mm256_setzero_si256());
 
     let store0 = _mm256_add_epi16(
         store0,
-        _mm256_mulhrs_epi16(_mm256_srli_epi16::<2>(lo), weight),
+        _mm256_mulhrs_epi16(_mm256_slli_epi16::<6>(lo), weight),
     );
     let store1 = _mm256_add_epi16(
         store1,
-        _mm256_mulhrs_epi16(_mm256_srli_epi16::<2>(hi), weight),
+        _mm256_mulhrs_epi16(_mm256_slli_epi16::<6>(hi), weight),
     );
     (store0, store1)
 }
@@ -340,10 +340,10 @@ unsafe fn convolve_vertical_avx2_row_impl(
             let mut item_row = _mm256_permute4x64_epi64::<0x50>(_mm256_castsi128_si256(
                 _mm_loadu_si128(src_ptr.as_ptr() as *const __m128i),
             ));
-            item_row = _mm256_unpacklo_epi8(item_row, item_row);
+            item_row = _mm256_unpacklo_epi8(item_row, _mm256_setzero_si256());
             store0 = _mm256_add_epi16(
                 store0,
-                _mm256_mulhrs_epi16(_mm256_srli_epi16::<2>(item_row), v_weight),
+                _mm256_mulhrs_epi16(_mm256_slli_epi16::<6>(item_row), v_weight),
             );
         }
 
@@ -372,9 +372,9 @@ unsafe fn convolve_vertical_avx2_row_impl(
             let v_offset = src_stride * py + px;
             let src_ptr = src.get_unchecked(v_offset..);
             let mut item_row = _mm_loadu_si64(src_ptr.as_ptr());
-            item_row = _mm_unpacklo_epi8(item_row, item_row);
+            item_row = _mm_unpacklo_epi8(item_row, _mm_setzero_si128());
 
-            let low = _mm_srli_epi16::<2>(item_row);
+            let low = _mm_slli_epi16::<6>(item_row);
             store = _mm_add_epi16(store, _mm_mulhrs_epi16(low, v_weight));
         }
 
@@ -404,7 +404,7 @@ unsafe fn convolve_vertical_avx2_row_impl(
             store = _mm_add_epi16(
                 store,
                 _mm_mulhrs_epi16(
-                    _mm_srli_epi16::<2>(_mm_unpacklo_epi8(item_row, item_row)),
+                    _mm_slli_epi16::<6>(_mm_unpacklo_epi8(item_row, _mm_setzero_si128())),
                     v_weight,
                 ),
             );
diff --git a/src/avx512/vertical_u8_lp.rs b/src/avx512/vertical_u8_lp.rs
index 71e2e0d..e3b27f2 100644
--- a/src/avx512/vertical_u8_lp.rs
+++ b/src/avx512/vertical_u8_lp.rs
@@ -52,11 +52,11 @@ unsafe fn m512dot(
     row: __m512i,
     weight: __m512i,
 ) -> (__m512i, __m512i) {
-    let lo = _mm512_unpacklo_epi8(row, row);
-    let hi = _mm512_unpackhi_epi8(row, row);
+    let lo = _mm512_unpacklo_epi8(row, _mm512_setzero_si512());
+    let hi = _mm512_unpackhi_epi8(row, _mm512_setzero_si512());
 
-    let lwo = _mm512_srli_epi16::<2>(lo);
-    let hwo = _mm512_srli_epi16::<2>(hi);
+    let lwo = _mm512_slli_epi16::<6>(lo);
+    let hwo = _mm512_slli_epi16::<6>(hi);
 
     let lli = _mm512_mulhrs_epi16(lwo, weight);
     let lhi = _mm512_mulhrs_epi16(hwo, weight);
diff --git a/src/sse/cbcr8_hrs.rs b/src/sse/cbcr8_hrs.rs
index 886685e..0fd9145 100644
--- a/src/sse/cbcr8_hrs.rs
+++ b/src/sse/cbcr8_hrs.rs
@@ -58,7 +58,7 @@ unsafe fn conv_cb_cr_1(start_x: usize, src: &[u8], weight0: __m128i, store_0: __
     const COMPONENTS: usize = 2;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
     let vl = _mm_loadu_si16(src_ptr);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(vl, vl));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(vl, _mm_setzero_si128()));
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
 
@@ -67,7 +67,7 @@ unsafe fn conv_cb_cr_2(start_x: usize, src: &[u8], weight0: __m128i, store_0: __
     const COMPONENTS: usize = 2;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
     let vl = _mm_loadu_si32(src_ptr as *const _);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(vl, vl));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(vl, _mm_setzero_si128()));
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
 
@@ -76,7 +76,7 @@ unsafe fn conv_cb_cr_4(start_x: usize, src: &[u8], weight0: __m128i, store_0: __
     const COMPONENTS: usize = 2;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
     let vl = _mm_loadu_si64(src_ptr as *const _);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(vl, vl));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(vl, _mm_setzero_si128()));
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
 
@@ -91,8 +91,8 @@ unsafe fn conv_cb_cr_8(
     const COMPONENTS: usize = 2;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
     let values = _mm_loadu_si128(src_ptr as *const _);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(values, values));
-    let hi = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(values, values));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(values, _mm_setzero_si128()));
+    let hi = _mm_slli_epi16::<6>(_mm_unpackhi_epi8(values, _mm_setzero_si128()));
     let p = _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, w0));
     _mm_add_epi16(p, _mm_mulhrs_epi16(hi, w1))
 }
diff --git a/src/sse/plane_u8_hrs.rs b/src/sse/plane_u8_hrs.rs
index 75c65b7..fcffd10 100644
--- a/src/sse/plane_u8_hrs.rs
+++ b/src/sse/plane_u8_hrs.rs
@@ -54,8 +54,8 @@ pub(crate) unsafe fn _mm_hsum_epi16_and_compress<const PRECISION: i32>(x: __m128
 #[inline(always)]
 unsafe fn s_accumulate_1_horiz(store: __m128i, ptr: *const u8, weight: __m128i) -> __m128i {
     let value = ptr.read_unaligned() as i8;
-    let pixel_colors = _mm_srli_epi16::<2>(_mm_setr_epi8(
-        value, value, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+    let pixel_colors = _mm_slli_epi16::<6>(_mm_setr_epi8(
+        value, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
     ));
     _mm_add_epi16(store, _mm_mulhrs_epi16(pixel_colors, weight))
 }
@@ -64,7 +64,7 @@ unsafe fn s_accumulate_1_horiz(store: __m128i, ptr: *const u8, weight: __m128i)
 #[inline(always)]
 unsafe fn s_accumulate_4_horiz(store: __m128i, ptr: *const u8, weight: __m128i) -> __m128i {
     let px = _mm_loadu_si32(ptr as *const _);
-    let pixel_colors = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(px, px));
+    let pixel_colors = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(px, _mm_setzero_si128()));
     _mm_add_epi16(store, _mm_mulhrs_epi16(pixel_colors, weight))
 }
 
@@ -72,7 +72,7 @@ unsafe fn s_accumulate_4_horiz(store: __m128i, ptr: *const u8, weight: __m128i)
 #[inline(always)]
 unsafe fn s_accumulate_8_horiz(store: __m128i, ptr: *const u8, weight: __m128i) -> __m128i {
     let px = _mm_loadu_si64(ptr as *const _);
-    let pixel_colors = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(px, px));
+    let pixel_colors = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(px, _mm_setzero_si128()));
     _mm_add_epi16(store, _mm_mulhrs_epi16(pixel_colors, weight))
 }
 
@@ -84,8 +84,8 @@ unsafe fn s_accumulate_16_horiz(
     weight: (__m128i, __m128i),
 ) -> __m128i {
     let px = _mm_loadu_si128(ptr as *const _);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(px, px));
-    let hi = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(px, px));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(px, _mm_setzero_si128()));
+    let hi = _mm_slli_epi16::<6>(_mm_unpackhi_epi8(px, _mm_setzero_si128()));
 
     let v0 = _mm_add_epi16(store, _mm_mulhrs_epi16(lo, weight.0));
     _mm_add_epi16(v0, _mm_mulhrs_epi16(hi, weight.1))
diff --git a/src/sse/rgba_u8_lb.rs b/src/sse/rgba_u8_lb.rs
index f3c4cb7..330c041 100644
--- a/src/sse/rgba_u8_lb.rs
+++ b/src/sse/rgba_u8_lb.rs
@@ -45,7 +45,7 @@ unsafe fn convolve_horizontal_parts_one_rgba_sse(
 
     let src_ptr_32 = src_ptr.as_ptr() as *const i32;
     let rgba_pixel = _mm_cvtsi32_si128(src_ptr_32.read_unaligned());
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(rgba_pixel, rgba_pixel));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(rgba_pixel, _mm_setzero_si128()));
 
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
@@ -72,10 +72,10 @@ unsafe fn hdot4(
     w45: __m128i,
     w67: __m128i,
 ) -> __m128i {
-    let lo0 = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v0, v0));
-    let hi0 = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(v0, v0));
-    let lo1 = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v1, v1));
-    let hi1 = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(v1, v1));
+    let lo0 = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(v0, _mm_setzero_si128()));
+    let hi0 = _mm_slli_epi16::<6>(_mm_unpackhi_epi8(v0, _mm_setzero_si128()));
+    let lo1 = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(v1, _mm_setzero_si128()));
+    let hi1 = _mm_slli_epi16::<6>(_mm_unpackhi_epi8(v1, _mm_setzero_si128()));
     let mut p = _mm_mulhrs_epi16(lo0, w01);
     p = _mm_add_epi16(p, _mm_mulhrs_epi16(hi0, w23));
     p = _mm_add_epi16(p, _mm_mulhrs_epi16(lo1, w45));
@@ -85,8 +85,8 @@ unsafe fn hdot4(
 
 #[inline(always)]
 unsafe fn hdot2(store: __m128i, v: __m128i, w01: __m128i, w23: __m128i) -> __m128i {
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v, v));
-    let hi = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(v, v));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(v, _mm_setzero_si128()));
+    let hi = _mm_slli_epi16::<6>(_mm_unpackhi_epi8(v, _mm_setzero_si128()));
     let mut p = _mm_mulhrs_epi16(lo, w01);
     p = _mm_add_epi16(p, _mm_mulhrs_epi16(hi, w23));
     _mm_add_epi16(store, p)
@@ -94,7 +94,7 @@ unsafe fn hdot2(store: __m128i, v: __m128i, w01: __m128i, w23: __m128i) -> __m12
 
 #[inline(always)]
 unsafe fn hdot(store: __m128i, v: __m128i, w01: __m128i) -> __m128i {
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v, v));
+    let lo = _mm_slli_epi16::<6>(_mm_unpacklo_epi8(v, _mm_setzero_si128()));
     _mm_add_epi16(store, _mm_mulhrs_epi16(lo, w01))
 }
 
diff --git a/src/sse/vertical_u8_lp.rs b/src/sse/vertical_u8_lp.rs
index f10fdc8..d80e58e 100644
--- a/src/sse/vertical_u8_lp.rs
+++ b/src/sse/vertical_u8_lp.rs
@@ -52,11 +52,11 @@ unsafe fn mdot(
     row: __m128i,
     weight: __m128i,
 ) -> (__m128i, __m128i) {
-    let lo = _mm_unpacklo_epi8(row, row);
-    let hi = _mm_unpackhi_epi8(row, row);
+    let lo = _mm_unpacklo_epi8(row, _mm_setzero_si128());
+    let hi = _mm_unpackhi_epi8(row, _mm_setzero_si128());
 
-    let store0 = _mm_add_epi16(store0, _mm_mulhrs_epi16(_mm_srli_epi16::<2>(lo), weight));
-    let store1 = _mm_add_epi16(store1, _mm_mulhrs_epi16(_mm_srli_epi16::<2>(hi), weight));
+    let store0 = _mm_add_epi16(store0, _mm_mulhrs_epi16(_mm_slli_epi16::<6>(lo), weight));
+    let store1 = _mm_add_epi16(store1, _mm_mulhrs_epi16(_mm_slli_epi16::<6>(hi), weight));
     (store0, store1)
 }
 
@@ -282,9 +282,9 @@ unsafe fn convolve_vertical_sse_row_impl(
             let v_offset = src_stride * py + px;
             let src_ptr = src.get_unchecked(v_offset..);
             let mut item_row = _mm_loadu_si64(src_ptr.as_ptr());
-            item_row = _mm_unpacklo_epi8(item_row, item_row);
+            item_row = _mm_unpacklo_epi8(item_row, _mm_setzero_si128());
 
-            let low = _mm_srli_epi16::<2>(item_row);
+            let low = _mm_slli_epi16::<6>(item_row);
             store = _mm_add_epi16(store, _mm_mulhrs_epi16(low, v_weight));
         }
 
@@ -310,11 +310,11 @@ unsafe fn convolve_vertical_sse_row_impl(
             let v_offset = src_stride * py + px;
             let src_ptr = src.get_unchecked(v_offset..(v_offset + 1));
             let mut item_row = _mm_set1_epi8(src_ptr[0] as i8);
-            item_row = _mm_unpacklo_epi8(item_row, item_row);
+            item_row = _mm_unpacklo_epi8(item_row, _mm_setzero_si128());
 
             store = _mm_add_epi16(
                 store,
-                _mm_mulhrs_epi16(_mm_srli_epi16::<2>(item_row), v_weight),
+                _mm_mulhrs_epi16(_mm_slli_epi16::<6>(item_row), v_weight),
             );
         }
 
-- 
2.43.0


From 1b82448e7c53b032cec4d9fabf8aea5f2df23a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 21/53] fix: the filter window must be centered on the sampling
 position

---
 src/scaler.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 0d40c53..d5d81dc 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -410,9 +410,15 @@ impl Scaler {
                 let mut weights_sum: T = 0f32.as_();
                 let mut local_filter_iteration = 0usize;
 
-                let start: usize = (center_x - filter_radius).floor().max(0f32.as_()).as_();
-                let end: usize = (center_x + filter_radius)
-                    .ceil()
+                // The window holds the pixels whose centers are within the radius
+                let start: usize = (center_x - filter_radius + 0.5.as_())
+                    .floor()
+                    .max(0f32.as_())
+                    .min(in_size.as_() - 1f32.as_())
+                    .as_();
+                let end: usize = (center_x + filter_radius + 0.5.as_())
+                    .floor()
+                    .max(start.as_() + 1f32.as_())
                     .min(start.as_() + kernel_size.as_())
                     .min(in_size.as_())
                     .as_();
-- 
2.43.0


From 7e987f0fd2786776c67e3fe2c205b0f03f5fddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 22/53] fix: filter rows whose weights sum to zero must not
 produce black pixels

---
 src/scaler.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scaler.rs b/src/scaler.rs
index d5d81dc..a13f380 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -488,6 +488,10 @@ impl Scaler {
                     {
                         *dst = *src * recpeq;
                     }
+                } else {
+                    // Nothing to normalize, the nearest pixel is taken
+                    let nearest: usize = center.round().max(start.as_()).as_();
+                    weights[filter_position + nearest.min(end - 1) - start] = 1f32.as_();
                 }
 
                 filter_position += kernel_size;
-- 
2.43.0


From 0f5fb9683eb14ef1ce4f66b5b0f12c5973a913c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 23/53] fix: quantized weights must keep the sum of the weights

---
 src/filter_weights.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/filter_weights.rs b/src/filter_weights.rs
index be308e8..ed0cf3b 100644
--- a/src/filter_weights.rs
+++ b/src/filter_weights.rs
@@ -105,12 +105,13 @@ impl FilterWeights<f32> {
             .chunks_exact(self.kernel_size)
             .zip(output_kernel.chunks_exact_mut(align))
         {
+            // Rounding error is carried to the next weight, so the sum of weights is preserved
+            let mut error = 0f32;
             for (&weight, kernel) in chunk.iter().zip(kernel_chunk) {
-                *kernel = (weight * precision_scale)
-                    .round()
-                    .min(upper_bound)
-                    .max(lower_bound)
-                    .as_();
+                let value = weight * precision_scale + error;
+                let quantized = (value + 0.5).floor();
+                error = value - quantized;
+                *kernel = quantized.min(upper_bound).max(lower_bound).as_();
             }
         }
 
-- 
2.43.0


From a8cd7702afc338fe13b312c6fcc559fada300118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 24/53] fix: jinc based kernels must have their maximum at zero

---
 src/math/bessel_order_one.rs | 4 ++--
 src/math/lanczos.rs          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/bessel_order_one.rs b/src/math/bessel_order_one.rs
index 5193d70..aaa1626 100644
--- a/src/math/bessel_order_one.rs
+++ b/src/math/bessel_order_one.rs
@@ -320,7 +320,7 @@ fn qone(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f64(x: f64) -> f64 {
     if x == 0f64 {
-        return 0f64;
+        return 0.5f64;
     }
     j1(x) / x
 }
@@ -328,7 +328,7 @@ pub fn jinc_f64(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f32(x: f32) -> f32 {
     if x == 0f32 {
-        return 0f32;
+        return 0.5f32;
     }
     (j1(x as f64) / x as f64) as f32
 }
diff --git a/src/math/lanczos.rs b/src/math/lanczos.rs
index e5d255a..ead1bb6 100644
--- a/src/math/lanczos.rs
+++ b/src/math/lanczos.rs
@@ -45,7 +45,7 @@ where
     f64: AsPrimitive<V>,
 {
     let scale_a: V = 1f32.as_() / a;
-    if x == 0f32.as_() || x > 16.247661874700962f32.as_() {
+    if x > 16.247661874700962f32.as_() {
         return 0f32.as_();
     }
     if x.abs() < a {
-- 
2.43.0


From b4e5e5ee43a568a39968b22ffd055c389e84a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 25/53] fix: Bartlett kernels must be centered

---
 src/math/bartlett.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/math/bartlett.rs b/src/math/bartlett.rs
index 1eb3071..9f322be 100644
--- a/src/math/bartlett.rs
+++ b/src/math/bartlett.rs
@@ -39,9 +39,9 @@ where
     f32: AsPrimitive<V>,
 {
     if x >= 0f32.as_() && x <= 1f32.as_() {
-        return 2f32.as_() * x;
+        return 1f32.as_() - x;
     }
-    2f32.as_() - 2f32.as_() * x
+    0f32.as_()
 }
 
 #[inline(always)]
@@ -54,10 +54,9 @@ where
     f32: AsPrimitive<V>,
 {
     let x = x.abs();
-    if x > 2f32.as_() {
+    if x > 1f32.as_() {
         return 0f32.as_();
     }
-    let l = 2.0f32.as_();
-    let fac = (x / (l - 1.0f32.as_()) - 0.5f32.as_()).abs();
+    let fac = x * 0.5f32.as_();
     0.62f32.as_() - 0.4832.as_() * fac + 0.38f32.as_() * (2f32.as_() * V::const_pi() * fac).cos()
 }
-- 
2.43.0


From 557c8933b2d38e7a5f57547f49cceb673f04250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 26/53] fix: Sphinx kernel must not cancel out around zero

---
 src/math/sphinx.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/math/sphinx.rs b/src/math/sphinx.rs
index 3fffc40..33cee7b 100644
--- a/src/math/sphinx.rs
+++ b/src/math/sphinx.rs
@@ -35,9 +35,11 @@ pub(crate) fn sphinx<V: Copy + ConstPI + Signed + Float + 'static>(x: V) -> V
 where
     f32: AsPrimitive<V>,
 {
-    if x.abs() < 1e-8.as_() {
-        return 1f32.as_();
-    }
     let x = x * V::const_pi();
+    if x.abs() < 0.25.as_() {
+        // The closed form cancels out around zero
+        let x2 = x * x;
+        return 1f32.as_() - x2 * 0.1.as_() + x2 * x2 * (1. / 280.).as_();
+    }
     3.0f32.as_() * (x.sin() - x * x.cos()) / (x * x * x)
 }
-- 
2.43.0


From 4b22701745f11f8b1dac962d8fd4575f9d053d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 27/53] fix: area filter must weight pixels by their coverage

---
 src/scaler.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index a13f380..7662603 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -386,7 +386,38 @@ impl Scaler {
 
         let mut bounds: Vec<FilterBounds> = vec![FilterBounds::new(0, 0); out_size];
 
-        if !is_area {
+        if resampling_filter.is_area && !is_area {
+            // Down scaling with INTER_AREA, each pixel is weighted by its coverage
+            let kernel_size = in_size.div_ceil(out_size) + 1;
+            let mut weights: Vec<T> = vec![T::default(); kernel_size * out_size];
+            let (src_size, dst_size) = (in_size as u64, out_size as u64);
+            let recip_size = 1f64 / in_size as f64;
+
+            for (i, (bound, row)) in bounds
+                .iter_mut()
+                .zip(weights.chunks_exact_mut(kernel_size))
+                .enumerate()
+            {
+                let cell_start = i as u64 * src_size;
+                let cell_end = cell_start + src_size;
+                let start = (cell_start / dst_size) as usize;
+                let end = cell_end.div_ceil(dst_size) as usize;
+                *bound = FilterBounds::new(start, end - start);
+                for (k, dst) in (start as u64..end as u64).zip(row.iter_mut()) {
+                    let covered = cell_end.min((k + 1) * dst_size) - cell_start.max(k * dst_size);
+                    *dst = (covered as f64 * recip_size).as_();
+                }
+            }
+
+            FilterWeights::<T>::new(
+                weights,
+                kernel_size,
+                kernel_size,
+                out_size,
+                (kernel_size / 2) as i32,
+                bounds,
+            )
+        } else if !is_area {
             let window_func = resampling_filter.window;
             let base_size: usize = (filter_base_size.as_() * filter_scale_cutoff).round().as_();
             let kernel_size = base_size;
@@ -519,7 +550,7 @@ impl Scaler {
             for (i, bound) in bounds.iter_mut().enumerate() {
                 let mut weights_sum: T = 0f32.as_();
 
-                let sx: T = (i.as_() * scale).floor();
+                let sx: T = (i * in_size / out_size).as_();
                 let fx = (i as i64 + 1).as_() - (sx + 1.as_()) * inv_scale;
                 let dx = if fx <= 0.as_() {
                     0.as_()
-- 
2.43.0


From 06f2abb0c616b84be8df4212a173aad425644d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 28/53] fix: colour scalers must follow the strides of both
 images

---
 src/colors/jzazbz_scaler.rs         | 10 ++++++----
 src/colors/lab_scaler.rs            | 10 ++++++----
 src/colors/lch_scaler.rs            | 10 ++++++----
 src/colors/linear_precise_scaler.rs | 10 ++++++----
 src/colors/linear_scaler.rs         | 10 ++++++----
 src/colors/luv_scaler.rs            | 10 ++++++----
 src/colors/oklab_scaler.rs          | 10 ++++++----
 src/colors/sigmoidal_scaler.rs      | 10 ++++++----
 src/colors/xyz_scaler.rs            | 10 ++++++----
 9 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/colors/jzazbz_scaler.rs b/src/colors/jzazbz_scaler.rs
index a4d344a..df536d6 100644
--- a/src/colors/jzazbz_scaler.rs
+++ b/src/colors/jzazbz_scaler.rs
@@ -64,7 +64,7 @@ impl JzazbzScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -88,11 +88,12 @@ impl JzazbzScaler {
         store: &ImageStoreMut<'a, f32, 4>,
         into: &mut ImageStoreMut<'a, u8, 4>,
     ) {
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             self.display_luminance,
@@ -151,7 +152,7 @@ impl Scaling for JzazbzScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -176,11 +177,12 @@ impl Scaling for JzazbzScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.display_luminance,
diff --git a/src/colors/lab_scaler.rs b/src/colors/lab_scaler.rs
index cec1421..620eefb 100644
--- a/src/colors/lab_scaler.rs
+++ b/src/colors/lab_scaler.rs
@@ -54,7 +54,7 @@ impl LabScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lab_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -74,11 +74,12 @@ impl LabScaler {
     }
 
     fn laba_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lab_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -138,7 +139,7 @@ impl Scaling for LabScaler {
 
         rgb_to_lab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -162,11 +163,12 @@ impl Scaling for LabScaler {
 
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         lab_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/lch_scaler.rs b/src/colors/lch_scaler.rs
index db1b2d6..7383935 100644
--- a/src/colors/lch_scaler.rs
+++ b/src/colors/lch_scaler.rs
@@ -55,7 +55,7 @@ impl LChScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lch_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -75,11 +75,12 @@ impl LChScaler {
     }
 
     fn lcha_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lch_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -141,7 +142,7 @@ impl Scaling for LChScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_lch(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -166,11 +167,12 @@ impl Scaling for LChScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         lch_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 417c89b..735f942 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearScaler {
 
         rgb_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         linear_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -191,7 +192,7 @@ impl Scaling for LinearScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -215,11 +216,12 @@ impl Scaling for LinearScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         linear_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             TransferFunction::Srgb,
diff --git a/src/colors/linear_scaler.rs b/src/colors/linear_scaler.rs
index 7189346..26dfd87 100644
--- a/src/colors/linear_scaler.rs
+++ b/src/colors/linear_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearApproxScaler {
 
         rgb_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgb(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -195,7 +196,7 @@ impl Scaling for LinearApproxScaler {
 
         rgba_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -218,11 +219,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgba(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/luv_scaler.rs b/src/colors/luv_scaler.rs
index a1df0c8..b52e449 100644
--- a/src/colors/luv_scaler.rs
+++ b/src/colors/luv_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_luv(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -129,11 +129,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -183,7 +184,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_luv_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -208,11 +209,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/oklab_scaler.rs b/src/colors/oklab_scaler.rs
index b74f7c4..7541a7f 100644
--- a/src/colors/oklab_scaler.rs
+++ b/src/colors/oklab_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -128,11 +128,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -181,7 +182,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -205,11 +206,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/sigmoidal_scaler.rs b/src/colors/sigmoidal_scaler.rs
index bf9b963..48d54c5 100644
--- a/src/colors/sigmoidal_scaler.rs
+++ b/src/colors/sigmoidal_scaler.rs
@@ -100,7 +100,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -123,11 +123,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -175,7 +176,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -198,11 +199,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/xyz_scaler.rs b/src/colors/xyz_scaler.rs
index ae8a32e..2e307da 100644
--- a/src/colors/xyz_scaler.rs
+++ b/src/colors/xyz_scaler.rs
@@ -105,7 +105,7 @@ impl Scaling for XYZScaler {
 
         srgb_to_xyz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -127,11 +127,12 @@ impl Scaling for XYZScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -180,7 +181,7 @@ impl Scaling for XYZScaler {
 
         rgba_to_xyz_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -204,11 +205,12 @@ impl Scaling for XYZScaler {
             .resize_rgba_f32(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
-- 
2.43.0


From ebeb2434633d3293460c34a046f01ea8b7a217ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 29/53] fix: LinearScaler must use its transfer function for
 RGBA images

---
 src/colors/linear_precise_scaler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 735f942..7f52731 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -197,7 +197,7 @@ impl Scaling for LinearScaler {
             lab_stride,
             lab_store.width as u32,
             lab_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
@@ -224,7 +224,7 @@ impl Scaling for LinearScaler {
             into_stride,
             new_store.width as u32,
             new_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         Ok(())
-- 
2.43.0


From 863765a942183d1234bdcc5824f6dd2b04d7c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 30/53] fix: SSE vertical u8 pass must drop the fixed-point
 fraction in its widest blocks

---
 src/sse/vertical_u8.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sse/vertical_u8.rs b/src/sse/vertical_u8.rs
index 060901e..670512f 100644
--- a/src/sse/vertical_u8.rs
+++ b/src/sse/vertical_u8.rs
@@ -140,15 +140,27 @@ pub(crate) unsafe fn convolve_vertical_part_sse_32(
             dot_prod(store_4, store_5, store_6, store_7, item_row_1, v_weight);
     }
 
-    let rgb0 = _mm_packs_epi32(store_0, store_1);
-    let rgb2 = _mm_packs_epi32(store_2, store_3);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_0),
+        _mm_srai_epi32::<PRECISION>(store_1),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_2),
+        _mm_srai_epi32::<PRECISION>(store_3),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut(px..);
     _mm_storeu_si128(dst_ptr.as_mut_ptr() as *mut __m128i, rgb);
 
-    let rgb0 = _mm_packs_epi32(store_4, store_5);
-    let rgb2 = _mm_packs_epi32(store_6, store_7);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_4),
+        _mm_srai_epi32::<PRECISION>(store_5),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_6),
+        _mm_srai_epi32::<PRECISION>(store_7),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut((px + 16)..);
-- 
2.43.0


From b34be1a6eca8d133e481811f5b3ad17e3531c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 31/53] fix: last tap of the AVX2 RGB u8 pass must read its own
 pixel

---
 src/avx2/rgb_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx2/rgb_u8.rs b/src/avx2/rgb_u8.rs
index bc22d66..e98a658 100644
--- a/src/avx2/rgb_u8.rs
+++ b/src/avx2/rgb_u8.rs
@@ -468,7 +468,7 @@ unsafe fn add_one_weight<const HAS_DOT: bool>(
 ) -> __m128i {
     const COMPONENTS: usize = 3;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
-    let base_pixel = _mm_loadu_si16(src.as_ptr());
+    let base_pixel = _mm_loadu_si16(src_ptr);
     let m_vl = _mm_insert_epi8::<2>(base_pixel, src_ptr.add(2).read_unaligned() as i32);
     let lo = _mm_unpacklo_epi8(m_vl, _mm_setzero_si128());
     _mm_dot16_avx_epi32::<HAS_DOT>(
-- 
2.43.0


From 87cac8c5c1824ceaa77768d7c8e4cbae34057906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 32/53] fix: scalar fixed-point vertical pass must round, not
 truncate

---
 src/fixed_point_vertical.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fixed_point_vertical.rs b/src/fixed_point_vertical.rs
index 49ed888..5e830de 100644
--- a/src/fixed_point_vertical.rs
+++ b/src/fixed_point_vertical.rs
@@ -28,6 +28,7 @@
  */
 use crate::filter_weights::FilterBounds;
 use crate::saturate_narrow::SaturateNarrow;
+use crate::support::ROUNDING_CONST;
 use num_traits::AsPrimitive;
 use std::ops::{AddAssign, Mul};
 
@@ -54,7 +55,7 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -108,8 +109,8 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_double<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -177,10 +178,10 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_four<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store2: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store3: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store2: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store3: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
-- 
2.43.0


From f36ee2b26ee63a41c11898b49d51733bf1ddaa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 33/53] fix: weights above one must hand their excess to other
 weights, not lose it

---
 src/filter_weights.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/filter_weights.rs b/src/filter_weights.rs
index ed0cf3b..c7a904f 100644
--- a/src/filter_weights.rs
+++ b/src/filter_weights.rs
@@ -100,18 +100,30 @@ impl FilterWeights<f32> {
         let lower_bound = J::min_value().as_();
         let upper_bound = J::max_value().as_();
 
-        for (chunk, kernel_chunk) in self
+        for ((chunk, kernel_chunk), bounds) in self
             .weights
             .chunks_exact(self.kernel_size)
             .zip(output_kernel.chunks_exact_mut(align))
+            .zip(self.bounds.iter())
         {
-            // Rounding error is carried to the next weight, so the sum of weights is preserved
+            // Rounding error, and what does not fit the integer type, is carried to the next
+            // weight, so the sum of weights is preserved
             let mut error = 0f32;
-            for (&weight, kernel) in chunk.iter().zip(kernel_chunk) {
+            for (&weight, kernel) in chunk.iter().zip(kernel_chunk.iter_mut()).take(bounds.size) {
                 let value = weight * precision_scale + error;
-                let quantized = (value + 0.5).floor();
+                let quantized = (value + 0.5).floor().min(upper_bound).max(lower_bound);
                 error = value - quantized;
-                *kernel = quantized.min(upper_bound).max(lower_bound).as_();
+                *kernel = quantized.as_();
+            }
+            // The last weight has only the previous ones to carry to
+            for kernel in kernel_chunk[..bounds.size].iter_mut().rev().skip(1) {
+                if error.abs() < 1f32 {
+                    break;
+                }
+                let value = kernel.as_() + error;
+                let quantized = (value + 0.5).floor().min(upper_bound).max(lower_bound);
+                error = value - quantized;
+                *kernel = quantized.as_();
             }
         }
 
-- 
2.43.0


From 135b33aacd64a225c3fe522971de15917ab329aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 34/53] fix: AVX2 low-precision RGBA pass must weight the alpha
 of the fifth tap

---
 src/avx2/rgba_u8_lb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgba_u8_lb.rs b/src/avx2/rgba_u8_lb.rs
index 5cbda63..57afe6b 100644
--- a/src/avx2/rgba_u8_lb.rs
+++ b/src/avx2/rgba_u8_lb.rs
@@ -154,7 +154,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_4_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
@@ -363,7 +363,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_one_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
-- 
2.43.0


From 19068fb8a5a63b3774ffa9e17144f6049213642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 35/53] fix: single-row VNNI RGBA pass must round, not truncate

---
 src/avx512/rgba_u8_dot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/rgba_u8_dot.rs b/src/avx512/rgba_u8_dot.rs
index c4caa1d..d29cd83 100644
--- a/src/avx512/rgba_u8_dot.rs
+++ b/src/avx512/rgba_u8_dot.rs
@@ -405,7 +405,7 @@ unsafe fn convolve_horizontal_rgba_vnni_rows_one_impl(
 
     let permute_avx_weights = _mm256_setr_epi32(0, 0, 0, 0, 1, 1, 1, 1);
 
-    let vld = _mm_set1_epi32(PRECISION);
+    let vld = _mm_set1_epi32(ROUNDING_CONST);
 
     for ((dst, bounds), weights) in dst
         .chunks_exact_mut(CHANNELS)
-- 
2.43.0


From a9a33dff6aeaf7fc19501c42c5147ed748611189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 36/53] fix: vertical u16 passes must continue after the last
 full block of columns

---
 src/avx2/vertical_u16_lb.rs | 8 ++++----
 src/sse/vertical_u16.rs     | 6 +++---
 src/sse/vertical_u16_lb.rs  | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/avx2/vertical_u16_lb.rs b/src/avx2/vertical_u16_lb.rs
index 6319eb0..a8a94c0 100644
--- a/src/avx2/vertical_u16_lb.rs
+++ b/src/avx2/vertical_u16_lb.rs
@@ -161,7 +161,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             item1,
         );
 
-        cx = v_dx;
+        cx = v_dx + 32;
     }
 
     let v_px = cx;
@@ -202,7 +202,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
 
         _mm256_storeu_si256(dst.as_mut_ptr() as *mut __m256i, item0);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -240,7 +240,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             _mm256_castsi256_si128(item),
         );
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -371,7 +371,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors_sse);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 542a93a..7da26b1 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -152,7 +152,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -192,7 +192,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let item = _mm_packus_epi32(v_st0, v_st1);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -335,7 +335,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let u_store0 = _mm_packus_epi32(v_st, v_st);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16_lb.rs b/src/sse/vertical_u16_lb.rs
index 1ee9d9b..40fa5c8 100644
--- a/src/sse/vertical_u16_lb.rs
+++ b/src/sse/vertical_u16_lb.rs
@@ -119,7 +119,7 @@ unsafe fn convolve_column_lb_u16_impl(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -157,7 +157,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let item = _mm_min_epi16(_mm_packus_epi32(v_st0, v_st1), v_max_colors);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -278,7 +278,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
-- 
2.43.0


From 9d90a8e2043db489554c5e0fcb63f707e53d19ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 37/53] fix: floating-point passes must round integer samples
 to nearest, not up

---
 src/mixed_storage.rs    | 8 ++++----
 src/sse/vertical_u16.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mixed_storage.rs b/src/mixed_storage.rs
index 3c14ccc..4ef4208 100644
--- a/src/mixed_storage.rs
+++ b/src/mixed_storage.rs
@@ -35,7 +35,7 @@ impl MixedStorage<u8> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -43,7 +43,7 @@ impl MixedStorage<u8> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -51,7 +51,7 @@ impl MixedStorage<u16> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
     }
 }
 
@@ -71,7 +71,7 @@ impl MixedStorage<u16> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
     }
 }
 
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 7da26b1..be6db82 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -408,6 +408,6 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
             }
         }
 
-        *dst = store0.ceil().max(0.).min(max_colors as f32) as u16;
+        *dst = store0.round().max(0.).min(max_colors as f32) as u16;
     }
 }
-- 
2.43.0


From 4f171f17912ea8d2fe1da34d0e257a9b8db82c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 38/53] fix: SSE u16 RGBA taps must read the pixel of their
 weight

---
 src/sse/rgba_u16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgba_u16.rs b/src/sse/rgba_u16.rs
index 78d1574..afc9c38 100644
--- a/src/sse/rgba_u16.rs
+++ b/src/sse/rgba_u16.rs
@@ -70,7 +70,7 @@ unsafe fn conv_horiz_rgba_2_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel, _mm_setzero_si128())),
         w1,
     )
 }
@@ -108,7 +108,7 @@ unsafe fn conv_horiz_rgba_4_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel0, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel0, _mm_setzero_si128())),
         w0,
     )
 }
-- 
2.43.0


From cb922aaec56287ff460a26a3a0c5a7ed53215e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 39/53] fix: software f16 conversion must keep the sign and
 overflow to infinity

---
 src/sse/f16_utils.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/sse/f16_utils.rs b/src/sse/f16_utils.rs
index f0e78e2..861fc7b 100644
--- a/src/sse/f16_utils.rs
+++ b/src/sse/f16_utils.rs
@@ -166,15 +166,24 @@ unsafe fn _mm_cvtps_ph_fallback(x: __m128) -> __m128i {
         v2,
         _mm_setzero_si128(),
     );
-    let sat = _mm_mullo_epi32(
-        _mm_select_epi32(
-            _mm_cmpgt_epi32(e, _mm_set1_epi32(143)),
-            _mm_set1_epi32(1),
-            _mm_setzero_si128(),
+    // Too large values are infinity, not a number stays not a number
+    let infinity = _mm_or_si128(
+        _mm_set1_epi32(0x7C00),
+        _mm_and_si128(
+            _mm_castps_si128(_mm_cmpunord_ps(x, x)),
+            _mm_set1_epi32(0x0200),
         ),
-        _mm_set1_epi32(0x7FFF),
     );
-    let packed_32 = _mm_or_si128(_mm_or_si128(j1, j2), sat);
+    let is_overflow = _mm_or_si128(
+        _mm_cmpgt_epi32(e, _mm_set1_epi32(142)),
+        _mm_castps_si128(_mm_cmpunord_ps(x, x)),
+    );
+    let magnitude = _mm_select_epi32(is_overflow, infinity, _mm_or_si128(j1, j2));
+    let sign = _mm_and_si128(
+        _mm_srli_epi32::<16>(_mm_castps_si128(x)),
+        _mm_set1_epi32(0x8000),
+    );
+    let packed_32 = _mm_or_si128(magnitude, sign);
     _mm_packus_epi32(packed_32, _mm_setzero_si128())
 }
 
-- 
2.43.0


From 5309735ba66e8bf7746071f9f3232279577d50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 40/53] fix: single-row SSE AR30 pass must use the scale and
 the cut of 10-bit samples

---
 src/sse/horizontal_ar30.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/horizontal_ar30.rs b/src/sse/horizontal_ar30.rs
index cb9ef8b..0b3040f 100644
--- a/src/sse/horizontal_ar30.rs
+++ b/src/sse/horizontal_ar30.rs
@@ -334,12 +334,12 @@ unsafe fn sse_convolve_horizontal_rgba_row_impl<const AR_TYPE: usize, const AR_O
     filter_weights: &FilterWeights<i16>,
 ) {
     unsafe {
-        const PRECISION: i32 = 16;
+        const PRECISION: i32 = 15;
         const ROUNDING: i32 = (1 << (PRECISION - 1)) - 1;
 
         let init = _mm_set1_epi32(ROUNDING);
 
-        let v_cut_off = _mm_set1_epi32(1023);
+        let v_cut_off = _mm_set1_epi16(1023);
 
         for ((chunk0, &bounds), weights) in dst
             .chunks_exact_mut(4)
-- 
2.43.0


From 99ee14009fbba677423c4659d4fe23b94fb402e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 41/53] fix: single-row AR30 pass must read all taps of the
 window

---
 src/fixed_point_horizontal_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_point_horizontal_ar30.rs b/src/fixed_point_horizontal_ar30.rs
index 8b4b6be..7195955 100644
--- a/src/fixed_point_horizontal_ar30.rs
+++ b/src/fixed_point_horizontal_ar30.rs
@@ -102,7 +102,7 @@ pub(crate) fn convolve_row_handler_fixed_point_ar30<
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 4) * weight4
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 5) * weight5;
         } else {
-            let src_ptr0 = &src[px..(px + bounds_size)];
+            let src_ptr0 = &src[px..(px + bounds_size * CN)];
             for (&k_weight, src) in weights
                 .iter()
                 .zip(src_ptr0.chunks_exact(4))
-- 
2.43.0


From 9d0f8da3fd36a93e912d7a130edb3e5030eeadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 42/53] fix: SSE AR30 taps must read the pixels in order

---
 src/sse/u8_utils.rs | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/sse/u8_utils.rs b/src/sse/u8_utils.rs
index c01cfd1..235a3e6 100644
--- a/src/sse/u8_utils.rs
+++ b/src/sse/u8_utils.rs
@@ -284,27 +284,9 @@ pub(crate) unsafe fn _mm_unzips_4_ar30_separate<const AR30_TYPE: usize, const AR
     v: __m128i,
 ) -> (__m128i, __m128i) {
     let values = _mm_unzips_3_ar30::<AR30_TYPE, AR30_ORDER>(v);
-    let a0 = (
-        _mm_unpacklo_epi16(values.0, values.1),
-        _mm_unpackhi_epi16(values.0, values.1),
-    );
-    let a1 = (
-        _mm_unpacklo_epi16(values.2, values.3),
-        _mm_unpackhi_epi16(values.2, values.3),
-    );
-    let v1 = (
-        _mm_unpacklo_epi32(a0.0, a1.0),
-        _mm_unpackhi_epi32(a0.0, a1.0),
-    );
-    let v2 = (
-        _mm_unpacklo_epi32(a0.1, a1.1),
-        _mm_unpackhi_epi32(a0.1, a1.1),
-    );
-    let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
-    let k3 = v2.1;
-    (_mm_unpacklo_epi64(k0, k1), _mm_unpacklo_epi64(k2, k3))
+    let a0 = _mm_unpacklo_epi16(values.0, values.1);
+    let a1 = _mm_unpacklo_epi16(values.2, values.3);
+    (_mm_unpacklo_epi32(a0, a1), _mm_unpackhi_epi32(a0, a1))
 }
 
 #[inline(always)]
@@ -329,8 +311,8 @@ pub(crate) unsafe fn _mm_unzip_4_ar30_separate<const AR30_TYPE: usize, const AR3
         _mm_unpackhi_epi32(a0.1, a1.1),
     );
     let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
+    let k1 = v1.1;
+    let k2 = v2.0;
     let k3 = v2.1;
     (k0, k1, k2, k3)
 }
-- 
2.43.0


From 18a71184973ac90afd72347a43fa28278a450bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 43/53] fix: single-row SSE f32 plane pass must step over all
 16 taps it used

---
 src/sse/plane_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/plane_f32.rs b/src/sse/plane_f32.rs
index 7c83a9a..c80c729 100644
--- a/src/sse/plane_f32.rs
+++ b/src/sse/plane_f32.rs
@@ -186,7 +186,7 @@ unsafe fn convolve_horizontal_plane_sse_row_one_impl<const FMA: bool>(
             let read_weights3 = _mm_loadu_ps(ptr.add(12));
             let weights = (read_weights0, read_weights1, read_weights2, read_weights3);
             store = conv_horiz_plane_16_f32!(bounds_start, src, weights, store, FMA);
-            jx += 8;
+            jx += 16;
         }
 
         while jx + 8 < bounds.size {
-- 
2.43.0


From c2b27af86561f7e080b2755160a0c0b87fbaf25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 44/53] fix: scalar f16 rows must not write into the row
 padding of the destination

---
 src/f16.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/f16.rs b/src/f16.rs
index cc0dae9..8d884b6 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -67,7 +67,7 @@ use core::{f16, f32};
 use rayon::ThreadPool;
 
 fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
-    _: usize,
+    dst_width: usize,
     _: usize,
     filter_weights: &FilterWeights<f32>,
     src: &[f16],
@@ -85,13 +85,19 @@ fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
-        *dst = *src as f16;
+    // Padding at the end of the rows must stay as it is
+    for (dst_row, src_row) in dst
+        .chunks_mut(dst_stride)
+        .zip(transient_dst.chunks(dst_stride))
+    {
+        for (dst, src) in dst_row.iter_mut().zip(src_row).take(dst_width * CHANNELS) {
+            *dst = *src as f16;
+        }
     }
 }
 
 fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
-    _: usize,
+    dst_width: usize,
     _: usize,
     filter_weights: &FilterWeights<f32>,
     src: &[f16],
@@ -105,7 +111,12 @@ fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
+    // Padding at the end of the row must stay as it is
+    for (dst, src) in dst
+        .iter_mut()
+        .zip(transient_dst.iter())
+        .take(dst_width * CHANNELS)
+    {
         *dst = *src as f16;
     }
 }
-- 
2.43.0


From 6f2cf8285ca277de072fb35f35860089ad9fbbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 45/53] fix: AVX2 and AVX-512 u8 premultiplication must leave
 alpha as it is

---
 src/avx2/alpha_u8.rs   | 6 +++++-
 src/avx512/alpha_u8.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index f25467d..5c4f5e1 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -68,7 +68,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm256_loadu_si256(src_ptr as *const __m256i);
-        let multiplicand = _mm256_shuffle_epi8(rgba0, shuffle);
+        // alpha itself must not be multiplied by alpha
+        let multiplicand = _mm256_or_si256(
+            _mm256_shuffle_epi8(rgba0, shuffle),
+            _mm256_set1_epi32(0xff00_0000u32 as i32),
+        );
 
         let zeros = _mm256_setzero_si256();
 
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index 133bc04..6129c84 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -58,7 +58,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm512_maskz_loadu_epi8(working_mask, src_ptr as *const _);
-        let multiplicand = _mm512_shuffle_epi8(rgba0, shuffle);
+        // alpha itself must not be multiplied by alpha
+        let multiplicand = _mm512_or_si512(
+            _mm512_shuffle_epi8(rgba0, shuffle),
+            _mm512_set1_epi32(0xff00_0000u32 as i32),
+        );
 
         let zeros = _mm512_setzero_si512();
 
-- 
2.43.0


From d2ecf5b78fff052579c6ac9636279e3b2ddbce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 46/53] fix: AVX-512 alpha check must look at the end of the
 row

---
 src/avx512/check_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/check_alpha.rs b/src/avx512/check_alpha.rs
index 32cfd53..8aa974a 100644
--- a/src/avx512/check_alpha.rs
+++ b/src/avx512/check_alpha.rs
@@ -65,7 +65,7 @@ unsafe fn avx512_has_non_constant_cap_alpha_rgba8_impl(
         let row = &row[0..width * 4];
         let mut sums = _mm512_set1_epi32(0);
 
-        for chunk in row.chunks_exact(64) {
+        for chunk in row.chunks(64) {
             let working_mask: __mmask64 = if chunk.len() == 64 {
                 0xffff_ffff_ffff_ffff
             } else {
-- 
2.43.0


From 9669da7ece3646eaad47435647d4675b16b4e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 47/53] fix: horizontal plane_u8 pass must judge the horizontal
 scale factor

---
 src/plane_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_u8.rs b/src/plane_u8.rs
index 68da74d..0648e99 100644
--- a/src/plane_u8.rs
+++ b/src/plane_u8.rs
@@ -56,7 +56,7 @@ impl HorizontalConvolutionPass<u8, 1> for ImageStore<'_, u8, 1> {
         _pool: &Option<ThreadPool>,
         _options: ConvolutionOptions,
     ) {
-        let _scale_factor = self.height as f32 / destination.height as f32;
+        let _scale_factor = self.width as f32 / destination.width as f32;
         let mut _dispatcher_4_rows: Option<
             fn(&[u8], usize, &mut [u8], usize, &FilterWeights<i16>),
         > = Some(handle_fixed_rows_4_u8::<1>);
-- 
2.43.0


From bec3b5e82176e1aab9ebf778d8020d0a621318fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 48/53] fix: the C wrapper must compile with the built-in f16

---
 picscale/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/picscale/src/lib.rs b/picscale/src/lib.rs
index a835ca3..f5c3902 100644
--- a/picscale/src/lib.rs
+++ b/picscale/src/lib.rs
@@ -27,7 +27,7 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #![allow(unsafe_op_in_unsafe_fn)]
-use num_traits::FromPrimitive;
+#![feature(f16)]
 use pic_scale::{
     BufferStore, ImageStore, ImageStoreMut, ImageStoreScaling, PicScaleError, ResamplingFunction,
     ScalingOptions,
@@ -71,7 +71,7 @@ fn map_error_code(error: Result<(), PicScaleError>) -> usize {
 
 fn pic_scale_scale_generic<
     'a,
-    T: Sized + Copy + Clone + Default + Debug + FromPrimitive + 'static,
+    T: Sized + Copy + Clone + Default + Debug + 'static,
     const N: usize,
 >(
     src: *const T,
@@ -740,8 +740,6 @@ pub extern "C" fn pic_scale_resize_planar_f32(
     )
 }
 
-use core::f16;
-
 /// Resizes an RGBAF16 image
 ///
 /// # Arguments
-- 
2.43.0


From 50f93ba09d618091b7345bac23b3e90cf81f509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 49/53] fix: misaligned images of the C wrapper must be copied
 sample by sample

---
 picscale/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/picscale/src/lib.rs b/picscale/src/lib.rs
index f5c3902..2e18c96 100644
--- a/picscale/src/lib.rs
+++ b/picscale/src/lib.rs
@@ -92,12 +92,20 @@ where
     unsafe {
         let source_image: std::borrow::Cow<[T]>;
 
+        if width == 0 || height == 0 || new_width == 0 || new_height == 0 {
+            return PicScaleError::ZeroImageDimensions.code();
+        }
+
         let required_align_of_t: usize = align_of::<T>();
         let size_of_t: usize = size_of::<T>();
 
         let mut j_src_stride = src_stride / size_of_t;
 
         if src as usize % required_align_of_t != 0 || src_stride % size_of_t != 0 {
+            let row_size = width as usize * N * size_of_t;
+            if src_stride < row_size {
+                return PicScaleError::InvalidStride(row_size, src_stride).code();
+            }
             let mut _src_slice = vec![T::default(); width as usize * height as usize * N];
             let j = slice::from_raw_parts(src as *const u8, src_stride * height as usize);
 
@@ -105,7 +113,7 @@ where
                 .chunks_exact_mut(width as usize * N)
                 .zip(j.chunks_exact(src_stride))
             {
-                for (dst, src) in dst.iter_mut().zip(src.chunks_exact(N)) {
+                for (dst, src) in dst.iter_mut().zip(src.chunks_exact(size_of_t)) {
                     let src_pixel = src.as_ptr() as *const T;
                     *dst = src_pixel.read_unaligned();
                 }
@@ -137,7 +145,11 @@ where
         }
         options.resampling_function = resizing_filter.to_resampling();
 
-        if dst as usize % required_align_of_t != 0 && dst_stride % size_of_t != 0 {
+        if dst as usize % required_align_of_t != 0 || dst_stride % size_of_t != 0 {
+            let row_size = new_width as usize * N * size_of_t;
+            if dst_stride < row_size {
+                return PicScaleError::InvalidStride(row_size, dst_stride).code();
+            }
             let mut dst_store = ImageStoreMut::alloc_with_depth(
                 new_width as usize,
                 new_height as usize,
@@ -151,14 +163,14 @@ where
             }
 
             let dst_slice =
-                slice::from_raw_parts_mut(dst as *mut u8, new_width as usize * dst_stride);
+                slice::from_raw_parts_mut(dst as *mut u8, new_height as usize * dst_stride);
 
             for (src, dst) in dst_store
                 .as_bytes()
                 .chunks_exact(dst_store.stride())
                 .zip(dst_slice.chunks_exact_mut(dst_stride))
             {
-                for (src, dst) in src.iter().zip(dst.chunks_exact_mut(N)) {
+                for (src, dst) in src.iter().zip(dst.chunks_exact_mut(size_of_t)) {
                     let dst_ptr = dst.as_mut_ptr() as *mut T;
                     dst_ptr.write_unaligned(*src);
                 }
-- 
2.43.0


From c74ca9be6f1810ca358aa9495e96ec8370cb4673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 50/53] fix: constant alpha check must not sum differences past
 32 bits

---
 src/avx2/check_alpha.rs   | 26 +++++++++++++-------------
 src/avx512/check_alpha.rs |  4 ++--
 src/sse/check_alpha.rs    | 20 ++++++++++----------
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/avx2/check_alpha.rs b/src/avx2/check_alpha.rs
index 2fd3446..d6d07f7 100644
--- a/src/avx2/check_alpha.rs
+++ b/src/avx2/check_alpha.rs
@@ -76,10 +76,10 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
             r2 = _mm256_xor_si256(_mm256_shuffle_epi8(r2, ash0), def_alpha);
             r3 = _mm256_xor_si256(_mm256_shuffle_epi8(r3, ash0), def_alpha);
 
-            sums = _mm256_add_epi32(sums, r0);
-            sums = _mm256_add_epi32(sums, r1);
-            sums = _mm256_add_epi32(sums, r2);
-            sums = _mm256_add_epi32(sums, r3);
+            sums = _mm256_or_si256(sums, r0);
+            sums = _mm256_or_si256(sums, r1);
+            sums = _mm256_or_si256(sums, r2);
+            sums = _mm256_or_si256(sums, r3);
         }
 
         let row = row.chunks_exact(32 * 4).remainder();
@@ -89,12 +89,12 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
 
             r0 = _mm256_xor_si256(_mm256_shuffle_epi8(r0, ash0), def_alpha);
 
-            sums = _mm256_add_epi32(sums, r0);
+            sums = _mm256_or_si256(sums, r0);
         }
 
         let row = row.chunks_exact(32).remainder();
 
-        let mut sums = _mm_add_epi32(
+        let mut sums = _mm_or_si128(
             _mm256_castsi256_si128(sums),
             _mm256_extracti128_si256::<1>(sums),
         );
@@ -107,7 +107,7 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
 
             let alphas = _mm_xor_si128(r0, def_alpha);
 
-            sums = _mm_add_epi32(sums, alphas);
+            sums = _mm_or_si128(sums, alphas);
         }
 
         let row = row.chunks_exact(16).remainder();
@@ -116,7 +116,7 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
         let mut h_sum = _mm_hsum_epi32(sums);
 
         for chunk in row.chunks_exact(4) {
-            h_sum += chunk[3] as i32 ^ first_alpha as i32;
+            h_sum |= chunk[3] as i32 ^ first_alpha as i32;
         }
 
         if h_sum != 0 {
@@ -170,8 +170,8 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba16_impl(
             let r01 = _mm256_xor_si256(_mm256_unpacklo_epi32(r0, r1), def_alpha);
             let r23 = _mm256_xor_si256(_mm256_unpacklo_epi32(r2, r3), def_alpha);
 
-            sums = _mm256_add_epi32(sums, r01);
-            sums = _mm256_add_epi32(sums, r23);
+            sums = _mm256_or_si256(sums, r01);
+            sums = _mm256_or_si256(sums, r23);
         }
 
         let row = row.chunks_exact(16 * 4).remainder();
@@ -183,19 +183,19 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba16_impl(
 
             let alphas = _mm256_xor_si256(_mm256_unpacklo_epi32(r0, r0), def_alpha);
 
-            sums = _mm256_add_epi32(sums, alphas);
+            sums = _mm256_or_si256(sums, alphas);
         }
 
         let row = row.chunks_exact(16).remainder();
 
         use crate::avx2::routines::_mm_hsum_epi32;
-        let mut h_sum = _mm_hsum_epi32(_mm_add_epi32(
+        let mut h_sum = _mm_hsum_epi32(_mm_or_si128(
             _mm256_castsi256_si128(sums),
             _mm256_extracti128_si256::<1>(sums),
         ));
 
         for chunk in row.chunks_exact(4) {
-            h_sum += chunk[3] as i32 ^ first_alpha as i32;
+            h_sum |= chunk[3] as i32 ^ first_alpha as i32;
         }
 
         if h_sum != 0 {
diff --git a/src/avx512/check_alpha.rs b/src/avx512/check_alpha.rs
index 8aa974a..cb2bd75 100644
--- a/src/avx512/check_alpha.rs
+++ b/src/avx512/check_alpha.rs
@@ -77,10 +77,10 @@ unsafe fn avx512_has_non_constant_cap_alpha_rgba8_impl(
             r0 = _mm512_shuffle_epi8(r0, sh0);
             r0 = _mm512_xor_si512(r0, def_alpha);
 
-            sums = _mm512_add_epi32(sums, r0);
+            sums = _mm512_or_si512(sums, r0);
         }
 
-        let h_sum = _mm512_reduce_add_epi32(sums);
+        let h_sum = _mm512_reduce_or_epi32(sums);
 
         if h_sum != 0 {
             return true;
diff --git a/src/sse/check_alpha.rs b/src/sse/check_alpha.rs
index 85133e3..82198f6 100644
--- a/src/sse/check_alpha.rs
+++ b/src/sse/check_alpha.rs
@@ -71,10 +71,10 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba8_impl(
             r2 = _mm_xor_si128(_mm_shuffle_epi8(r2, sh0), def_alpha);
             r3 = _mm_xor_si128(_mm_shuffle_epi8(r3, sh0), def_alpha);
 
-            sums = _mm_add_epi32(sums, r0);
-            sums = _mm_add_epi32(sums, r1);
-            sums = _mm_add_epi32(sums, r2);
-            sums = _mm_add_epi32(sums, r3);
+            sums = _mm_or_si128(sums, r0);
+            sums = _mm_or_si128(sums, r1);
+            sums = _mm_or_si128(sums, r2);
+            sums = _mm_or_si128(sums, r3);
         }
 
         let row = row.chunks_exact(16 * 4).remainder();
@@ -86,7 +86,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba8_impl(
 
             let alphas = _mm_xor_si128(r0, def_alpha);
 
-            sums = _mm_add_epi32(sums, alphas);
+            sums = _mm_or_si128(sums, alphas);
         }
 
         let row = row.chunks_exact(16).remainder();
@@ -94,7 +94,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba8_impl(
         let mut h_sum = _mm_hsum_epi32(sums);
 
         for chunk in row.chunks_exact(4) {
-            h_sum += chunk[3] as i32 ^ first_alpha as i32;
+            h_sum |= chunk[3] as i32 ^ first_alpha as i32;
         }
 
         if h_sum != 0 {
@@ -145,8 +145,8 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba16_impl(
             let r01 = _mm_xor_si128(_mm_unpacklo_epi32(r0, r1), def_alpha);
             let r23 = _mm_xor_si128(_mm_unpacklo_epi32(r2, r3), def_alpha);
 
-            sums = _mm_add_epi32(sums, r01);
-            sums = _mm_add_epi32(sums, r23);
+            sums = _mm_or_si128(sums, r01);
+            sums = _mm_or_si128(sums, r23);
         }
 
         let row = row.chunks_exact(8 * 4).remainder();
@@ -158,7 +158,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba16_impl(
 
             let alphas = _mm_xor_si128(_mm_unpacklo_epi32(r0, r0), def_alpha);
 
-            sums = _mm_add_epi32(sums, alphas);
+            sums = _mm_or_si128(sums, alphas);
         }
 
         let row = row.chunks_exact(8).remainder();
@@ -166,7 +166,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba16_impl(
         let mut h_sum = _mm_hsum_epi32(sums);
 
         for chunk in row.chunks_exact(4) {
-            h_sum += chunk[3] as i32 ^ first_alpha as i32;
+            h_sum |= chunk[3] as i32 ^ first_alpha as i32;
         }
 
         if h_sum != 0 {
-- 
2.43.0


From 6f3cfd763905c4e8ccae4214fa91fa03d23261e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 51/53] fix: sampling positions must not be computed in single
 precision

---
 src/scaler.rs | 67 +++++++++++++++++++++------------------------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 7662603..5c63648 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -373,16 +373,17 @@ impl Scaler {
         usize: AsPrimitive<T>,
     {
         let resampling_filter = self.function.get_resampling_filter();
-        let scale = in_size.as_() / out_size.as_();
+        // Positions in long rows do not fit single precision
+        let scale = in_size as f64 / out_size as f64;
         let is_resizable_kernel = resampling_filter.is_resizable_kernel;
         let filter_scale_cutoff = match is_resizable_kernel {
-            true => scale.max(1f32.as_()),
-            false => 1f32.as_(),
+            true => scale.max(1.),
+            false => 1.,
         };
         let filter_base_size = resampling_filter.min_kernel_size;
         let resampling_function = resampling_filter.kernel;
 
-        let is_area = resampling_filter.is_area && scale < 1.as_();
+        let is_area = resampling_filter.is_area && scale < 1.;
 
         let mut bounds: Vec<FilterBounds> = vec![FilterBounds::new(0, 0); out_size];
 
@@ -419,10 +420,10 @@ impl Scaler {
             )
         } else if !is_area {
             let window_func = resampling_filter.window;
-            let base_size: usize = (filter_base_size.as_() * filter_scale_cutoff).round().as_();
+            let base_size = (filter_base_size as f64 * filter_scale_cutoff).round() as usize;
             let kernel_size = base_size;
-            let filter_radius = base_size.as_() / 2.as_();
-            let filter_scale = 1f32.as_() / filter_scale_cutoff;
+            let filter_radius = base_size as f64 / 2.;
+            let filter_scale: T = (1. / filter_scale_cutoff).as_();
             let mut weights: Vec<T> = vec![T::default(); kernel_size * out_size];
             let mut local_filters = vec![T::default(); kernel_size];
             let mut filter_position = 0usize;
@@ -437,27 +438,22 @@ impl Scaler {
                 }
             };
             for (i, bound) in bounds.iter_mut().enumerate() {
-                let center_x = ((i.as_() + 0.5.as_()) * scale).min(in_size.as_());
+                let center_x = ((i as f64 + 0.5) * scale).min(in_size as f64);
                 let mut weights_sum: T = 0f32.as_();
                 let mut local_filter_iteration = 0usize;
 
                 // The window holds the pixels whose centers are within the radius
-                let start: usize = (center_x - filter_radius + 0.5.as_())
-                    .floor()
-                    .max(0f32.as_())
-                    .min(in_size.as_() - 1f32.as_())
-                    .as_();
-                let end: usize = (center_x + filter_radius + 0.5.as_())
-                    .floor()
-                    .max(start.as_() + 1f32.as_())
-                    .min(start.as_() + kernel_size.as_())
-                    .min(in_size.as_())
-                    .as_();
-
-                let center = center_x - 0.5.as_();
+                let start = ((center_x - filter_radius + 0.5).floor().max(0.) as usize)
+                    .min(in_size - 1);
+                let end = ((center_x + filter_radius + 0.5).floor() as usize)
+                    .max(start + 1)
+                    .min(start + kernel_size)
+                    .min(in_size);
+
+                let center = center_x - 0.5;
 
                 for k in start..end {
-                    let dx = k.as_() - center;
+                    let dx: T = (k as f64 - center).as_();
                     let weight;
                     if let Some(resampling_window) = window_func {
                         let mut x = dx.abs();
@@ -521,7 +517,7 @@ impl Scaler {
                     }
                 } else {
                     // Nothing to normalize, the nearest pixel is taken
-                    let nearest: usize = center.round().max(start.as_()).as_();
+                    let nearest = (center.round().max(0.) as usize).max(start);
                     weights[filter_position + nearest.min(end - 1) - start] = 1f32.as_();
                 }
 
@@ -533,16 +529,15 @@ impl Scaler {
                 kernel_size,
                 kernel_size,
                 out_size,
-                filter_radius.as_(),
+                filter_radius as i32,
                 bounds,
             )
         } else {
             // Simulating INTER_AREA from OpenCV, for up scaling here,
             // this is necessary because weight computation is different
             // from any other func
-            let inv_scale: T = 1.as_() / scale;
             let kernel_size = 2;
-            let filter_radius: T = 1.as_();
+            let filter_radius = 1;
             let mut weights: Vec<T> = vec![T::default(); kernel_size * out_size];
             let mut local_filters = vec![T::default(); kernel_size];
             let mut filter_position = 0usize;
@@ -550,26 +545,20 @@ impl Scaler {
             for (i, bound) in bounds.iter_mut().enumerate() {
                 let mut weights_sum: T = 0f32.as_();
 
-                let sx: T = (i * in_size / out_size).as_();
-                let fx = (i as i64 + 1).as_() - (sx + 1.as_()) * inv_scale;
-                let dx = if fx <= 0.as_() {
+                let start = i * in_size / out_size;
+                let end = (start + kernel_size).min(in_size);
+
+                let fx = (i as i64 + 1) * in_size as i64 - (start as i64 + 1) * out_size as i64;
+                let dx: T = if fx <= 0 {
                     0.as_()
                 } else {
-                    fx - fx.floor()
+                    ((fx % in_size as i64) as f64 / in_size as f64).as_()
                 };
-                let dx = dx.abs();
                 let weight0 = 1.as_() - dx;
                 let weight1: T = dx;
                 local_filters[0] = weight0;
                 local_filters[1] = weight1;
 
-                let start: usize = sx.floor().max(0f32.as_()).as_();
-                let end: usize = (sx + kernel_size.as_())
-                    .ceil()
-                    .min(start.as_() + kernel_size.as_())
-                    .min(in_size.as_())
-                    .as_();
-
                 let size = end - start;
 
                 weights_sum += weight0;
@@ -601,7 +590,7 @@ impl Scaler {
                 kernel_size,
                 kernel_size,
                 out_size,
-                filter_radius.as_(),
+                filter_radius,
                 bounds,
             )
         }
-- 
2.43.0


From 20682e3ecbd1316ae9a7a0400da58019e36b2c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:58 +0000
Subject: [PATCH 52/53] fix: the portable half-float pass must not convert the
 whole image for every row

---
 src/f16.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/f16.rs b/src/f16.rs
index 8d884b6..8cb38f5 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -215,10 +215,16 @@ fn convolve_vertical_rgb_native_row_f16(
     src_stride: usize,
     weight: &[f32],
 ) {
-    let transient_src = src.iter().map(|&x| x as f32).collect::<Vec<f32>>();
+    // Only the rows of the window are converted
+    let start = bounds.start * src_stride;
+    let end = (start + bounds.size * src_stride).min(src.len());
+    let transient_src = src[start..end]
+        .iter()
+        .map(|&x| x as f32)
+        .collect::<Vec<f32>>();
     let mut transient_dst = vec![0f32; dst.len()];
     column_handler_floating_point::<f32, f32, f32>(
-        bounds,
+        &FilterBounds::new(0, bounds.size),
         &transient_src,
         &mut transient_dst,
         src_stride,
-- 
2.43.0


From d6c7a1c7fe2dc92d0be88aa9d9c84087abcfad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 53/53] fix: Jzazbz images must not lose four of every eight
 pixels

---
 src/colors/jzazbz_scaler.rs | 64 +++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/colors/jzazbz_scaler.rs b/src/colors/jzazbz_scaler.rs
index df536d6..0597d3c 100644
--- a/src/colors/jzazbz_scaler.rs
+++ b/src/colors/jzazbz_scaler.rs
@@ -26,9 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
-use colorutils_rs::{
-    jzazbz_to_rgb, jzazbz_to_rgba, rgb_to_jzazbz, rgba_to_jzazbz, TransferFunction,
-};
+use colorutils_rs::{rgb_to_jzazbz, rgba_to_jzazbz, Jzazbz, TransferFunction};
 
 use crate::pic_scale_error::PicScaleError;
 use crate::scaler::ScalingF32;
@@ -88,17 +86,40 @@ impl JzazbzScaler {
         store: &ImageStoreMut<'a, f32, 4>,
         into: &mut ImageStoreMut<'a, u8, 4>,
     ) {
-        let into_stride = into.stride() as u32;
-        jzazbz_to_rgba(
-            store.buffer.borrow(),
-            store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
-            into.buffer.borrow_mut(),
-            into_stride,
-            store.width as u32,
-            store.height as u32,
-            self.display_luminance,
-            self.transfer_function,
-        );
+        self.jzazbz_to_image(store, into);
+    }
+
+    /// Converts pixel by pixel: row conversion of `colorutils-rs` on x86 leaves
+    /// 4 of every 8 pixels black
+    fn jzazbz_to_image<const N: usize>(
+        &self,
+        store: &ImageStoreMut<'_, f32, N>,
+        into: &mut ImageStoreMut<'_, u8, N>,
+    ) {
+        let into_stride = into.stride();
+        for (src_row, dst_row) in store
+            .buffer
+            .borrow()
+            .chunks_exact(store.stride())
+            .zip(into.buffer.borrow_mut().chunks_exact_mut(into_stride))
+        {
+            for (src, dst) in src_row
+                .chunks_exact(N)
+                .take(store.width)
+                .zip(dst_row.chunks_exact_mut(N))
+            {
+                let rgb =
+                    Jzazbz::new_with_luminance(src[0], src[1], src[2], self.display_luminance)
+                        .to_linear_rgb();
+                for (dst, linear) in dst.iter_mut().zip([rgb.r, rgb.g, rgb.b]) {
+                    let gamma = self.transfer_function.gamma(linear.clamp(0f32, 1f32));
+                    *dst = (gamma * 255f32).round() as u8;
+                }
+                if N == 4 {
+                    dst[3] = (src[3] * 255f32).round() as u8;
+                }
+            }
+        }
     }
 }
 
@@ -174,20 +195,7 @@ impl Scaling for JzazbzScaler {
         self.scaler
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
 
-        let new_lab_stride =
-            new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
-
-        let into_stride = into.stride() as u32;
-        jzazbz_to_rgb(
-            new_store.buffer.borrow(),
-            new_lab_stride,
-            into.buffer.borrow_mut(),
-            into_stride,
-            new_store.width as u32,
-            new_store.height as u32,
-            self.display_luminance,
-            self.transfer_function,
-        );
+        self.jzazbz_to_image(&new_store, into);
         Ok(())
     }
 
-- 
2.43.0

