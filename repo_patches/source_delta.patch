From 62d64abbdb669bb1107e16af349c17d6e69012cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:17 +0000
Subject: [PATCH 01/23] fix: merged 2-D and 3-D executors must honour the order
 of the box

The FFTW and MKL executors that merge two or three directions used the sizes
by direction instead of by memory order, plans without reorder on boxes with a
non-default order gave wrong results or wrote outside of the arrays.
---
 include/heffte_backend_fftw.h | 30 ++++++++++++++++--------------
 include/heffte_backend_mkl.h  | 15 ++++++++-------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index b501e8b..14438bf 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -230,7 +230,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -239,22 +240,22 @@ public:
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
@@ -594,7 +595,8 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
     //! \brief Construct a plan for batch 2D transforms, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -603,22 +605,22 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Construct a plan for a single 3D transform, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index cdbc32c..72957ec 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -195,7 +195,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count())
     {
         int odir1 = box.find_order(dir1);
@@ -205,23 +206,23 @@ public:
             stride = 1;
             dist = size * size2;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size)};
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size) * static_cast<MKL_LONG>(stride)};
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.size[1]) * static_cast<MKL_LONG>(box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.osize(1)) * static_cast<MKL_LONG>(box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
-- 
2.43.0


From c8c7c17a368af3c2714fd1933d1cbb367921454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 02/23] fix: copy the input when the first executor of the
 transform is missing

With several directions merged into one executor the backward transform starts
with null executors: the input was not copied before a single later reshape, and
ranks with an empty box dereferenced a null executor.
---
 src/heffte_compute_transform.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 1f425fe..2909c90 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -12,6 +12,25 @@
 
 namespace heffte {
 
+/*!
+ * \internal
+ * \ingroup fft3d
+ * \brief Returns the number of entries in the box of the first stage of the transform, zero if the box is empty.
+ *
+ * The leading executors are missing when the box is empty or when several directions are merged
+ * into a single executor, which comes last in the backward transform.
+ *
+ * \endinternal
+ */
+template<typename shaper_array>
+static int get_first_box_size(shaper_array const &shaper, std::array<executor_base*, 3> const &executor){
+    for(int i=0; i<3; i++){
+        if (i > 0 and shaper[i]) break; // the data is moved before executor i
+        if (executor[i] != nullptr) return executor[i]->box_size();
+    }
+    return 0;
+}
+
 template<typename location_tag, typename index, typename scalar_type>
 void compute_transform(typename backend::data_manipulator<location_tag>::stream_type stream,
                        int const batch_size,
@@ -57,8 +76,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         if (last == 0){
             shaper[0]->apply(batch_size, input, output, workspace);
         }else if (input != output){
-            int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[valid_executor]->box_size(), output);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * get_first_box_size(shaper, executor), output);
         }
         for(int i=0; i<3; i++)
             apply_fft(i, output);
@@ -72,8 +90,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         scalar_type *effective_input = output;
         if (input != output){
             add_trace name("copy");
-            if (executor[0] != nullptr)
-                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * get_first_box_size(shaper, executor), temp_buffer);
             effective_input = temp_buffer;
         }
         for(int i=0; i<last; i++)
@@ -95,7 +112,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
             shaper[0]->apply(batch_size, input, temp_buffer, workspace);
         }else{
             add_trace name("copy");
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * get_first_box_size(shaper, executor), temp_buffer);
         }
         active_shaper = 1;
     }else{
@@ -214,9 +231,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         shaper[0]->apply(batch_size, input, temp_buffer, workspace);
     }else{
         add_trace name("copy");
-        int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
         backend::data_manipulator<location_tag>::copy_n(stream, input,
-                                                        batch_size * executor[valid_executor]->box_size(), temp_buffer);
+                                                        batch_size * get_first_box_size(shaper, executor), temp_buffer);
     }
 
     for(int i=0; i<2; i++){ // apply the two complex-to-complex ffts
-- 
2.43.0


From 3a71a7144116e8b7fd9826929d8195b17a669c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 03/23] fix: batch offset of the real-to-complex transform
 without later reshapes

The complex data of consecutive entries of the batch is complex_size() apart,
box_size() is the size of the real box.
---
 src/heffte_compute_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 2909c90..d7c4ada 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -172,8 +172,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         for(int j=0; j<batch_size; j++){
             if (executor[0] != nullptr) executor[0]->forward(effective_input + j * executor[0]->box_size(),
                                                              output + j * executor[0]->complex_size(), executor_workspace);
-            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[0]->box_size(), executor_workspace);
-            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[0]->box_size(), executor_workspace);
+            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[0]->complex_size(), executor_workspace);
+            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[0]->complex_size(), executor_workspace);
         }
         return;
     }
-- 
2.43.0


From 40dde8e7dc5523b7585c70a8c8c36d07cba98a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 04/23] fix: create the FFTW r2c and c2r plans as out-of-place
 plans

The null arrays made FFTW plan an in-place transform, which does not match the
out-of-place execution and fails (null plan, crash in the execution) when the
size of the r2c direction is one.
---
 include/heffte_backend_fftw.h | 38 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 14438bf..87b4a24 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -358,17 +358,20 @@ struct plan_fftw<float, dir>{
      * \param rdist is the distance between the first entries of consecutive sequences in the real sequences
      * \param cdist is the distance between the first entries of consecutive sequences in the complex sequences
      */
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist){
+        // FFTW_ESTIMATE does not touch the arrays, but identical (e.g., null) pointers request an in-place transform
+        alignas(64) float rarray[16];
+        alignas(64) fftwf_complex carray[16];
+        plan = (dir == direction::forward) ?
+             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, rarray, nullptr, stride, rdist,
+                                                   carray, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE
                                    ) :
-             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
+             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, carray, nullptr, stride, cdist,
+                                                   rarray, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE
-                                   ))
-        {}
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
@@ -383,17 +386,20 @@ struct plan_fftw<float, dir>{
 template<direction dir>
 struct plan_fftw<double, dir>{
     //! \brief Identical to the float-complex specialization.
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftw_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist){
+        // FFTW_ESTIMATE does not touch the arrays, but identical (e.g., null) pointers request an in-place transform
+        alignas(64) double rarray[16];
+        alignas(64) fftw_complex carray[16];
+        plan = (dir == direction::forward) ?
+             fftw_plan_many_dft_r2c(1, &size, howmanyffts, rarray, nullptr, stride, rdist,
+                                                   carray, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE
                                    ) :
-             fftw_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
+             fftw_plan_many_dft_c2r(1, &size, howmanyffts, carray, nullptr, stride, cdist,
+                                                   rarray, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE
-                                   ))
-        {}
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
-- 
2.43.0


From 813217910c9894f633a7f4be9086fbf4f7a70c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:22 +0000
Subject: [PATCH 05/23] fix: FFTW plans must accept arrays of any alignment

The plans are created without the arrays and executed on user buffers and on
entries of a batch with arbitrary offset, without FFTW_UNALIGNED the SIMD
codelets crash on arrays that are aligned only to the size of the type.
---
 include/heffte_backend_fftw.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 87b4a24..a3e0650 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -111,7 +111,7 @@ struct plan_fftw<std::complex<float>, dir>{
     plan_fftw(int size, int howmanyffts, int stride, int dist) :
         plan(fftwf_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                 ))
         {}
     /*!
@@ -130,12 +130,12 @@ struct plan_fftw<std::complex<float>, dir>{
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                       );
         }else{
             plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                     nullptr, embed.data(), stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                       );
         }
     }
@@ -143,7 +143,7 @@ struct plan_fftw<std::complex<float>, dir>{
     plan_fftw(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         plan = fftwf_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE);
+                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Destructor, deletes the plan.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
@@ -162,7 +162,7 @@ struct plan_fftw<std::complex<double>, dir>{
     plan_fftw(int size, int howmanyffts, int stride, int dist) :
         plan(fftw_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                    nullptr, nullptr, stride, dist,
-                                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                ))
         {}
     //! \brief Identical to the float-complex specialization.
@@ -172,12 +172,12 @@ struct plan_fftw<std::complex<double>, dir>{
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                       nullptr, nullptr, stride, dist,
-                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                      );
         }else{
             plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                       nullptr, embed.data(), stride, dist,
-                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                      );
         }
     }
@@ -185,7 +185,7 @@ struct plan_fftw<std::complex<double>, dir>{
     plan_fftw(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         plan = fftw_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE);
+                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
@@ -365,11 +365,11 @@ struct plan_fftw<float, dir>{
         plan = (dir == direction::forward) ?
              fftwf_plan_many_dft_r2c(1, &size, howmanyffts, rarray, nullptr, stride, rdist,
                                                    carray, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
              fftwf_plan_many_dft_c2r(1, &size, howmanyffts, carray, nullptr, stride, cdist,
                                                    rarray, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    );
     }
     //! \brief Identical to the float-complex specialization.
@@ -393,11 +393,11 @@ struct plan_fftw<double, dir>{
         plan = (dir == direction::forward) ?
              fftw_plan_many_dft_r2c(1, &size, howmanyffts, rarray, nullptr, stride, rdist,
                                                    carray, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
              fftw_plan_many_dft_c2r(1, &size, howmanyffts, carray, nullptr, stride, cdist,
                                                    rarray, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    );
     }
     //! \brief Identical to the float-complex specialization.
@@ -542,7 +542,7 @@ struct plan_fftw_r2r{
     plan_fftw_r2r(int size, int howmanyffts, int stride, int dist){
         auto kind = make_kind_array<1>();
         plan = fftw_r2r_types<scalar_type>::plan_many(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
-                                                      nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE);
+                                                      nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw_r2r(int size1, int size2, std::array<int, 2> const &embed, int howmanyffts, int stride, int dist){
@@ -551,17 +551,17 @@ struct plan_fftw_r2r{
 
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
-                                                          nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE);
+                                                          nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
         }else{
             plan = fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
-                                                          nullptr, embed.data(), stride, dist, kind.data(), FFTW_ESTIMATE);
+                                                          nullptr, embed.data(), stride, dist, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
         }
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw_r2r(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         auto kind = make_kind_array<3>();
-        plan = fftw_r2r_types<scalar_type>::plan_many(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1, kind.data(), FFTW_ESTIMATE);
+        plan = fftw_r2r_types<scalar_type>::plan_many(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Make the array with the kind of the transform.
     template<size_t dims> static std::array<fftw_r2r_kind, dims> make_kind_array() {
-- 
2.43.0


From a35789a27c7459abb98d0f8677b7627ae1289580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 06/23] fix: proc_setup_min_surface skipped valid processor
 grids

The divisor test used the clamped upper limit instead of the number of ranks
left, e.g., 4 ranks on a 1x3x2 world found no grid at all.
---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index e030715..d9ff603 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -668,7 +668,7 @@ inline std::array<int, 3> proc_setup_min_surface(box3d<index> const world, int n
         if (num_procs % i == 0){
             int const j_max = std::min((index)(num_procs / i), all_indexes[1]);
             for(int j=1; j<=j_max; j++){
-                if (j_max % j == 0){
+                if ((num_procs / i) % j == 0){
                     int const k = num_procs / (i * j);
                     if (k <= all_indexes[2]){
                         if (i * j * k == num_procs) {
-- 
2.43.0


From f45a4fdc41b571810380f6a7f024c44babdee6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:24 +0000
Subject: [PATCH 07/23] fix: the C interface must report every exception of the
 plan creation

heffte_plan_create() and heffte_plan_create_r2c() return 2 on internal exception
but invalid boxes throw std::invalid_argument and the options were translated
outside of the try block, the exception left the extern C function. The plan
pointer was also left dangling.
---
 src/heffte_c.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 75bf9e1..32c005c 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -243,9 +243,10 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
+
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d<heffte::backend::stock>(inbox, outbox, comm, cpp_opts));
     }
@@ -270,9 +271,9 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
@@ -297,9 +298,10 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
+
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d_r2c<heffte::backend::stock>(inbox, outbox, r2c_direction, comm, cpp_opts));
     }
@@ -324,9 +326,9 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
-- 
2.43.0


From 227605c6ca4044aeaf635012bce5640934554fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:24 +0000
Subject: [PATCH 08/23] fix: heffte_set_default_options left use_gpu_aware
 uninitialised

---
 src/heffte_c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 32c005c..42ff063 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -223,6 +223,7 @@ int heffte_set_default_options(int backend, heffte_plan_options *options){
     options->use_reorder = (opts.use_reorder) ? 1 : 0;
     options->algorithm = Heffte_RESHAPE_ALGORITHM_ALLTOALLV;
     options->use_pencils = (opts.use_pencils) ? 1 : 0;
+    options->use_gpu_aware = (opts.use_gpu_aware) ? 1 : 0;
     return Heffte_SUCCESS;
 }
 
-- 
2.43.0


From d131e22668e976bf1948c2e5ccf0cc64099ec59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:31 +0000
Subject: [PATCH 09/23] fix: check the input size in the vector variants of the
 complex-to-real backward transform

fft3d::backward_real() and fft3d_r2c::backward() read past the end of a short
vector where all other vector variants throw std::invalid_argument.
---
 include/heffte_fft3d.h     | 2 ++
 include/heffte_fft3d_r2c.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 95d22ff..c771ba7 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -536,6 +536,8 @@ public:
     real_buffer_container<scalar_type> backward_real(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(not backend::uses_fft_types<backend_tag>::value or is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename transform_real_type<scalar_type, backend_tag>::type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e95ef47..e450e65 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -286,6 +286,8 @@ public:
     real_buffer_container<scalar_type> backward(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename define_standard_type<scalar_type>::type::value_type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
-- 
2.43.0


From 245e3ff95b7ec5679e0d8538a475343b4479446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:29 +0000
Subject: [PATCH 10/23] fix: the overlap of boxes with more than 2^31 indexes
 was truncated

---
 include/heffte_geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index d9ff603..8889b25 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -506,10 +506,10 @@ inline std::vector<box3d<index>> maximize_overlap(std::vector<box3d<index>> cons
         }
         // for each box in the result, find the box among the new_boxes
         // that has not been taken and has the largest overlap with the corresponding old box
-        int max_overlap = -1;
+        long long max_overlap = -1;
         size_t max_index = new_boxes.size();
         for(size_t j=0; j<new_boxes.size(); j++){
-            int overlap = old_boxes[i].collide(new_boxes[j]).count();
+            long long overlap = old_boxes[i].collide(new_boxes[j]).count();
             if (not taken[j] and overlap > max_overlap){
                 max_overlap = overlap;
                 max_index = j;
-- 
2.43.0


From a6fb7eff717244d60c68e44c41b8b9b6e342e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:13 +0000
Subject: [PATCH 11/23] fix: stock FFT treats squares of primes above 1213 as
 primes

factor() stopped one candidate short of the square root, so N = p*p (e.g. 1217*1217)
was handed to Rader's algorithm, which requires a prime length.
---
 include/stock_fft/heffte_stock_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stock_fft/heffte_stock_tree.h b/include/stock_fft/heffte_stock_tree.h
index 4ecdc59..c635eef 100644
--- a/include/stock_fft/heffte_stock_tree.h
+++ b/include/stock_fft/heffte_stock_tree.h
@@ -48,7 +48,7 @@ inline size_t factor(const size_t f) {
     }
 
     // If none of those work, turn to odd numbers that are greater than the last index
-    for(k = factors[k - 1]; k*k < f; k+=2) {
+    for(k = factors[k - 1]; k*k <= f; k+=2) {
         if( f % k == 0 ) return k;
     }
 
-- 
2.43.0


From 6a14c1a90089e5034993bb58e10dee73afd073b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:13 +0000
Subject: [PATCH 12/23] fix: stock FFT loses accuracy for lengths with large
 prime factors

The direct DFT formed its twiddle factors by repeated multiplication, the rounding error
grows with the square of the length: 18% at length 2003 and nothing correct at 10007 in
single precision. The twiddle angles of Rader's algorithm were computed in the working
precision from numbers many times larger than the period. Leaf nodes now tabulate the
factors once and the angle is reduced with integers.
---
 include/stock_fft/heffte_stock_algos.h | 59 ++++++++++++++------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/include/stock_fft/heffte_stock_algos.h b/include/stock_fft/heffte_stock_algos.h
index 50cfbcd..5b33e58 100644
--- a/include/stock_fft/heffte_stock_algos.h
+++ b/include/stock_fft/heffte_stock_algos.h
@@ -34,8 +34,9 @@ struct biFuncNode;
 template<typename F, int L>
 struct omega {
     static inline Complex<F, L> get(size_t power, size_t N, direction dir) {
-        F a = 2.*M_PI*((F) power)/((F) N);
-        return Complex<F,L>(cos(a), direction_sign(dir)*sin(a));
+        // reduce the angle with integers and use double precision, power can be many times larger than N
+        double a = 2.*M_PI*static_cast<double>(power % N)/static_cast<double>(N);
+        return Complex<F,L>(static_cast<F>(cos(a)), static_cast<F>(direction_sign(dir)*sin(a)));
     }
 };
 
@@ -68,6 +69,15 @@ class Fourier_Transform {
         }
 };
 
+// Internal helper function to tabulate the twiddle factors of the forward DFT,
+// forming the powers by repeated multiplication accumulates rounding errors proportional to the square of the size
+template<typename F, int L>
+inline void DFT_twiddles(size_t size, Complex<F,L>* w) {
+    for(size_t k = 0; k < size; k++) {
+        w[k] = omega<F,L>::get(k, size, direction::forward);
+    }
+}
+
 /*! \ingroup stockbackend
  * \brief Class to represent the call-graph nodes
  *
@@ -82,27 +92,15 @@ struct biFuncNode {
     size_t right = 0;            // Offset in array until right child
     complex_vector<F,L> workspace; // Workspace
     biFuncNode(): fptr(fft_type::discrete) {};
-    biFuncNode(size_t sig_size, fft_type type): sz(sig_size), fptr(type), workspace(sig_size) {}; // Create default constructor
+    biFuncNode(size_t sig_size, fft_type type): sz(sig_size), fptr(type), workspace(sig_size) { // Create default constructor
+        if(type == fft_type::discrete) DFT_twiddles(sz, workspace.data()); // the leaf nodes keep the table of twiddle factors
+    };
     biFuncNode(size_t sig_size, size_t a, size_t ainv): sz(sig_size), fptr(a,ainv), workspace(sig_size) {};
 };
 
-// Internal helper function to perform a DFT
+// Internal helper function to perform a DFT given the table of the forward twiddle factors
 template<typename F, int L>
-inline void DFT_helper(size_t size, Complex<F,L>* sig_in, Complex<F,L>* sig_out, size_t s_in, size_t s_out, direction dir) {
-    if(size == 1) {
-        sig_out[0] = sig_in[0];
-        return;
-    }
-
-    // Twiddle with smallest numerator
-    Complex<F,L> w0 = omega<F,L>::get(1, size, dir);
-
-    // Base twiddle for each outer iteration
-    Complex<F,L> wk = w0;
-
-    // Twiddle for inner iterations
-    Complex<F,L> wkn = w0;
-
+inline void DFT_helper(size_t size, Complex<F,L>* w, Complex<F,L>* sig_in, Complex<F,L>* sig_out, size_t s_in, size_t s_out, direction dir) {
     // Calculate first element of output
     Complex<F,L> tmp = sig_in[0];
     for(size_t n = 1; n < size; n++) {
@@ -115,23 +113,30 @@ inline void DFT_helper(size_t size, Complex<F,L>* sig_in, Complex<F,L>* sig_out,
         // Initialize kth output
         tmp = sig_in[0];
 
-        // Calculate kth output
+        // Calculate kth output, the backward twiddles follow in the opposite order
+        size_t const step = (dir == direction::forward) ? k : size - k;
+        size_t kn = 0;
         for(size_t n = 1; n < size; n++) {
-            tmp = wkn.fmadd(sig_in[n*s_in], tmp);
-            wkn *= wk;
+            kn += step;
+            if(kn >= size) kn -= size;
+            tmp = w[kn].fmadd(sig_in[n*s_in], tmp);
         }
         sig_out[k*s_out] = tmp;
-
-        // "Increment" wk and "reset" wkn
-        wk *= w0;
-        wkn = wk;
     }
 }
 
+// Internal helper function to perform a DFT
+template<typename F, int L>
+inline void DFT_helper(size_t size, Complex<F,L>* sig_in, Complex<F,L>* sig_out, size_t s_in, size_t s_out, direction dir) {
+    complex_vector<F,L> w(size);
+    DFT_twiddles(size, w.data());
+    DFT_helper(size, w.data(), sig_in, sig_out, s_in, s_out, dir);
+}
+
 // External-facing function to properly call the internal DFT function
 template<typename F, int L>
 inline void DFT(Complex<F,L>* x, Complex<F,L>* y, size_t s_in, size_t s_out, biFuncNode<F,L>* sLeaf, direction dir) {
-    DFT_helper(sLeaf->sz, x, y, s_in, s_out, dir);
+    DFT_helper(sLeaf->sz, sLeaf->workspace.data(), x, y, s_in, s_out, dir);
 }
 
 // Recursive helper function implementing a classic C-T FFT
-- 
2.43.0


From 6d62caad0aa76c35cc95f5fa04c7587a667d9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 13/23] fix: python plan_options misses the last field of
 heffte_plan_options

The C interface reads use_gpu_aware from the memory behind the ctypes object.
---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 4ffa2b0..f3a2c6e 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -38,7 +38,7 @@ class heffte_plan(Structure):
 LP_plan = POINTER(heffte_plan)
 
 class plan_options(Structure):
-    _fields_ = [ ("use_reorder", c_int), ("use_alltoall", c_int), ("use_pencils", c_int) ]
+    _fields_ = [ ("use_reorder", c_int), ("use_alltoall", c_int), ("use_pencils", c_int), ("use_gpu_aware", c_int) ]
 
 # double-check this!
 MPI_Comm = c_int if mpi._sizeof(mpi.COMM_WORLD) == sizeof(c_int) else c_void_p
-- 
2.43.0


From 1af9a67b25377857a301af7266df1634efa55883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 14/23] fix: python backward() compares the arrays with the
 sizes of the wrong boxes

Whenever inbox and outbox differ, valid arrays are refused and arrays that
are too short pass the check.
---
 python/heffte.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index f3a2c6e..750c7fd 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -316,7 +316,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if self.use_r2c:
@@ -359,7 +359,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if self.use_r2c:
-- 
2.43.0


From dd61895df0d8c4c6bd65e60cb2c83450a0bba30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 15/23] fix: python backward_buffered() does not check the size
 of the workspace

---
 python/heffte.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/heffte.py b/python/heffte.py
index 750c7fd..88e89ff 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -362,6 +362,9 @@ class heffte_fft_plan:
         if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
+        if workspace.size < self.size_workspace():
+            raise heffte_input_error("backward() called with insufficient workspace size")
+
         if self.use_r2c:
             if outarray.dtype == np.complex64 or outarray.dtype == np.complex128:
                 raise heffte_input_error("backward() called with r2c can use only real outarray types")
-- 
2.43.0


From 94366043c0a098458af2dcf7c65c6bcc38101944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 16/23] fix: python fft3d_r2c() does not mark the plan as r2c

Complex input passes the type check and the plan is used as a plan of another class.
---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 88e89ff..e8a7ecd 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -174,7 +174,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
         raise heffte_input_error("fft3d_r2c() called with invalid r2c_direction, must use 0, 1, or 2")
 
     plan = heffte_fft_plan()
-    plan.use_r2c = False
+    plan.use_r2c = True
 
     # Define ctypes API for each library method
     comm_value = MPI_Comm.from_address( mpi._addressof(comm) )
-- 
2.43.0


From bdc352558f13961030add2e47700d59d65c46a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 17/23] fix: python crashes when the creation of a plan fails

The destructor of the plan object hands the NULL pointer to heffte_plan_destroy().
---
 python/heffte.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index e8a7ecd..b28806e 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -199,10 +199,11 @@ class heffte_fft_plan:
 
         Use one of the factory methods, either fft3d() or fft3d_r2c().
         '''
-        pass
+        self.plan = LP_plan()
 
     def __del__(self):
-        libheffte.heffte_plan_destroy(self.plan)
+        if self.plan: # no plan has been created if the factory method failed
+            libheffte.heffte_plan_destroy(self.plan)
 
     def _get_ctypes_data(self, x, xtype):
         '''
-- 
2.43.0


From 59283150a405b641d63001aaf1d7448a72e27e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 18/23] fix: python proc_setup() and split_world() use missing
 members of box3d

Both fail on every call; with float division the boxes would overlap when the
world is not divisible by the grid.
---
 python/heffte.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index b28806e..ebe98ca 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -130,6 +130,13 @@ class box3d:
         assert self.order.size == 3
         for i in range(3):
             assert self.order[i] in [0, 1, 2]
+        self.size = self.high - self.low + 1
+
+    def count(self):
+        '''
+        Returns the number of indexes in the box.
+        '''
+        return int(np.prod(self.size, dtype = np.int64))
 
 def fft3d(backend_tag, inbox, outbox, comm):
     '''
@@ -454,9 +461,9 @@ def proc_setup(world, num_procs):
     return best_grid
 
 def split_world(world, proc_grid):
-    fast = lambda i : world.low[0] + i * (world.size[0] / proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
-    mid  = lambda i : world.low[1] + i * (world.size[1] / proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
-    slow = lambda i : world.low[2] + i * (world.size[2] / proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
+    fast = lambda i : world.low[0] + i * (world.size[0] // proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
+    mid  = lambda i : world.low[1] + i * (world.size[1] // proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
+    slow = lambda i : world.low[2] + i * (world.size[2] // proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
 
     result = []
     for k in np.arange(proc_grid[2]):
-- 
2.43.0


From 62a0aaf070afcadbaf397ca2e74acb070ba3a8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 19/23] fix: python heffte_input_error.print_what() uses an
 undefined name

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index ebe98ca..f5719ee 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -31,7 +31,7 @@ class heffte_input_error(Exception):
         '''
         Prints the message set by the constructor.
         '''
-        print(message)
+        print(self.message)
 
 class heffte_plan(Structure):
     _fields_ = [ ("backend_type", c_int), ("using_r2c", c_int), ("fft", c_void_p) ]
-- 
2.43.0


From ef482fa40634841142f05890aaeff741848e661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:16 +0000
Subject: [PATCH 20/23] fix: the trace names the wrong rank in the unpacking
 events of the point-to-point reshape

---
 src/heffte_reshape3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heffte_reshape3d.cpp b/src/heffte_reshape3d.cpp
index 5f39b89..1ea7f63 100644
--- a/src/heffte_reshape3d.cpp
+++ b/src/heffte_reshape3d.cpp
@@ -701,7 +701,7 @@ void reshape3d_pointtopoint<location_tag, packer, index>::apply_base(int batch_s
             gpu::synchronize_default_stream();
         #endif
 
-        { heffte::add_trace name("unpacking from " + std::to_string(irecv));
+        { heffte::add_trace name("unpacking from " + std::to_string(recv_proc[irecv]));
             for(int j=0; j<batch_size; j++){
                 packit.unpack(this->stream(), unpackplan[irecv], recv_buffer + batch_size * recv_loc[irecv] + j * recv_size[irecv],
                               destination + j * this->output_size + recv_offset[irecv]);
-- 
2.43.0


From 54bd95b910e623c1b9ffc0edd0b8714815b9ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 21/23] fix: use_subcomm() must restrict the intermediate
 operations to the given ranks

---
 include/heffte_fft3d.h      |  4 ++--
 include/heffte_fft3d_r2c.h  |  4 ++--
 include/heffte_geometry.h   |  2 ++
 include/heffte_plan_logic.h | 14 ++++++++++++--
 src/heffte_plan_logic.cpp   | 11 +++++++----
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index c771ba7..09da8a9 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -269,7 +269,7 @@ public:
      */
     fft3d(box3d<index> const inbox, box3d<index> const outbox, MPI_Comm const comm,
           plan_options const options = default_options<backend_tag>()) :
-        fft3d(plan_operations(mpi::gather_boxes(inbox, outbox, comm), -1, set_options<backend_tag>(options), mpi::comm_rank(comm)), comm){
+        fft3d(plan_operations(mpi::gather_boxes(inbox, outbox, comm), -1, set_options<backend_tag>(options), mpi::comm_rank(comm), comm), comm){
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
     }
     /*!
@@ -292,7 +292,7 @@ public:
     fft3d(typename backend::device_instance<location_tag>::stream_type gpu_stream,
           box3d<index> const inbox, box3d<index> const outbox, MPI_Comm const comm,
           plan_options const options = default_options<backend_tag>()) :
-        fft3d(gpu_stream, plan_operations(mpi::gather_boxes(inbox, outbox, comm), -1, set_options<backend_tag>(options), mpi::comm_rank(comm)), comm){
+        fft3d(gpu_stream, plan_operations(mpi::gather_boxes(inbox, outbox, comm), -1, set_options<backend_tag>(options), mpi::comm_rank(comm), comm), comm){
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
     }
 
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e450e65..ccbb126 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -75,7 +75,7 @@ public:
      */
     fft3d_r2c(box3d<index> const inbox, box3d<index> const outbox, int r2c_direction, MPI_Comm const comm,
               plan_options const options = default_options<backend_tag>()) :
-        fft3d_r2c(plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm)), comm){
+        fft3d_r2c(plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm), comm), comm){
         assert(r2c_direction == 0 or r2c_direction == 1 or r2c_direction == 2);
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
     }
@@ -86,7 +86,7 @@ public:
               box3d<index> const inbox, box3d<index> const outbox, int r2c_direction, MPI_Comm const comm,
               plan_options const options = default_options<backend_tag>()) :
         fft3d_r2c(gpu_stream,
-                  plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm)),
+                  plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm), comm),
                   comm){
         assert(r2c_direction == 0 or r2c_direction == 1 or r2c_direction == 2);
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index 8889b25..92eb1a0 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -197,6 +197,8 @@ struct rank_remap{
         int subcomm_rank = (subcomm == MPI_COMM_NULL) ? -1 : mpi::comm_rank(subcomm);
         map = std::vector<int>(mpi::comm_size(global));
         MPI_Allgather(&subcomm_rank, 1, MPI_INT, map.data(), 1, MPI_INT, global);
+        size_subcomm = static_cast<int>(map.size() - std::count(map.begin(), map.end(), -1));
+        if (size_subcomm == 0) map.clear(); // no rank has a valid subcomm, use all ranks
     }
     //! \brief The number of ranks in the sub-comm.
     int size_subcomm;
diff --git a/include/heffte_plan_logic.h b/include/heffte_plan_logic.h
index 3884720..f16b8d6 100644
--- a/include/heffte_plan_logic.h
+++ b/include/heffte_plan_logic.h
@@ -136,11 +136,12 @@ struct plan_options{
           use_pencils(true),
           use_gpu_aware(true),
           num_sub(-1),
+          with_subcomm(false),
           subcomm(MPI_COMM_NULL)
     {}
     //! \brief Constructor, initializes each variable, primarily for internal use.
     plan_options(bool reorder, reshape_algorithm alg, bool pencils)
-        : use_reorder(reorder), algorithm(alg), use_pencils(pencils), use_gpu_aware(true), num_sub(-1), subcomm(MPI_COMM_NULL)
+        : use_reorder(reorder), algorithm(alg), use_pencils(pencils), use_gpu_aware(true), num_sub(-1), with_subcomm(false), subcomm(MPI_COMM_NULL)
     {}
     //! \brief Defines whether to transpose the data on reshape or to use strided 1-D ffts.
     bool use_reorder;
@@ -166,12 +167,18 @@ struct plan_options{
      */
     void use_subcomm(MPI_Comm comm){
         num_sub = 1;
+        with_subcomm = true;
         subcomm = comm;
     }
     //! \brief Return the set number of sub-ranks.
     int get_subranks() const{ return num_sub; }
+    //! \brief Returns true if use_subcomm() has been called.
+    bool using_subcomm() const{ return with_subcomm; }
+    //! \brief Return the set sub-communicator, MPI_COMM_NULL if this rank does not belong to the sub-communicator.
+    MPI_Comm get_subcomm() const{ return subcomm; }
 private:
     int num_sub;
+    bool with_subcomm;
     MPI_Comm subcomm;
 };
 
@@ -312,11 +319,14 @@ inline std::array<bool, 3> pencil_directions(box3d<index> const world, std::vect
  * \param r2c_direction is the direction is the direction of shrinking of the data for an r2c transform
  *              the c2c case should use -1
  * \param options is a set of heffte::plan_options to use
+ * \param mpi_rank is the rank of this process in the MPI comm
+ * \param comm is the MPI comm, needed only when the options use a sub-communicator
  *
  * \returns the plan for reshape and 1-D fft transformations
  */
 template<typename index>
-logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_direction, plan_options const options, int const mpi_rank);
+logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_direction, plan_options const options, int const mpi_rank,
+                                    MPI_Comm const comm = MPI_COMM_NULL);
 
 /*!
  * \ingroup fft3dplan
diff --git a/src/heffte_plan_logic.cpp b/src/heffte_plan_logic.cpp
index 84c061c..83c4bb3 100644
--- a/src/heffte_plan_logic.cpp
+++ b/src/heffte_plan_logic.cpp
@@ -422,10 +422,13 @@ logic_plan3d<index> plan_slab_reshapes(box3d<index> world_in, box3d<index> world
 }
 
 template<typename index>
-logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_direction, plan_options const opts, int const mpi_rank){
+logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_direction, plan_options const opts, int const mpi_rank,
+                                    MPI_Comm const comm){
 
     rank_remap remap(mpi_rank);
-    if (opts.get_subranks() > 0 and static_cast<size_t>(opts.get_subranks()) < boxes.in.size()){ // using sub-ranks
+    if (opts.using_subcomm()){ // using the ranks of a sub-communicator
+        if (comm != MPI_COMM_NULL) remap.set_subranks(comm, opts.get_subcomm());
+    }else if (opts.get_subranks() > 0 and static_cast<size_t>(opts.get_subranks()) < boxes.in.size()){ // using sub-ranks
         assert(opts.get_subranks() < static_cast<int>(boxes.in.size()));
         remap.set_subranks(boxes.in.size(), opts.get_subranks());
     }
@@ -453,9 +456,9 @@ logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_directi
 }
 
 //! \brief Instantiate for int.
-template logic_plan3d<int> plan_operations<int>(ioboxes<int> const&, int, plan_options const, int const);
+template logic_plan3d<int> plan_operations<int>(ioboxes<int> const&, int, plan_options const, int const, MPI_Comm const);
 //! \brief Instantiate for long long.
-template logic_plan3d<long long> plan_operations<long long>(ioboxes<long long> const&, int, plan_options const, int const);
+template logic_plan3d<long long> plan_operations<long long>(ioboxes<long long> const&, int, plan_options const, int const, MPI_Comm const);
 
 template<typename index>
 std::vector<std::array<int, 3>> compute_grids(logic_plan3d<index> const &plan){
-- 
2.43.0


From 1379729fd3d1d33df8ad53ff3500fee6daeb0333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 22/23] fix: the r2c shape of an empty box lost the order of
 the box

---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index 92eb1a0..9c6c22b 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -94,7 +94,7 @@ struct box3d{
     }
     //! \brief Returns the box that is reduced in the given dimension according to the real-to-complex symmetry.
     box3d r2c(int dimension) const{
-        if (empty()) return box3d({0, 0, 0}, {-1, -1, -1});
+        if (empty()) return box3d({0, 0, 0}, {-1, -1, -1}, order);
         switch(dimension){
             case 0: return box3d(low, {low[0] + size[0] / 2, high[1], high[2]}, order);
             case 1: return box3d(low, {high[0], low[1] + size[1] / 2, high[2]}, order);
-- 
2.43.0


From f41ffa2349cd0ba280c2db793a98dc437cb53b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:02 +0000
Subject: [PATCH 23/23] fix: Python transforms must refuse arrays that are not
 contiguous

---
 python/heffte.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/heffte.py b/python/heffte.py
index f5719ee..06ba2a3 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -217,6 +217,8 @@ class heffte_fft_plan:
         Internal use, extracts ctypes array from x
         '''
         if type(x) is np.ndarray:
+            if not (x.flags.c_contiguous or x.flags.f_contiguous):
+                raise heffte_input_error("the arrays must be contiguous, the library cannot work with strided views")
             return x.ctypes.data_as(xtype)
         else:
             return cast(x.device_ctypes_pointer.value, xtype)
-- 
2.43.0

