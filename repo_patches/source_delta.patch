From 3dbeeb4165e4687de814a36fdf0e82cd3478180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 01/49] fix: TensorMath::COL2IM bounds the column index by the
 width, not the row index

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index f1cbebe..767a1af 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -332,7 +332,7 @@ void TensorMath::COL2IM(Tensor& source, const int source_width, const int source
           if(iy >= 0 && iy < source_height) {
             for(int ox = 0; ox < target_width; ox++) {
               int ix = ox * stride_width - pad_width + kx;
-              if(ix >= 0 && iy < source_width) {
+              if(ix >= 0 && ix < source_width) {
                 source_ptr[(imap * source_height + iy) * source_width + ix] +=
                   target_ptr[(sample * target_height + oy) * target_width + ox];
               } 
-- 
2.43.0


From 9d130564ffaf2289deedc65eaa58abebf2f285f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 02/49] fix: local response normalization covers every column
 of non-square maps

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index efadf67..808d934 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -83,7 +83,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -103,7 +103,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
@@ -135,7 +135,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -163,7 +163,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
-- 
2.43.0


From 2c060c1aadf97f724994e2c637b69da98b124ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 03/49] fix: H-Max weight gradients apply the chain rule

---
 src/net/HMaxActivationFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 49c2684..aa707f2 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -168,8 +168,8 @@ void HMaxActivationFunction::BackPropagate() {
     datum input_delta = output_delta * a * output_mix; 
     
     // Calculate gradient of the output w.r.t. to weights
-    delta_a += output_mix * input_data;
-    delta_b += output_mix;
+    delta_a += output_delta * output_mix * input_data;
+    delta_b += output_delta * output_mix;
 
     // handle the KL divergence regularization;
     // We need to add the derivative of eq. (4) w.r.t. x here to input_delta
-- 
2.43.0


From bdbefd5ac3000c152ff5d27a23b9d2c6cc0cc52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 04/49] fix: moving a Tensor takes over shadow and memory map
 ownership

---
 src/util/Tensor.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d927f44..e060f6b 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -74,6 +74,18 @@ Tensor::Tensor ( Tensor && tensor ) {
   height_ = tensor.height_;
   elements_ = tensor.elements_;
 
+  // The new Tensor is responsible for the memory in the same way
+  is_shadow_ = tensor.is_shadow_;
+  shadow_target_ = tensor.shadow_target_;
+  mmapped_ = tensor.mmapped_;
+  original_mmap_ = tensor.original_mmap_;
+  tensor.mmapped_ = false;
+  tensor.original_mmap_ = nullptr;
+#ifdef BUILD_OPENCL
+  cl_data_ptr_ = tensor.cl_data_ptr_;
+  tensor.cl_data_ptr_ = 0;
+#endif
+
   tensor.data_ptr_ = nullptr;
   tensor.DeleteIfPossible();
 }
-- 
2.43.0


From 11eb2073408f5afb9f7d63c8a8df85bdbf2b1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 05/49] fix: reloading a mapped tensor no longer unmaps the new
 mapping

---
 src/util/CompressedTensor.cpp | 2 ++
 src/util/Tensor.cpp           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index b8a76a5..6fdbc92 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -156,6 +156,8 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
+      // Release the old memory before its mapping is forgotten
+      DeleteIfPossible();
       original_mmap_ = target_mmap;
       
       target_mmap = (void*)(((long)target_mmap) + offset_in_page);
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index e060f6b..1549e5b 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -316,6 +316,8 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
+      // Release the old memory before its mapping is forgotten
+      DeleteIfPossible();
       original_mmap_ = target_mmap;
       
       target_mmap = (void*)(((long)target_mmap) + offset_in_page);
-- 
2.43.0


From c8ac67b73ef8e66edcbeb6fb35df010f46a22387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 06/49] fix: unmap the whole mapping of a tensor, including the
 page offset

---
 src/util/CompressedTensor.cpp | 2 +-
 src/util/Tensor.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 6fdbc92..1786bf0 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -175,7 +175,7 @@ void CompressedTensor::DeleteIfPossible() {
   if ( compressed_data_ptr_ != nullptr ) {
 #ifdef BUILD_POSIX
     if(mmapped_) {
-      munmap((void*)original_mmap_, compressed_length_);
+      munmap((void*)original_mmap_, (compressed_data_ptr_ - (char*)original_mmap_) + compressed_length_);
       original_mmap_ = nullptr;
       mmapped_ = false;
     } else {
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 1549e5b..4957171 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -411,7 +411,7 @@ void Tensor::DeleteIfPossible() {
     if ( !is_shadow_ ) {
 #ifdef BUILD_POSIX
       if(mmapped_) {
-        munmap((void*)original_mmap_, (elements_ * sizeof(datum)) / sizeof(char));
+        munmap((void*)original_mmap_, ((char*)data_ptr_ - (char*)original_mmap_) + (elements_ * sizeof(datum)) / sizeof(char));
         original_mmap_ = nullptr;
         mmapped_ = false;
       } else {
-- 
2.43.0


From 61d513ad01a07c9c24bba2cb9bc57bb26df985cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 07/49] fix: a failed memory map is fatal instead of being used
 as memory

---
 src/util/CompressedTensor.cpp | 2 +-
 src/util/Tensor.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 1786bf0..a166707 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -154,7 +154,7 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       void* target_mmap = mmap(NULL, compressed_length + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #endif
       if(target_mmap == MAP_FAILED) {
-        LOGERROR << "Memory map failed: " << errno;
+        FATAL("Memory map failed: " << errno);
       }
       // Release the old memory before its mapping is forgotten
       DeleteIfPossible();
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 4957171..37dc46a 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -314,7 +314,7 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       void* target_mmap = mmap(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #endif
       if(target_mmap == MAP_FAILED) {
-        LOGERROR << "Memory map failed: " << errno;
+        FATAL("Memory map failed: " << errno);
       }
       // Release the old memory before its mapping is forgotten
       DeleteIfPossible();
-- 
2.43.0


From bd4d9c99b0e73ed793a2f4bab7dfbcd793d5ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 08/49] fix: Tensor owns the memory it allocates after
 shadowing an empty Tensor

---
 src/util/Tensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 37dc46a..5331bce 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -168,6 +168,9 @@ void Tensor::Resize ( const std::size_t samples, const std::size_t width,
 #else
     data_ptr_ = new datum[elements];
 #endif
+    // This memory is our own, even if an empty Tensor was shadowed before
+    is_shadow_ = false;
+    shadow_target_ = nullptr;
   }
 
   // Save configuration
-- 
2.43.0


From 95252f2b42d4db56d77110f93df00606542b3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 09/49] fix: MaxPoolingLayer validates the dimensions of its
 nodes

---
 src/net/MaxPoolingLayer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 997e6e4..a40ebc5 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -71,8 +71,11 @@ bool MaxPoolingLayer::CreateOutputs (
 
 bool MaxPoolingLayer::Connect (const CombinedTensor* input,
                                CombinedTensor* output) {
-  // TODO Validate dimensions
-  bool valid = true;
+  // Validate dimensions
+  bool valid = output->data.samples() == input->data.samples() &&
+               output->data.width() * region_width_ == input->data.width() &&
+               output->data.height() * region_height_ == input->data.height() &&
+               output->data.maps() == input->data.maps();
 
   if (!valid) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From a94b6622b621e4a36bec0cb57bb48dfa4a323d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 10/49] fix: InputDownSamplingLayer validates the dimensions of
 its nodes

---
 src/net/InputDownSamplingLayer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/net/InputDownSamplingLayer.cpp b/src/net/InputDownSamplingLayer.cpp
index b2adf29..4744432 100644
--- a/src/net/InputDownSamplingLayer.cpp
+++ b/src/net/InputDownSamplingLayer.cpp
@@ -58,8 +58,11 @@ bool InputDownSamplingLayer::CreateOutputs (
 
 bool InputDownSamplingLayer::Connect (const CombinedTensor* input,
                                CombinedTensor* output) {
-  // TODO Validate dimensions
-  bool valid = true;
+  // Validate dimensions
+  bool valid = output->data.samples() == input->data.samples() &&
+               output->data.width() * region_width_ == input->data.width() &&
+               output->data.height() * region_height_ == input->data.height() &&
+               output->data.maps() == input->data.maps();
 
   if (!valid) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From 90f0abae3bf96225f89d497d09f26187ea0689ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 11/49] fix: UpscaleLayer validates the dimensions of its nodes

---
 src/net/UpscaleLayer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/net/UpscaleLayer.cpp b/src/net/UpscaleLayer.cpp
index 259dd57..6fd0978 100644
--- a/src/net/UpscaleLayer.cpp
+++ b/src/net/UpscaleLayer.cpp
@@ -51,8 +51,11 @@ bool UpscaleLayer::CreateOutputs (
 
 bool UpscaleLayer::Connect ( const CombinedTensor* input,
                              CombinedTensor* output ) {
-  // TODO Validate dimensions
-  bool valid = true;
+  // Validate dimensions
+  bool valid = output->data.samples() == input->data.samples() &&
+               output->data.width() == input->data.width() * region_width_ &&
+               output->data.height() == input->data.height() * region_height_ &&
+               output->data.maps() == input->data.maps();
 
   if ( !valid ) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From b22caec1b5725426850462d53fabf1ed2ca08ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 12/49] fix: LocalResponseNormalizationLayer validates the
 dimensions of its nodes

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index 808d934..c2c8f60 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -54,9 +54,11 @@ bool LocalResponseNormalizationLayer::
 
 bool LocalResponseNormalizationLayer::
   Connect(const CombinedTensor* input, CombinedTensor* output) {
-  UNREFERENCED_PARAMETER(output);
-  // TODO Validate dimensions
-  bool valid = true;
+  // Validate dimensions
+  bool valid = output->data.samples() == input->data.samples() &&
+               output->data.width() == input->data.width() &&
+               output->data.height() == input->data.height() &&
+               output->data.maps() == input->data.maps();
 
   if (!valid) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From 41eb616049f8c3fa94e66d75870083f02d5c1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 13/49] fix: AdvancedMaxPoolingLayer validates the dimensions
 of its nodes

---
 src/net/AdvancedMaxPoolingLayer.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index e40d027..9a4d8e0 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -59,6 +59,12 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
     return false;
   }
 
+  // Validate dimensions
+  if (input->data.width() < region_width_ || input->data.height() < region_height_) {
+    LOGERROR << "Input dimensions are smaller than region dimensions!";
+    return false;
+  }
+
   const int output_width = ((int)input->data.width() - (int)region_width_ ) / (int)stride_width_ + 1;
   const int output_height = ((int)input->data.height() - (int)region_height_) / (int)stride_height_ + 1;
 
@@ -75,8 +81,12 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
   
 bool AdvancedMaxPoolingLayer::Connect (const CombinedTensor* input,
                                CombinedTensor* output) {
-  // TODO Validate dimensions
-  bool valid = true;
+  // Validate dimensions
+  bool valid = input->data.width() >= region_width_ && input->data.height() >= region_height_ &&
+               output->data.samples() == input->data.samples() &&
+               output->data.width() == (input->data.width() - region_width_) / stride_width_ + 1 &&
+               output->data.height() == (input->data.height() - region_height_) / stride_height_ + 1 &&
+               output->data.maps() == input->data.maps();
 
   if (!valid) {
     LOGERROR << "Invalid dimensions!";
-- 
2.43.0


From 13f62691e9868dcb872ee89607d465aac6abbc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 14/49] fix: ConvolutionLayer refuses oversized kernels and
 wrong sample or map counts

---
 src/net/ConvolutionLayer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 0b6e45c..3ede3b5 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -124,7 +124,10 @@ bool ConvolutionLayer::CreateOutputs (
   const int output_width = ((int)pad_width_ + (int)pad_width_ + (int)input->data.width() - (int)kernel_width_) / (int)stride_width_ + 1;
   const int output_height = ((int)pad_height_ + (int)pad_height_ + (int)input->data.height() - (int)kernel_height_) / (int)stride_height_ + 1;
   
-  if (output_width <= 0 || output_height <= 0) {
+  // The quotients are rounded towards zero, so a kernel that doesn't fit needs to be checked for
+  if (output_width <= 0 || output_height <= 0 ||
+      pad_width_ + pad_width_ + input->data.width() < kernel_width_ ||
+      pad_height_ + pad_height_ + input->data.height() < kernel_height_) {
     LOGERROR << "Unsupported input dimensions " << input->data;
     return false;
   }
@@ -147,6 +150,7 @@ bool ConvolutionLayer::Connect (const CombinedTensor* input,
                                 CombinedTensor* output) {
   bool valid =
     // input->data.width() >= kernel_width_ && input->data.height() >=  kernel_height_ &&
+    output->data.samples() == input->data.samples() && output->data.maps() == output_maps_ &&
     output->data.width() == (pad_width_ + pad_width_ + input->data.width() - kernel_width_) / stride_width_  + 1 &&
     output->data.height() == (pad_height_ + pad_height_ + input->data.height() - kernel_height_) / stride_height_ + 1;
 
-- 
2.43.0


From 82faf5a8631d1ba8f2fb4ad001beeb48b68abdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 15/49] fix: SumLayer refuses inputs and outputs with wrong
 dimensions

---
 src/net/SumLayer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index c599aa1..c80dc12 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -33,8 +33,9 @@ bool SumLayer::CreateOutputs (const std::vector< CombinedTensor* >& inputs,
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
@@ -87,7 +88,7 @@ bool SumLayer::Connect (const std::vector< CombinedTensor* >& inputs,
   }
   
   if((output->data.elements() != input_a->data.elements())
-    && (output_->data.elements() != input_b->data.elements())) {
+    || (output->data.elements() != input_b->data.elements())) {
     LOGERROR << "Wrong output dimensions!";
     return false;
   }
-- 
2.43.0


From d0dcd26538fac21788df9108d5e946c98bf4c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 16/49] fix: ConcatenationLayer refuses inputs and outputs with
 wrong dimensions

---
 src/net/ConcatenationLayer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/ConcatenationLayer.cpp b/src/net/ConcatenationLayer.cpp
index 25b7609..1e3bb51 100644
--- a/src/net/ConcatenationLayer.cpp
+++ b/src/net/ConcatenationLayer.cpp
@@ -32,8 +32,9 @@ bool ConcatenationLayer::CreateOutputs (const std::vector< CombinedTensor* >& in
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
-- 
2.43.0


From 011907b7d0845060217c75ccc08b0547d35ec8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 17/49] fix: GradientAccumulationLayer refuses null inputs and
 wrong output dimensions

---
 src/net/GradientAccumulationLayer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/net/GradientAccumulationLayer.cpp b/src/net/GradientAccumulationLayer.cpp
index 70fa9e5..5322553 100644
--- a/src/net/GradientAccumulationLayer.cpp
+++ b/src/net/GradientAccumulationLayer.cpp
@@ -34,6 +34,12 @@ bool GradientAccumulationLayer::CreateOutputs (const std::vector< CombinedTensor
   }
   
   CombinedTensor* input = inputs[0];
+  
+  if(input == nullptr) {
+    LOGERROR << "Null pointer supplied";
+    return false;
+  }
+  
   for(unsigned int i = 0; i < output_count_; i++) {
     CombinedTensor* output = new CombinedTensor(input->data.samples(),
                                                 input->data.width(),
@@ -78,6 +84,7 @@ bool GradientAccumulationLayer::Connect (const std::vector< CombinedTensor* >& i
     }
     if(input->data.elements() != outputs[i]->data.elements()) {
       LOGERROR << "Wrong output dimensions!";
+      return false;
     }
     outputs_.push_back(outputs[i]);
   }
-- 
2.43.0


From e129f802ec5794628694b3da62aa5ba7e4cd5a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 18/49] fix: ErrorLayer refuses a null helper node

---
 src/net/ErrorLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/ErrorLayer.cpp b/src/net/ErrorLayer.cpp
index cbd0450..287d300 100644
--- a/src/net/ErrorLayer.cpp
+++ b/src/net/ErrorLayer.cpp
@@ -72,7 +72,7 @@ bool ErrorLayer::Connect ( const std::vector< CombinedTensor* >& inputs,
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
-- 
2.43.0


From 6a2e62b8e7fd50c523258b5446d01ebd97afaa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 19/49] fix: BinaryStatLayer refuses a null helper node

---
 src/net/BinaryStatLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 19a1877..8df7b39 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -214,7 +214,7 @@ bool BinaryStatLayer::Connect ( const std::vector< CombinedTensor* >& inputs, co
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
-- 
2.43.0


From d75190136d4f6ebe4107951e7f4871fec7a73f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 20/49] fix: ConfusionMatrixLayer refuses a null helper node
 and mismatched inputs

---
 src/net/ConfusionMatrixLayer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 623e8e0..18ee4d7 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -135,6 +135,11 @@ bool ConfusionMatrixLayer::CreateOutputs (
     return false;
   }
 
+  if ( first->data.samples() != second->data.samples() ) {
+    LOGERROR << "Inputs need the same number of samples!";
+    return false;
+  }
+
   if ( first->data.elements() != second->data.elements() ) {
     LOGERROR << "Inputs need the same number of elements!";
     return false;
@@ -163,8 +168,9 @@ bool ConfusionMatrixLayer::Connect
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
+               first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
                outputs.size() == 0;
 
-- 
2.43.0


From 86f35190f14f61d517000b8b7f36aff155ceed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 21/49] fix: DatasetInputLayer checks its nodes before using
 them

---
 src/net/DatasetInputLayer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index d3f4d70..97bc8ee 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -118,12 +118,15 @@ bool DatasetInputLayer::Connect (const std::vector< CombinedTensor* >& inputs,
                                  const NetStatus* net) {
   UNREFERENCED_PARAMETER(net);
   // TODO validate
+  if (inputs.size() != 0 || outputs.size() != 4)
+    return false;
+
   CombinedTensor* data_output = outputs[0];
   CombinedTensor* label_output = outputs[1];
   CombinedTensor* helper_output = outputs[2];
   CombinedTensor* localized_error_output = outputs[3];
 
-  if (data_output == nullptr || label_output == nullptr ||
+  if (data_output == nullptr || label_output == nullptr || helper_output == nullptr ||
       localized_error_output == nullptr)
     return false;
 
-- 
2.43.0


From fb2070501d53afa7e9252c76800a728cf244dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 22/49] fix: reference GEMV uses the dimensions of a transposed
 matrix like BLAS does

---
 src/math/TensorMath.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 767a1af..3ee4c9d 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -135,10 +135,14 @@ void TensorMath::GEMV(const bool is_row_major, const bool transpose_A, const int
   const datum* x_ptr = X.data_ptr_const(0, 0, 0, smX);
   datum* y_ptr = Y.data_ptr(0, 0, 0, smY);
   
+  // M and N describe A as it is stored, like in BLAS
+  const int y_elements = transpose_A ? N : M;
+  const int x_elements = transpose_A ? M : N;
+
   #pragma omp parallel for default(shared)
-  for(int i = 0; i < M; i++) {
+  for(int i = 0; i < y_elements; i++) {
     datum sum = 0.0;
-    for(int j = 0; j < N; j++) {
+    for(int j = 0; j < x_elements; j++) {
       const datum a_value = transpose_A ?
         a_ptr[j * ldA + i]
       :
-- 
2.43.0


From 074bb392b347db17f58e6789f8220927277d575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 23/49] fix: error and statistics layers refuse tensors whose
 shapes do not fit together

---
 src/net/BinaryStatLayer.cpp      |  6 ++++++
 src/net/ConfusionMatrixLayer.cpp | 14 ++++++++++++++
 src/net/ErrorLayer.cpp           | 12 ++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 8df7b39..76ebdfa 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -194,6 +194,11 @@ bool BinaryStatLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inpu
     return false;
   }
 
+  if ( third->data.elements() < first->data.elements() ) {
+    LOGERROR << "Need a weight for every element!";
+    return false;
+  }
+
   if ( first->data.samples() != third->data.samples() ) {
     LOGERROR << "Inputs need the same number of samples!";
     return false;
@@ -218,6 +223,7 @@ bool BinaryStatLayer::Connect ( const std::vector< CombinedTensor* >& inputs, co
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
+               third->data.elements() >= first->data.elements() &&
                outputs.size() == 0;
 
   if ( valid ) {
diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 18ee4d7..68c6d6f 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -145,6 +145,15 @@ bool ConfusionMatrixLayer::CreateOutputs (
     return false;
   }
 
+  if ( first->data.width() != second->data.width() ||
+       first->data.height() != second->data.height() ||
+       third->data.width() < first->data.width() ||
+       third->data.height() < first->data.height() ||
+       first->data.maps() > classes_ ) {
+    LOGERROR << "Inputs need matching shapes!";
+    return false;
+  }
+
   if ( first->data.samples() != third->data.samples() ) {
     LOGERROR << "Inputs need the same number of samples!";
     return false;
@@ -172,6 +181,11 @@ bool ConfusionMatrixLayer::Connect
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
+               first->data.width() == second->data.width() &&
+               first->data.height() == second->data.height() &&
+               third->data.width() >= first->data.width() &&
+               third->data.height() >= first->data.height() &&
+               first->data.maps() <= classes_ &&
                outputs.size() == 0;
 
   if ( valid ) {
diff --git a/src/net/ErrorLayer.cpp b/src/net/ErrorLayer.cpp
index 287d300..bf14c5d 100644
--- a/src/net/ErrorLayer.cpp
+++ b/src/net/ErrorLayer.cpp
@@ -50,6 +50,14 @@ bool ErrorLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inputs,
     return false;
   }
 
+  if ( first->data.width() != second->data.width() ||
+       first->data.height() != second->data.height() ||
+       third->data.width() < first->data.width() ||
+       third->data.height() < first->data.height() ) {
+    LOGERROR << "Inputs need matching shapes!";
+    return false;
+  }
+
   if ( first->data.samples() != third->data.samples() ) {
     LOGERROR << "Inputs need the same number of samples!";
     return false;
@@ -76,6 +84,10 @@ bool ErrorLayer::Connect ( const std::vector< CombinedTensor* >& inputs,
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
+               first->data.width() == second->data.width() &&
+               first->data.height() == second->data.height() &&
+               third->data.width() >= first->data.width() &&
+               third->data.height() >= first->data.height() &&
                outputs.size() == 0;
 
   if ( valid ) {
-- 
2.43.0


From a1aefe8b38ac21ca59050d839a327833b4f4cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 24/49] fix: F1 of a threshold without true positives is zero,
 not NaN

---
 src/net/BinaryStatLayer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 76ebdfa..3d409df 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -117,7 +117,8 @@ void BinaryStatLayer::UpdateAll() {
                ( true_positives_[t] + false_negatives_[t] );
 
     if ( precision >= 0 && recall >= 0 ) {
-      f1 = 2 * precision * recall / ( precision + recall );
+      f1 = ( precision + recall ) > 0 ?
+           2 * precision * recall / ( precision + recall ) : 0;
     }
 
     if ( f1 > fmax ) {
@@ -150,7 +151,8 @@ void BinaryStatLayer::UpdateAll() {
           ( true_positives_[tfmax] + false_negatives_[tfmax] );
 
   if ( precision >= 0 && recall >= 0 )
-    f1 = 2 * precision * recall / ( precision + recall );
+    f1 = ( precision + recall ) > 0 ?
+         2 * precision * recall / ( precision + recall ) : 0;
   
   acc = ( true_positives_[tfmax] + true_negatives_[tfmax] ) /
           ( true_positives_[tfmax] + true_negatives_[tfmax] +
-- 
2.43.0


From 5a3493425af9e079ee7c0199c44efc67d9439e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 25/49] fix: all weights take QuickProp's first step, not only
 the first weight

---
 src/net/Trainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index a307c79..694cf61 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -498,7 +498,6 @@ void Trainer::ApplyGradients (datum lr) {
 
             if(first_iteration) {
               current_step = - epsilon_zero * current_slope;
-              first_iteration=false;
             } else {
               // A0
               if(std::abs(current_slope) <= epsilon_flat) {
@@ -541,6 +540,9 @@ void Trainer::ApplyGradients (datum lr) {
     }
   }
   
+  // All of the weights take the first step
+  first_iteration = false;
+
   // Update quickprop stats
   if(settings_.optimization_method == QUICKPROP) {
     System::stat_aggregator->Update(stat_qp_caseA_->stat_id, (double)qp_caseA);
-- 
2.43.0


From 94d2a27b4328c08c313aaff1aebac89f16af48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 26/49] fix: an epoch after a test is trained in training mode

---
 src/net/Trainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index 694cf61..0c69867 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -333,6 +333,8 @@ void Trainer::Epoch() {
 	for (NetGraphNode* training_node : graph_.GetTrainingNodes())
 		(dynamic_cast<TrainingLayer*>(training_node->layer))->SetTestingMode(false);
 
+  graph_.SetIsTesting(false);
+
   LOGINFO << "Epoch: " << epoch_ << ", it: " << iterations <<
            ", bsize: " << first_training_layer_->GetBatchSize() * settings_.sbatchsize << ", current lr: " <<
            CalculateLR (epoch_ * iterations) << std::endl;
-- 
2.43.0


From c42d60cdbccd27186f6440e21e946ba5907b846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 27/49] fix: loading parameters into an empty network does not
 run past its layers

---
 src/net/NetGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index c7471a4..7d8d320 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -403,7 +403,7 @@ void NetGraph::DeserializeParameters(std::istream& input, unsigned int last_laye
 	// TODO use unique layer ids
   if (last_layer == 0 || last_layer >= nodes_.size())
     last_layer = nodes_.size() - 1;
-  for (unsigned int l = 0; l <= last_layer; l++) {
+  for (unsigned int l = 0; l < nodes_.size() && l <= last_layer; l++) {
     Layer* layer = nodes_[l]->layer;
     for (unsigned int p = 0; p < layer->parameters().size(); p++) {
       if (!input.good() || input.eof())
-- 
2.43.0


From e9ccf3275ac859e01e0402594292383d92ad245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 28/49] fix: loading parameters from an empty file leaves the
 parameters alone

---
 src/net/NetGraph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 7d8d320..6b9136f 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -406,6 +406,8 @@ void NetGraph::DeserializeParameters(std::istream& input, unsigned int last_laye
   for (unsigned int l = 0; l < nodes_.size() && l <= last_layer; l++) {
     Layer* layer = nodes_[l]->layer;
     for (unsigned int p = 0; p < layer->parameters().size(); p++) {
+      // Notice the end of the file before reading the tensor
+      input.peek();
       if (!input.good() || input.eof())
         break;
       unsigned int elements_before = layer->parameters() [p]->data.elements();
@@ -415,7 +417,6 @@ void NetGraph::DeserializeParameters(std::istream& input, unsigned int last_laye
       if(elements_before != elements_after) {
         LOGERROR << "Deserialization changed layer parameter count!";
       }
-      input.peek();
     }
   }
 }
-- 
2.43.0


From c19277b34053ea54ba4738583836b14358a8adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 29/49] fix: IsComplete reports missing layers and connections
 out of the network

---
 src/net/NetGraph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 6b9136f..5035931 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -85,8 +85,9 @@ bool NetGraph::IsComplete() const {
 			if (node->layer != nullptr) {
 				for (NetGraphConnection connection : node->input_connections) {
 					if (connection.node != nullptr) {
-						if (std::find(nodes_.begin(), nodes_.end(), node) == nodes_.end()) {
+						if (std::find(nodes_.begin(), nodes_.end(), connection.node) == nodes_.end()) {
 							LOGWARN << "Node has out-of-network connection: " << node->layer->GetLayerDescription();
+							node_okay = false;
 						}
 						else {
 							if (connection.buffer >= connection.node->output_buffers.size()) {
@@ -127,7 +128,8 @@ bool NetGraph::IsComplete() const {
 			LOGDEBUG << "Node is okay: " << node->layer->GetLayerDescription();
 		}
 		else {
-			LOGWARN << "Node is not okay: " << node->layer->GetLayerDescription();
+			if (node != nullptr && node->layer != nullptr)
+				LOGWARN << "Node is not okay: " << node->layer->GetLayerDescription();
 			is_complete = false;
 		}
 	}
-- 
2.43.0


From e590bf74a3b455bff25b8f987b3ba84211b52e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 30/49] fix: do not write the header to a CSV file that could
 not be opened

---
 src/util/CSVStatSink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 4f7ac90..a76d49b 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -73,6 +73,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
     LOGERROR << "Cannot open " << csv_filename << " for writing!";
     delete csv_stream_;
     csv_stream_ = nullptr;
+    return;
   }
   // Write header for hardcoded stats
   (*csv_stream_) << "IsTraining,Epoch,Iterations,SecondsElapsed,";
-- 
2.43.0


From f4d6cd133fa494fa60d0a986bfdb6bd1131ac034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 31/49] fix: give statistics registered after initialization
 their storage

---
 src/util/StatAggregator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index e2aed6e..b613121 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -22,6 +22,13 @@ unsigned int StatAggregator::RegisterStat(StatDescriptor* stat_descriptor)
 {
   stat_descriptors_.push_back(stat_descriptor);
   stat_descriptor->stat_id = stat_descriptor_count_;
+  
+  // Statistics registered after initialization need their storage now
+  if(state_ != INIT) {
+    Stat stat;
+    stats_.push_back(stat);
+    stat_descriptor->init_function(stats_.back());
+  }
   return stat_descriptor_count_++;
 }
 
-- 
2.43.0


From b18f1ed197cce7263c1817d748a188e222b9c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 32/49] fix: consider every testing image for the common image
 size

---
 src/util/TensorStreamDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 14109dd..c9cfe73 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -87,7 +87,7 @@ TensorStreamDataset::TensorStreamDataset (
       max_height_ = training_stream_->GetHeight(2*t);
   }
 
-  for (unsigned int t = (tensor_count_training_ / 2) ; t < tensors_; t++) {
+  for (unsigned int t = 0; t < (tensor_count_testing_ / 2); t++) {
     if(testing_stream_->GetWidth(2*t) > max_width_)
       max_width_ = testing_stream_->GetWidth(2*t);
     
-- 
2.43.0


From 3186d16efbbbcf08332dc18f2b5c71d898432938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 33/49] fix: no NaN in the spatial prior of images of width or
 height one

---
 src/util/TensorStreamDataset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index c9cfe73..df54c30 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -205,8 +205,8 @@ bool TensorStreamDataset::GetTrainingSample (Tensor& data_tensor, Tensor& label_
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
@@ -251,8 +251,8 @@ bool TensorStreamDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_t
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
-- 
2.43.0


From b3f75224ad613df52c89e9dbebcee7575e600afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 34/49] fix: testing samples of patch data sets follow the
 training samples

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 00dc53b..53ab65a 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -269,7 +269,7 @@ bool TensorStreamPatchDataset::GetTrainingSample (Tensor& data_tensor, Tensor& l
 
 bool TensorStreamPatchDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_tensor, Tensor& helper_tensor, Tensor& weight_tensor, unsigned int sample, unsigned int index) {
   if (index < sample_count_testing_) {
-		index += sample_count_testing_;
+		index += sample_count_training_;
     bool success = true;
 
     // Find patch
-- 
2.43.0


From 32540dc4556a0140d49ce6a00ed70bbd050c657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 35/49] fix: map the testing file, not the training file, for
 testing patches

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 53ab65a..155cac0 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -442,7 +442,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     }
 #ifdef BUILD_POSIX
     if(!no_mmap)
-      testing_fd = open(training_file.c_str(), O_RDONLY);
+      testing_fd = open(testing_file.c_str(), O_RDONLY);
     if(testing_fd < 0) {
       FATAL("Failed to load " << testing_file << "!");
     }
-- 
2.43.0


From 4fbfb46660d4e7727e2e7d77f8ecf2a2c3ef8b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 36/49] fix: a list of images reports whether a sample was
 copied

---
 src/util/ListTensorStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 0832b12..d5124a5 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -155,11 +155,11 @@ namespace Conv {
 						}
 					}
 				} // end if
-				Tensor::CopySample(label_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(label_tensor, source_sample, target, target_sample);
 				
 			} else {
 				// Tensor has an image in it, no transform needed
-				Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
 			}
 		} else {
 			return false;
-- 
2.43.0


From dff6014bdf3014762fc947c64cc0342c93ca0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 37/49] fix: compressed samples are not copied behind the
 target tensor

---
 src/util/CompressedTensorStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 8f1d7f2..762ee49 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -69,7 +69,7 @@ bool CompressedTensorStream::CopySample(const unsigned int source, const std::si
 {
   if(source < tensors_.size()) {
     CompressedTensor* const ctensor = tensors_[source];
-    if(source_sample == 0 && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
+    if(source_sample == 0 && target_sample < target.samples() && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
       // This is a little hack for faster loading of certain datasets
 #ifdef BUILD_OPENCL
       target.MoveToCPU();
-- 
2.43.0


From 196b5a69cc8d7f4eb19dea564b369d54618a4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 38/49] fix: the picture shows the strongest class also when
 all outputs are negative

---
 src/util/Colorize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Colorize.cpp b/src/util/Colorize.cpp
index 758df1f..b28d423 100644
--- a/src/util/Colorize.cpp
+++ b/src/util/Colorize.cpp
@@ -49,7 +49,7 @@ void Dataset::Colorize(Tensor& net_output_tensor, Tensor& target_tensor) {
        for(unsigned int y = 0; y < net_output_tensor.height(); y++) {
 	for(unsigned int x = 0; x < net_output_tensor.width(); x++) {
 	  unsigned int maxclass = 0;
-	  datum maxvalue = std::numeric_limits<datum>::min();
+	  datum maxvalue = std::numeric_limits<datum>::lowest();
 	  for(unsigned int c = 0; c < GetClasses(); c++) {
 	    const datum value = *net_output_tensor.data_ptr_const(x,y,c,sample);
 	    if(value > maxvalue) {
-- 
2.43.0


From fd72c889af0580b32f95a4590fd1ef654507d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:32 +0000
Subject: [PATCH 39/49] fix: copying a label does not leak the colours of the
 classes

---
 src/util/ListTensorStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index d5124a5..c09bdfd 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -85,9 +85,9 @@ namespace Conv {
 				unsigned int number_of_classes = class_colors_.size();
 				
 				// arrays to store class colors in an easy to index way
-				Conv::datum* cr = new Conv::datum[number_of_classes];
-				Conv::datum* cg = new Conv::datum[number_of_classes];
-				Conv::datum* cb = new Conv::datum[number_of_classes];
+				std::vector<Conv::datum> cr(number_of_classes);
+				std::vector<Conv::datum> cg(number_of_classes);
+				std::vector<Conv::datum> cb(number_of_classes);
 
 				for ( unsigned int c = 0; c < number_of_classes; c++ ) {
 					const unsigned int class_color = class_colors_[c];
-- 
2.43.0


From 37a864f7197d3f5fc7715de609b13c170fa0b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 40/49] fix: release libpng and libjpeg objects and row buffers
 on every path

---
 src/util/JPGUtil.cpp | 3 +++
 src/util/PNGUtil.cpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 9c4cd99..61b3671 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -35,6 +35,7 @@ bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
   FILE* in_file = fopen(file.c_str(), "rb");
   if(in_file == NULL) {
     LOGERROR << "Cannot open " << file;
+    jpeg_destroy_decompress(&cinfo);
     return false;
   }
   
@@ -115,6 +116,8 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_finish_compress(&cinfo);
+  jpeg_destroy_compress(&cinfo);
+  delete[] row_pointer;
   fclose(out_file);
   return true;
 #endif
diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index c0559e1..e50ff2a 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -100,6 +100,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
 
   if ( image_colors & PNG_COLOR_MASK_PALETTE ) {
     LOGERROR << "Unsupported color type: " << image_colors;
+    png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
     return false;
   }
 
@@ -268,6 +269,10 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
   png_write_image(png_handle, row_pointers);
 
   png_write_end ( png_handle, NULL );
+
+  delete[] row_pointers;
+  delete[] pixels;
+  png_destroy_write_struct ( &png_handle, &png_info_handle );
   return true;
 #endif
 }
-- 
2.43.0


From d8022f842fccb01571be5a1fc39c8896a288bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 41/49] fix: JPG writing reads outside tensors of fewer than
 three maps

---
 src/util/JPGUtil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 61b3671..c5361a1 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -80,6 +80,11 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   LOGERROR << "JPG is not supported by this build!";
   return false;
 #else
+  if(tensor.maps() < 3) {
+    LOGERROR << "Cannot write JPGs with less than 3 channels";
+    return false;
+  }
+
   FILE* out_file = fopen(file.c_str(), "wb");
   if(out_file == NULL) {
     LOGERROR << "Cannot open " << file;
-- 
2.43.0


From be9042b32e699d65493d042c2573db0820dea6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 42/49] fix: endings jpeg and Tensor are recognised, short
 names refused

---
 src/util/Tensor.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 5331bce..887afd8 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -597,11 +597,16 @@ std::size_t Tensor::PixelMaximum ( std::size_t x, std::size_t y, std::size_t sam
 }
 
 
+static bool HasEnding ( const std::string& filename, const std::string& ending ) {
+  return filename.length() >= ending.length()
+         && filename.compare ( filename.length() - ending.length(), ending.length(), ending ) == 0;
+}
+
 void Tensor::LoadFromFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( ( HasEnding ( filename, "png" ) )
+       || ( HasEnding ( filename, "PNG" ) )
      ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
@@ -615,10 +620,10 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( ( HasEnding ( filename, "jpg" ) )
+       || ( HasEnding ( filename, "jpeg" ) )
+       || ( HasEnding ( filename, "JPG" ) )
+       || ( HasEnding ( filename, "JPEG" ) )
      ) {
     Conv::JPGUtil::LoadFromFile ( filename, *this );
     return;
@@ -626,7 +631,7 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasEnding ( filename, "Tensor" ) ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
@@ -642,8 +647,8 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 void Tensor::WriteToFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( ( HasEnding ( filename, "png" ) )
+       || ( HasEnding ( filename, "PNG" ) )
      ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
@@ -658,10 +663,10 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( ( HasEnding ( filename, "jpg" ) )
+       || ( HasEnding ( filename, "jpeg" ) )
+       || ( HasEnding ( filename, "JPG" ) )
+       || ( HasEnding ( filename, "JPEG" ) )
      ) {
     Conv::JPGUtil::WriteToFile ( filename, *this );
     return;
@@ -669,7 +674,7 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasEnding ( filename, "Tensor" ) ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
     if ( !output_image_file.good() )
-- 
2.43.0


From ea5a1ec0be30b70f5265243a2df06d1426a18b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 43/49] fix: images that cannot be read or written are refused

---
 src/util/Tensor.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 887afd8..383a64b 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -613,7 +613,8 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
     if ( !input_image_file.good() )
       FATAL ( "Cannot load " << filename );
 
-    Conv::PNGUtil::LoadFromStream ( input_image_file, *this );
+    if ( !Conv::PNGUtil::LoadFromStream ( input_image_file, *this ) )
+      FATAL ( "Cannot load " << filename );
     return;
   }
 
@@ -625,7 +626,8 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
        || ( HasEnding ( filename, "JPG" ) )
        || ( HasEnding ( filename, "JPEG" ) )
      ) {
-    Conv::JPGUtil::LoadFromFile ( filename, *this );
+    if ( !Conv::JPGUtil::LoadFromFile ( filename, *this ) )
+      FATAL ( "Cannot load " << filename );
     return;
   }
 
@@ -656,7 +658,8 @@ void Tensor::WriteToFile ( const std::string& filename ) {
       FATAL ( "Cannot write " << filename );
 
     // Write png
-    Conv::PNGUtil::WriteToStream ( output_image_file, *this );
+    if ( !Conv::PNGUtil::WriteToStream ( output_image_file, *this ) )
+      FATAL ( "Cannot write " << filename );
     return;
   }
 
@@ -668,7 +671,8 @@ void Tensor::WriteToFile ( const std::string& filename ) {
        || ( HasEnding ( filename, "JPG" ) )
        || ( HasEnding ( filename, "JPEG" ) )
      ) {
-    Conv::JPGUtil::WriteToFile ( filename, *this );
+    if ( !Conv::JPGUtil::WriteToFile ( filename, *this ) )
+      FATAL ( "Cannot write " << filename );
     return;
   }
 
-- 
2.43.0


From 20ae86c1b011d72b69b01c9db3083e658f541e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 44/49] fix: classifyImage clears its spatial prior outside the
 tensor for tall pictures

---
 tools/classifyImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index cc05e4a..c7be727 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -101,7 +101,7 @@ int main (int argc, char* argv[]) {
     }
   }
   for (unsigned int y = original_height; y < height; y++) {
-    for (unsigned int x = 0; x < height; x++) {
+    for (unsigned int x = 0; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
       *helper_tensor.data_ptr(x, y, 1, 0) = 0;
     }
-- 
2.43.0


From 10b53c838a255452a561702063877b1b5f269cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:06 +0000
Subject: [PATCH 45/49] fix: labels of fewer than three maps are refused where
 colours are the labels

---
 tools/makeCompressedTensorStream.cpp | 4 ++++
 tools/makeTensorStream.cpp           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index 1f9d597..bc39c32 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -117,6 +117,10 @@ int main ( int argc, char** argv ) {
 
     if(directRGB == "true") {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
+      if ( label_rgb_tensor.maps() < 3 ) {
+        FATAL ( "Unsupported input channel count!" );
+      }
+
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index 2449178..c99c428 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -113,6 +113,10 @@ int main ( int argc, char** argv ) {
 
     if(directRGB == "true") {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
+      if ( label_rgb_tensor.maps() < 3 ) {
+        FATAL ( "Unsupported input channel count!" );
+      }
+
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-- 
2.43.0


From 1a622630b25210e5a522831fdbb7928877734555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:06 +0000
Subject: [PATCH 46/49] fix: trainNetwork checks the testing net's
 completeness, not the training net's again

---
 tools/trainNetwork.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 0f55e60..7f12dd7 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -201,12 +201,12 @@ int main (int argc, char* argv[]) {
       bool testing_completeness = tfactory->AddLayers(*testing_graph, Conv::NetGraphConnection(tinput_node), CLASSES, true);
       LOGDEBUG << "Testing graph complete: " << testing_completeness;
 
-      if(!completeness)
+      if(!testing_completeness)
         FATAL("Graph completeness test failed after factory run!");
 
       addStatLayers(*testing_graph, tinput_node, testing_dataset);
       
-      if(!completeness)
+      if(!testing_completeness)
         FATAL("Graph completeness test failed after adding stat layer!");
 
       testing_graph->Initialize();
-- 
2.43.0


From b57a03c90c3beb48278f6eca7c0c9d17b7d12a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:06 +0000
Subject: [PATCH 47/49] fix: trainNetwork ends when nothing more can be typed

---
 tools/trainNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 7f12dd7..9c0654f 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -259,7 +259,7 @@ int main (int argc, char* argv[]) {
         std::string command;
         std::getline (std::cin, command);
 
-        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command))
+        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command) || !std::cin.good())
           break;
       }
     }
-- 
2.43.0


From 644423f4ef07b22c161a7367f4e2ace9fb029fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:40 +0000
Subject: [PATCH 48/49] fix: compressTensorStream ends after its usage message

---
 tools/compressTensorStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/compressTensorStream.cpp b/tools/compressTensorStream.cpp
index fc02079..590c293 100644
--- a/tools/compressTensorStream.cpp
+++ b/tools/compressTensorStream.cpp
@@ -15,6 +15,8 @@ int main(int argc, char** argv) {
   
   if(argc != 3) {
     LOGERROR << "USAGE: " << argv[0] << " <input (uncompressed) tensor stream> <output (compressed) tensor stream>";
+    LOGEND;
+    return -1;
   }
   
   std::string input_file_name(argv[1]);
-- 
2.43.0


From 4b43c9e447e6f276b2438ba6f600bc421db484a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:41 +0000
Subject: [PATCH 49/49] fix: tensorStreamTool ends when its file cannot be
 opened

---
 tools/tensorStreamTool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index 1e1a685..4d44024 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -24,6 +24,9 @@ int main(int argc, char* argv[]) {
 
   // Open tensor stream
   std::ifstream file_in(std::string(argv[1]), std::ios::in | std::ios::binary);
+  if (!file_in.good()) {
+    FATAL("Cannot open " << argv[1] << "!");
+  }
 
   // Seek until eof to count tensors
   Conv::Tensor tensor;
-- 
2.43.0

